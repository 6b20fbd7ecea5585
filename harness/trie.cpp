// trie.cpp - trie, stable_trie, atom set against std::map
#include "pbt.hpp"
#include <wordring/trie/trie.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/string/atom.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <list>

using namespace pbt;
using namespace wordring;

namespace
{
	template <class L> struct KeyOf { using type = std::basic_string<L>; };
	template <> struct KeyOf<int16_t> { using type = std::vector<int16_t>; };
	template <> struct KeyOf<uint64_t> { using type = std::vector<uint64_t>; };
	template <> struct KeyOf<unsigned char> { using type = std::vector<unsigned char>; };
	template <> struct KeyOf<signed char> { using type = std::vector<signed char>; };

	template <class K> std::string showk(K const& k) { std::ostringstream o; for (auto c : k) o << std::hex << static_cast<uint64_t>(static_cast<std::make_unsigned_t<std::decay_t<decltype(c)>>>(c)) << '.'; return "[" + o.str() + "]"; }

	template <class L> struct ULess
	{
		template <class K> bool operator()(K const& a, K const& b) const
		{
			using U = std::make_unsigned_t<L>;
			return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](L x, L y) { return static_cast<U>(x) < static_cast<U>(y); });
		}
	};

	template <class L> struct Keys
	{
		using K = typename KeyOf<L>::type;
		std::vector<L> alpha; int maxlen = 5;
		std::vector<K> used;
		void setup(Gen& g)
		{
			uint32_t mode = g.below(4);
			if (mode == 0) for (uint64_t c : { 'a', 'b', 'c' }) alpha.push_back(static_cast<L>(c));
			else if (mode == 1) for (uint64_t c : { 0ull, 1ull, 0xFEull, 0xFFull, 0x7Full, 0x80ull, ~0ull }) alpha.push_back(static_cast<L>(c));
			else if (mode == 2) { uint32_t n = g.in(4, 24); for (uint32_t i = 0; i < n; ++i) alpha.push_back(static_cast<L>(g.u64())); }
			else { for (uint64_t c = 0x40; c < 0x60; ++c) alpha.push_back(static_cast<L>(c)); for (uint64_t c : { 0x4141ull, 0x41420000ull, 0x410041ull, 0xFF000000FFull }) alpha.push_back(static_cast<L>(c)); }
			maxlen = static_cast<int>(g.pick({ 3, 5, 9 }));
		}
		K make(Gen& g)
		{
			K k;
			uint32_t how = g.below(8);
			if (how >= 3 && !used.empty())
			{
				k = used[used.size() - 1 - g.below(static_cast<uint32_t>(used.size()))];
				if (how <= 4) return k;
				if (how == 5 && !k.empty()) { k.resize(g.below(static_cast<uint32_t>(k.size()) + 1)); if (g.chance(1, 2)) return k; }
			}
			uint32_t n = g.below(static_cast<uint32_t>(maxlen)) + (k.empty() && !g.chance(1, 25) ? 1 : 0);
			for (uint32_t i = 0; i < n; ++i) k.push_back(g.pick(alpha));
			if (used.size() < 200) used.push_back(k);
			return k;
		}
	};

	template <class L, class K, class V> struct Pre // prefix tree of the model, built on demand
	{
		std::set<K, ULess<L>> nodes;
		explicit Pre(std::map<K, V, ULess<L>> const& m) { for (auto& [k, v] : m) for (size_t i = 0; i <= k.size(); ++i) nodes.insert(K(k.begin(), k.begin() + i)); nodes.insert(K()); }
	};

	template <class L, class T, bool STABLE> struct Rig
	{
		using K = typename KeyOf<L>::type;
		using M = std::map<K, uint32_t, ULess<L>>;
		T t; M m; Keys<L> ks;
		std::map<K, int32_t, ULess<L>> held; // stable trie: positions of leaves, which must not change while other keys come and go
		void match(T& x, M const& mm)
		{
			check(x.size() == mm.size(), "size() is ", x.size(), " expected ", mm.size());
			check(x.empty() == mm.empty(), "empty()");
			for (auto& [k, v] : mm)
			{
				check(x.contains(k), "stored key ", showk(k), " is not contained");
				auto it = x.find(k);
				check(it != x.cend(), "find() of a stored key ", showk(k));
				check(static_cast<uint32_t>(x.at(it)) == v, "value of ", showk(k), " is ", static_cast<uint32_t>(x.at(it)), " expected ", v);
				check(static_cast<uint32_t>(x.at(k)) == v, "at(key) of ", showk(k));
				check(static_cast<uint32_t>(static_cast<T const&>(x).at(k)) == v, "const at(key) of ", showk(k));
			}
			walk(x, mm);
		}
		// walk the whole trie through iterators and compare with the model's prefix tree
		void walk(T const& x, M const& mm)
		{
			Pre<L, K, uint32_t> p(mm);
			size_t seen = 1; size_t budget = p.nodes.size() + 5;
			std::function<void(typename T::const_iterator, K)> rec = [&](auto it, K path)
			{
				bool any = false; std::make_unsigned_t<L> last = 0;
				for (auto c = it.begin(); c != it.end(); ++c)
				{
					check(budget-- > 0, "iteration does not end");
					L l = *c; auto u = static_cast<std::make_unsigned_t<L>>(l);
					if (any) check(last < u, "children are not in label order under ", showk(path));
					last = u; any = true;
					K q = path; q.push_back(l);
					check(p.nodes.count(q) == 1, "iteration visits a node ", showk(q), " that no key goes through");
					++seen;
					check(static_cast<bool>(c) == (mm.count(q) == 1) && !c == (mm.count(q) == 0), "node ", showk(q), " key flag");
					check(c.parent() == it, "parent() of ", showk(q));
					check(it[l] == c, "operator[] from ", showk(path));
					K s; c.string(s); check(s == q, "string() gives ", showk(s), " expected ", showk(q));
					rec(c, q);
				}
			};
			rec(x.begin(), K());
			check(seen == p.nodes.size(), "iteration visits ", seen, " nodes, expected ", p.nodes.size());
			// and whole-trie pre-order through the tree adaptor
			std::vector<K> got, want;
			using B = wordring::tree_iterator<typename T::const_iterator>;
			size_t n = 0;
			for (B i(x.begin()), e; i != e; ++i) { check(++n <= p.nodes.size() + 2, "pre-order walk does not end"); if (i.base() != x.begin() && static_cast<bool>(i.base())) { K s; i.base().string(s); got.push_back(s); } }
			for (auto& kv : mm) want.push_back(kv.first);
			check(got == want, "pre-order enumeration of the keys");
		}
		void probe(Gen& g)
		{
			K k = ks.make(g);
			g.note("probe ", showk(k));
			Pre<L, K, uint32_t> p(m);
			bool in = m.count(k) == 1;
			T const& c = t;
			check(c.contains(k) == in && c.contains(k.begin(), k.end()) == in, "contains(", showk(k), ")");
			check((c.find(k) != c.cend()) == in && (c.find(k.begin(), k.end()) != c.cend()) == in, "find(", showk(k), ")");
			size_t n = 0; while (n < k.size() && p.nodes.count(K(k.begin(), k.begin() + n + 1))) ++n;
			auto r = c.lookup(k.begin(), k.end());
			check(r.second == k.begin() + n, "lookup() stops at ", r.second - k.begin(), " expected ", n);
			K s; if (n == 0) check(r.first == c.cbegin(), "lookup() of nothing is not the root"); else { r.first.string(s); check(s == K(k.begin(), k.begin() + n), "lookup() node ", showk(s)); }
			auto q = c.search(k);
			check((q != c.cend()) == (n == k.size()), "search(", showk(k), ")");
			if (n == k.size() && n) { q.string(s); check(s == k, "search() node"); }
			bool thrown = false; try { (void)static_cast<uint32_t>(t.at(k)); } catch (std::out_of_range const&) { thrown = true; }
			check(thrown == !in, "at() of ", in ? "a stored" : "an absent", " key");
			auto it = c.begin(); for (size_t i = 0; i < k.size(); ++i) { auto nx = it[k[i]]; if (i < n) check(nx != c.cend(), "operator[] loses the path"); else { check(nx == c.cend(), "operator[] finds an absent child"); break; } it = nx; }
		}
		uint32_t value(Gen& g) { return g.pick({ 0u, 1u, 2u, 255u, 256u, 0x7FFFFFFFu, g.below(0x7FFFFFFF) }); }
		void run(Gen& g)
		{
			ks.setup(g);
			uint32_t n = g.len(1, 60); bool erased = false;
			size_t maxn = 0;
			for (uint32_t i = 0; i < n; ++i)
			{
				switch (g.weighted({ 12, 6, 3, 5, 1, 1, 1, 1 }))
				{
				case 0:
				{
					K k = ks.make(g); touch(k); uint32_t v = value(g); g.note("insert ", showk(k), " = ", v);
					auto it = g.chance(1, 2) ? t.insert(k, v) : t.insert(k.begin(), k.end(), v);
					if (k.empty()) check(it == t.cend(), "insert of the empty key");
					else { m.insert({ k, v }); K s; it.string(s); check(s == k, "insert() returned node ", showk(s)); check(static_cast<bool>(it), "insert() returned a non-key node"); }
					break;
				}
				case 1:
				{
					K k = ks.make(g); held.erase(k); g.note("erase ", showk(k));
					if (m.erase(k)) erased = true;
					uint32_t how = g.below(3); if (how == 0) t.erase(k); else if (how == 1) t.erase(k.begin(), k.end()); else t.erase(t.find(k));
					break;
				}
				case 2: { K k = ks.make(g); if (k.empty()) break; touch(k); uint32_t v = value(g); g.note("[] ", showk(k), " = ", v); if (g.chance(1, 4)) { check(static_cast<uint32_t>(t[k]) == (m.count(k) ? m[k] : 0), "[] value"); m.insert({ k, 0 }); } else { t[k] = v; m[k] = v; } break; }
				case 3: probe(g); if (!m.empty() && g.chance(1, 8)) { auto e = m.begin(); std::advance(e, g.below(static_cast<uint32_t>(m.size()))); bool thrown = false; try { t.at(e->first) = -1 - static_cast<int32_t>(g.below(0x7FFFFFFF)); } catch (std::invalid_argument const&) { thrown = true; } check(thrown, "a negative value for ", showk(e->first), " was accepted"); } break;
				case 4:
				{
					uint32_t k = g.below(5); held.clear();
					g.note("whole-container ", k);
					if (k == 0) { T c(t); match(c, m); K kk = ks.make(g); if (!kk.empty()) c.insert(kk, 5); c.clear(); check(c.empty() && c.size() == 0 && c.begin().begin() == c.end(), "clear()"); }
					else if (k == 1) { T c; K kk = ks.make(g); c.insert(kk, 9); c.swap(t); M m2; if (!kk.empty()) m2[kk] = 9; match(t, m2); t.swap(c); }
					else if (k == 2) { T c; c = t; t.clear(); t = std::move(c); }
					else if (k == 3 && g.chance(1, 3)) { t.clear(); m.clear(); }
					break;
				}
				case 5:
				{
					// replace the whole content by a list of strings
					held.clear(); uint32_t c = g.chance(1, 100) ? g.chance(1, 12) ? g.in(500, 1500) : g.in(200, 500) : g.below(20); std::vector<K> l; if (c >= 200) g.label("large assign"); for (uint32_t j = 0; j < c; ++j) l.push_back(ks.make(g));
					bool srt = g.chance(2, 3); if (srt) { std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); }
					g.note("assign ", c, " keys", srt ? " sorted" : ""); for (auto& k : l) g.note("    ", showk(k));
					if (g.chance(1, 3)) { T x(l.begin(), l.end()); t = x; } else if (g.chance(1, 2)) { std::list<K> ll(l.begin(), l.end()); t.assign(ll.begin(), ll.end()); } else t.assign(l.begin(), l.end());
					m.clear(); for (auto& k : l) if (!k.empty()) m[k] = 0;
					g.label("assign strings");
					break;
				}
				case 6: roundtrip(g); break;
				case 7: { uint32_t c = g.chance(1, 100) ? g.chance(1, 12) ? g.in(500, 1500) : g.in(200, 500) : g.in(5, 60); g.note("bulk ", c); if (c >= 200) g.label("large bulk"); for (uint32_t j = 0; j < c; ++j) { K k = ks.make(g); if (k.empty()) continue; touch(k); uint32_t v = g.below(1000); t.insert(k, v); m.insert({ k, v }); } g.label("bulk"); break; }
				}
				if (g.verbose) { std::string s; for (auto& [k, v] : m) s += showk(k) + "=" + std::to_string(v) + " "; g.note("   model ", s); }
				if (STABLE) hold(g);
				if (m.size() <= 12 || i % 4 == 0 || i + 1 == n) match(t, m);
				maxn = std::max(maxn, m.size());
			}
			g.nontrivial(maxn >= 5 && n >= 5);
			if (erased) g.label("erased");
		}
		// k is about to be inserted: a leaf that k extends stops being a leaf
		void touch(K const& k) { if (STABLE) for (size_t i = 0; i < k.size(); ++i) held.erase(K(k.begin(), k.begin() + i)); }
		int32_t leaf_pos(K const& k)
		{
			if constexpr (STABLE) { int32_t i = 0; auto it = t.find(k); check(static_cast<bool>(it), "stored key not found"); (void)t.at(it, i); return i; } else return 0;
		}
		void hold(Gen& g)
		{
			for (auto& [k, pos] : held) check(leaf_pos(k) == pos, "the leaf of ", showk(k), " moved from ", pos, " to ", leaf_pos(k));
			if (!m.empty() && held.size() < 12)
			{
				auto e = m.begin(); std::advance(e, g.below(static_cast<uint32_t>(m.size())));
				held.insert_or_assign(e->first, leaf_pos(e->first)); g.label("leaf position held");
			}
		}
		void roundtrip(Gen& g)
		{
			uint32_t how = g.below(4); g.note("serialise round trip ", how);
			g.label("round trip");
			if (how == 0) { std::vector<int32_t> v(t.ibegin(), t.iend()); T x(v.begin(), v.end()); match(x, m); t.clear(); t.assign(v.begin(), v.end()); }
			else if (how == 1) { auto b = wordring::serialize_iterator(t.ibegin()); auto e = wordring::serialize_iterator(t.iend()); std::vector<char> v(b, e); T x(v.begin(), v.end()); match(x, m); t.clear(); t.assign(v.begin(), v.end()); }
			else
			{
				std::stringstream ss; uint32_t tail = g.below(40); ss << "head"; ss << t; for (uint32_t i = 0; i < tail; ++i) ss.put(static_cast<char>('A' + i % 26));
				char h[4]; ss.read(h, 4);
				T x; if (g.chance(1, 2)) x.insert(ks.used.empty() ? K(3, ks.alpha[0]) : ks.used[0], 3);
				ss >> x; match(x, m);
				std::string rest((std::istreambuf_iterator<char>(ss)), std::istreambuf_iterator<char>());
				check(rest.size() == tail, "reading the trie from a stream left ", rest.size(), " of the ", tail, " bytes that follow it");
				t = x;
			}
		}
	};

	template <class L> void trie_case(Gen& g) { Rig<L, trie<L>, false> r; r.run(g); }
	template <class L> void stable_case(Gen& g) { Rig<L, stable_trie<L>, true> r; r.run(g); }
	void t01(Gen& g) { switch (g.weighted({ 4, 3, 3, 1, 1, 1, 2 })) { case 6: { Rig<unsigned char, wordring::detail::trie_base<>, false> r; r.run(g); g.label("byte trie"); break; } case 0: trie_case<char>(g); break; case 1: trie_case<char16_t>(g); break; case 2: trie_case<char32_t>(g); break; case 3: trie_case<int16_t>(g); break; case 4: trie_case<uint64_t>(g); break; default: trie_case<signed char>(g); } }
	void t02(Gen& g) { switch (g.weighted({ 4, 3, 3, 1, 1, 1, 2 })) { case 6: { Rig<unsigned char, wordring::detail::stable_trie_base<>, true> r; r.run(g); g.label("byte trie"); break; } case 0: stable_case<char>(g); break; case 1: stable_case<char16_t>(g); break; case 2: stable_case<char32_t>(g); break; case 3: stable_case<int16_t>(g); break; case 4: stable_case<uint64_t>(g); break; default: stable_case<signed char>(g); } }

	// ---- atoms ----------------------------------------------------------------------------------
	template <class S> void atoms(Gen& g)
	{
		using L = typename S::value_type; using A = basic_atom_set<S>;
		Keys<L> ks; ks.setup(g);
		A a; std::set<S> m; std::map<S, uint32_t> ids;
		uint32_t n = g.len(1, 50);
		bool const prefix_known = std::strstr(getenv("VERIF_KNOWN") ? getenv("VERIF_KNOWN") : "", "prefix-id") != nullptr;
		for (uint32_t i = 0; i < n; ++i)
		{
			std::map<S, uint32_t> before;
			for (auto& s : m) before[s] = static_cast<uint32_t>(a.at(s));
			S touched; bool inserting = false;
			switch (g.weighted({ 8, 4, 2, 1, 1 }))
			{
			case 0:
			{
				S k = ks.make(g); g.note("insert ", showk(k)); inserting = true; touched = k;
				auto x = g.chance(1, 2) ? a.insert(k) : g.chance(1, 2) ? a[k] : a.insert(k.begin(), k.end());
				if (!k.empty()) { m.insert(k); check(static_cast<S>(x) == k, "atom of ", showk(k), " gives ", showk(static_cast<S>(x))); check(static_cast<uint32_t>(x) != 0, "id 0 for a stored string"); }
				break;
			}
			case 1:
			{
				S k = ks.make(g); g.note("erase ", showk(k)); inserting = true; touched.clear();
				if (m.count(k) && g.chance(1, 2)) a.erase(static_cast<uint32_t>(a.at(k))); else if (g.chance(1, 2)) a.erase(k); else a.erase(k.begin(), k.end());
				m.erase(k); before.erase(k);
				break;
			}
			case 2: { S k = ks.make(g); g.note("probe ", showk(k)); bool in = m.count(k); check(a.contains(k) == in && a.contains(k.begin(), k.end()) == in, "contains"); auto x = a.at(k); check(static_cast<bool>(x) == in && (static_cast<uint32_t>(x) != 0) == in, "at(", showk(k), ")"); S s; check(x.string(s) == (in ? k : S()), "string()"); break; }
			case 3:
			{
				g.note("round trip"); inserting = true;
				std::vector<uint32_t> v(a.ibegin(), a.iend()); A b(v.begin(), v.end()); a = b; g.label("round trip");
				break;
			}
			case 4:
			{
				uint32_t c = g.chance(1, 150) ? g.in(50, 500) : g.below(12); std::vector<S> l; if (c >= 50) g.label("large assign"); for (uint32_t j = 0; j < c; ++j) l.push_back(ks.make(g));
				g.note("assign ", c, " strings");
				if (g.chance(1, 2)) a.assign(l.begin(), l.end()); else a = A(l.begin(), l.end());
				m.clear(); for (auto& k : l) if (!k.empty()) m.insert(k);
				break;
			}
			}
			// ids and strings correspond one to one
			check(a.size() == m.size(), "size() ", a.size(), " expected ", m.size());
			std::map<uint32_t, S> rev;
			for (auto& s : m)
			{
				auto x = a.at(s); uint32_t id = static_cast<uint32_t>(x);
				check(id != 0 && a.contains(s), "stored string ", showk(s), " has no id");
				check(rev.emplace(id, s).second, "two strings share id ", id);
				auto y = a.at(id); check(y == x && static_cast<S>(y) == s, "id ", id, " of ", showk(s), " leads to ", showk(static_cast<S>(y)));
				check(a.at(s.begin(), s.end()) == x, "at(range)");
			}
			// an id that was handed out stays valid while other strings come and go
			if (inserting) for (auto& [s, id] : before)
			{
				bool pre = touched.size() > s.size() && touched.compare(0, s.size(), s) == 0;
				if (pre && prefix_known) continue;
				check(static_cast<uint32_t>(a.at(s)) == id, "the id of ", showk(s), " changed from ", id, " to ", static_cast<uint32_t>(a.at(s)), " when ", showk(touched), " was inserted");
			}
			// an id nobody has gives the empty atom
			if (!m.empty() && g.chance(1, 3)) { uint32_t id = g.below(rev.rbegin()->first + 300); if (!rev.count(id)) { auto x = a.at(id); check(!x && static_cast<uint32_t>(x) == 0 && static_cast<S>(x).empty(), "unassigned id ", id, " leads to an atom"); g.label("unassigned id"); } }
		}
		g.nontrivial(m.size() >= 3);
	}
	void t03(Gen& g) { switch (g.below(3)) { case 0: atoms<std::string>(g); break; case 1: atoms<std::u16string>(g); break; default: atoms<std::u32string>(g); } }

	Reg r01({ "T01", "a history counts when it has at least 5 operations and the trie held at least 5 keys at once", 25000, 500000, t01 });
	Reg r02({ "T02", "a history counts when it has at least 5 operations and the trie held at least 5 keys at once", 25000, 500000, t02 });
	Reg r03({ "T03", "a history counts when it ends with at least 3 stored strings", 100000, 1000000, t03 });
}
PBT_MAIN

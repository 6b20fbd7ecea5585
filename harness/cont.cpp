// cont.cpp - containers: tree, tree traversal, tag_tree, static_vector, serialize, string_matcher
#include "pbt.hpp"
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/static_vector/static_vector.hpp>
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <wordring/string/matcher.hpp>
#include <memory>
#include <deque>
#include <list>
#include <forward_list>

using namespace pbt;
using namespace wordring;

namespace
{
	// ---- reference model of an ordered forest --------------------------------------------------
	struct N
	{
		int id; int kind = 0;
		N* parent = nullptr;
		std::vector<N*> ch;
	};
	struct Model
	{
		std::deque<std::unique_ptr<N>> pool;
		N root{ -1 };                       // virtual parent of the roots
		std::vector<N*> live;
		N* make(int id, int kind = 0) { pool.push_back(std::make_unique<N>()); N* n = pool.back().get(); n->id = id; n->kind = kind; live.push_back(n); return n; }
		void link(N* parent, size_t at, N* n) { parent->ch.insert(parent->ch.begin() + at, n); n->parent = parent; }
		size_t pos(N* n) { return std::find(n->parent->ch.begin(), n->parent->ch.end(), n) - n->parent->ch.begin(); }
		void unlink(N* n) { n->parent->ch.erase(n->parent->ch.begin() + pos(n)); }
		static void collect(N* n, std::vector<N*>& o) { o.push_back(n); for (N* c : n->ch) collect(c, o); }
		void drop(N* n) { std::vector<N*> v; collect(n, v); for (N* x : v) live.erase(std::find(live.begin(), live.end(), x)); }
		bool within(N* a, N* sub) { for (; a && a != &root; a = a->parent) if (a == sub) return true; return false; }
		static std::string dump(N const* n) { std::string s; for (N const* c : n->ch) { s += "(" + std::to_string(c->id); s += dump(c); s += ")"; } return s; }
	};

	// long enough to live on the heap, so that stale or double-moved values show up
	std::string val(int id) { return "value-number-" + std::to_string(id) + "-padding-padding"; }

	using T = tree<std::string>;

	template <class It> void tree_match(It b, It e, N const* m, int depth, It parent)
	{
		size_t i = 0;
		std::vector<It> seen;
		for (It it = b; it != e; ++it, ++i)
		{
			check(i < m->ch.size(), "more children than expected under ", m->id);
			check(*it == val(m->ch[i]->id), "node value: expected ", val(m->ch[i]->id), " got ", *it);
			if (depth > 0) check(it.parent() == parent, "parent() of ", m->ch[i]->id, " is not ", m->id);
			seen.push_back(it);
			tree_match(it.begin(), it.end(), m->ch[i], depth + 1, it);
		}
		check(i == m->ch.size(), "fewer children than expected under ", m->id, ": ", i, " of ", m->ch.size());
		// and backwards from the end
		It it = e;
		for (size_t k = seen.size(); k-- > 0;) { --it; check(it == seen[k], "reverse step from child ", k + 1, " of ", m->id); }
	}

	std::string tree_dump(T const& t)
	{
		std::string s; int budget = 5000;
		std::function<void(T::const_iterator, T::const_iterator)> f = [&](auto b, auto e) { for (; b != e && budget-- > 0; ++b) { std::string v = *b; auto p = v.find("number-"); s += "(" + v.substr(p + 7, v.find("-pad") - p - 7); f(b.begin(), b.end()); s += ")"; } };
		f(t.begin(), t.end());
		return s;
	}

	struct TreeRig
	{
		T t; Model m; std::map<N*, T::iterator> h; int next = 0;
		void full()
		{
			tree_match<T::const_iterator>(t.cbegin(), t.cend(), &m.root, 0, T::const_iterator());
			if (!m.live.empty()) check(t.front() == val(m.root.ch[0]->id) && static_cast<T const&>(t).front() == t.front(), "front()");
			check(t.size() == m.live.size(), "size() is ", t.size(), " expected ", m.live.size());
			check(t.empty() == m.live.empty(), "empty()");
			for (auto& [n, it] : h)
			{
				check(*it == val(n->id), "a handle to node ", n->id, " no longer denotes it");
				std::vector<N*> v; Model::collect(n, v);
				check(t.size(it) == v.size(), "size(subtree of ", n->id, ")");
			}
		}
		// insertion point: parent + index; returns iterator
		T::const_iterator at(N* parent, size_t i)
		{
			if (i < parent->ch.size()) return h[parent->ch[i]];
			return parent == &m.root ? T::const_iterator(t.end()) : T::const_iterator(h[parent].end());
		}
		N* any(Gen& g, bool root_ok) { uint32_t k = g.below(static_cast<uint32_t>(m.live.size()) + (root_ok ? 1 : 0)); return k < m.live.size() ? m.live[m.live.size() - 1 - k] : &m.root; }
		void insert(Gen& g)
		{
			N* p = g.chance(1, 12) ? &m.root : any(g, m.live.empty()); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
			if (g.chance(1, 2)) i = p->ch.size();
			N* n = m.make(next++);
			auto pos = at(p, i);
			uint32_t how = g.below(3);
			std::string v = val(n->id);
			T::iterator it = how == 0 ? t.insert(pos, static_cast<std::string const&>(v)) : how == 1 ? t.insert(pos, std::move(v)) : t.emplace(pos, v);
			g.note("insert ", n->id, " under ", p->id, " at ", i);
			m.link(p, i, n); h[n] = it;
			check(*it == val(n->id), "insert returned a wrong iterator");
		}
		// handles of a subtree whose root handle is it
		void rehandle(N* n, T::iterator it) { h[n] = it; auto c = it.begin(); for (N* x : n->ch) { check(c != it.end(), "child missing while walking"); rehandle(x, c); ++c; } }
		bool step(Gen& g)
		{
			uint32_t op = m.live.empty() ? 0 : g.weighted({ 5, 2, 3, 1, 1, 1 });
			if (op == 0) { insert(g); return true; }
			if (op == 1) // erase
			{
				N* n = any(g, false);
				g.note("erase ", n->id);
				N* p = n->parent; size_t i = m.pos(n);
				auto r = t.erase(h[n]);
				std::vector<N*> v; Model::collect(n, v); for (N* x : v) h.erase(x);
				m.unlink(n); m.drop(n);
				check(r == at(p, i), "erase did not return the following sibling");
				return true;
			}
			if (op == 2) // move
			{
				N* n = any(g, false); N* p = any(g, true); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
				if (i < p->ch.size() && p->ch[i] == n) return false; // before itself: unspecified
				auto pos = at(p, i);
				if (m.within(p, n))
				{
					g.note("move ", n->id, " into own descendant ", p->id, " at ", i);
					g.label("illegal move");
					bool thrown = false;
					try { t.move(pos, h[n]); } catch (std::invalid_argument const&) { thrown = true; }
					check(thrown, "moving a node under itself must throw std::invalid_argument");
					return true;
				}
				g.note("move ", n->id, " under ", p->id, " at ", i);
				N* before = i < p->ch.size() ? p->ch[i] : nullptr;
				auto r = t.move(pos, h[n]);
				m.unlink(n);
				size_t j = before ? m.pos(before) : p->ch.size();
				m.link(p, j, n);
				check(*r == val(n->id), "move returned a wrong iterator");
				h[n] = r;
				return true;
			}
			if (op == 3) // copy a subtree inside the same tree (not into itself)
			{
				N* n = any(g, false); N* p = any(g, true); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
				std::vector<N*> v; Model::collect(n, v);
				if (m.within(p, n) || v.size() + m.live.size() > 120) return false;
				g.note("copy ", n->id, " under ", p->id, " at ", i);
				g.label("subtree copy");
				auto r = t.insert(at(p, i), T::const_iterator(h[n]));
				std::function<N*(N*)> cp = [&](N* x) { N* y = m.make(x->id); for (N* c : x->ch) { N* z = cp(c); z->parent = y; y->ch.push_back(z); } return y; };
				N* y = cp(n); m.link(p, i, y);
				rehandle(y, r);
				return true;
			}
			if (op == 4) // whole-container operations
			{
				uint32_t k = g.below(6);
				if (k == 5)
				{
					T one(val(4711)), two(static_cast<std::string const&>(val(4712))); for (T* x : { &one, &two }) { check(x->size() == 1 && !x->empty() && *x->begin() == val(x == &one ? 4711 : 4712) && x->front() == *x->begin() && x->back() == *x->begin() && x->begin().begin() == x->begin().end(), "a tree made of one value"); check(++x->begin() == x->end(), "a tree made of one value has several roots"); }
					if (g.chance(1, 8)) { h.clear(); m.root.ch.clear(); m.live.clear(); N* n = m.make(next++); g.note("assign ", n->id); std::string v = val(n->id); if (g.chance(1, 2)) t.assign(v); else t.assign(std::move(v)); m.link(&m.root, 0, n); h[n] = t.begin(); }
				}
				else if (k == 0)
				{
					g.note("copy construct + compare independence");
					T c(t); tree_match<T::const_iterator>(c.cbegin(), c.cend(), &m.root, 0, T::const_iterator());
					c.insert(c.end(), val(99999)); c.clear(); check(c.empty(), "clear() leaves elements");
				}
				else if (k == 1) { g.note("move construct/assign back"); T c(std::move(t)); t = T(); t = std::move(c); std::map<N*, T::iterator> h2; h.clear(); auto it = t.begin(); for (N* x : m.root.ch) { check(it != t.end(), "roots lost by move"); rehandle(x, it); ++it; } }
				else if (k == 2) { g.note("swap twice"); T c; c.insert(c.end(), val(12345)); t.swap(c); check(t.size() == 1 && *t.begin() == val(12345), "swap"); c.swap(t); h.clear(); auto it = t.begin(); for (N* x : m.root.ch) { check(it != t.end(), "roots lost by swap"); rehandle(x, it); ++it; } }
				else if (k == 3 && g.chance(1, 4)) { g.note("clear"); t.clear(); h.clear(); m.root.ch.clear(); m.live.clear(); }
				else if (k == 4) { N* n = any(g, false); g.note("overwrite value of ", n->id); n->id = next++; *h[n] = val(n->id); }
				return true;
			}
			// copy a subtree from another tree
			T o; auto r0 = o.insert(o.end(), val(next)); N* y = m.make(next++);
			std::vector<std::pair<T::iterator, N*>> v{ { r0, y } };
			uint32_t k = g.below(8);
			for (uint32_t q = 0; q < k; ++q)
			{
				auto [it, n] = v[g.below(static_cast<uint32_t>(v.size()))];
				N* z = m.make(next++); z->parent = n; n->ch.push_back(z);
				v.push_back({ o.insert(it.end(), val(z->id)), z });
			}
			m.live.resize(m.live.size() - v.size());
			N* p = any(g, true); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
			g.note("graft foreign ", y->id, Model::dump(y), " under ", p->id, " at ", i);
			auto r = t.insert(at(p, i), T::const_iterator(r0));
			for (auto& [it, n] : v) m.live.push_back(n);
			m.link(p, i, y);
			rehandle(y, r);
			g.label("graft");
			return true;
		}
	};

	void c01(Gen& g)
	{
		TreeRig r; uint32_t n = g.wide(1, 60, 600, 400); uint32_t done = 0; size_t maxn = 0;
		for (uint32_t i = 0; i < n; ++i) { if (r.step(g)) ++done; maxn = std::max(maxn, r.m.live.size()); if (g.verbose) g.note("   model ", Model::dump(&r.m.root), "\n   tree  ", tree_dump(r.t)); if (n <= 60 || i % 8 == 0 || i + 1 == n) r.full(); }
		g.nontrivial(done >= 5 && maxn >= 4);
		if (r.m.root.ch.size() > 1) g.label("several roots");
	}

	// ---- traversal ------------------------------------------------------------------------------
	void c02(Gen& g)
	{
		// random tree built through random insertions and erasures, so that node slots are out of order
		TreeRig r; uint32_t n = g.wide(1, 50, 900, 400);
		for (uint32_t i = 0; i < n; ++i) { if (!r.m.live.empty() && g.chance(1, 6)) { N* x = r.any(g, false); r.t.erase(r.h[x]); std::vector<N*> v; Model::collect(x, v); for (N* y : v) r.h.erase(y); r.m.unlink(x); r.m.drop(x); } else r.insert(g); }
		g.note("tree ", Model::dump(&r.m.root));
		if (r.m.live.empty()) throw Discard{};
		N* top = r.any(g, false);
		if (g.chance(2, 3)) while (top->parent != &r.m.root) top = top->parent;
		g.note("start ", top->id);
		std::vector<N*> pre; Model::collect(top, pre);
		std::vector<N*> lev{ top }; for (size_t i = 0; i < lev.size(); ++i) for (N* c : lev[i]->ch) lev.push_back(c);
		auto drive = [&](auto it, auto end, std::vector<N*> const& want, char const* what)
		{
			size_t i = 0;
			while (it != end)
			{
				check(i < want.size(), what, ": visits more than the subtree");
				check(*it == val(want[i]->id), what, ": step ", i, " visits ", *it, " expected ", val(want[i]->id));
				check(it.base() == r.h[want[i]], what, ": base()");
				check(it->size() == val(want[i]->id).size(), what, ": ->");
				auto cp = it; check(cp == it, what, ": copy differs");
				if (g.chance(1, 2)) ++it; else { auto b = it++; check(b == r.h[want[i]], what, ": post-increment"); }
				check(*cp == val(want[i]->id), what, ": advancing disturbed a copy");
				++i;
			}
			check(i == want.size(), what, ": stops after ", i, " of ", want.size());
		};
		// a copy made midway, by any means and over any other traversal, has the same remaining sequence
		auto copies = [&](auto it, auto end, std::vector<N*> const& want, char const* what)
		{
			size_t k = g.below(static_cast<uint32_t>(want.size()) + 1); for (size_t i = 0; i < k; ++i) ++it;
			std::vector<N*> rest(want.begin() + static_cast<long>(k), want.end());
			using It = decltype(it);
			It other = end;
			uint32_t how = g.below(4);
			if (how == 1 && !rest.empty()) other = It(typename It::base_type(r.h[rest[0]]));
			else if (how == 2) { N* o = r.any(g, false); other = It(typename It::base_type(r.h[o])); for (uint32_t i = g.below(6); i-- > 0 && other != end;) ++other; }
			else if (how == 3) other = it;
			uint32_t way = g.below(5);
			g.note(what, " copied at step ", k, " in way ", way, " over ", how);
			auto walk = [&](It x, char const* who) { size_t i = 0; for (; x != end; ++x, ++i) check(i < rest.size() && x.base() == r.h[rest[i]], what, ", ", who, " at step ", k, ": remaining step ", i, " is wrong"); check(i == rest.size(), what, ", ", who, " at step ", k, ": ends after ", i, " of ", rest.size(), " remaining"); };
			if (way == 0) { It c(it); walk(c, "copy"); walk(it, "original of a copy"); }
			else if (way == 1) { other = it; check(&(other = other) == &other, "self-assignment"); walk(other, "assigned copy"); walk(it, "original of an assigned copy"); }
			else if (way == 2) { It c(it); It m(std::move(c)); walk(m, "moved copy"); c = m; walk(c, "moved-from copy assigned anew"); }
			else if (way == 3) { It c(it); other = std::move(c); walk(other, "move-assigned copy"); }
			else { using std::swap; It c(it), o(other); swap(c, o); walk(o, "swapped copy"); }
		};
		T::iterator b = r.h[top];
		copies(tree_iterator<T::iterator>(b), tree_iterator<T::iterator>(), pre, "pre-order");
		copies(level_order_tree_iterator<T::iterator>(b), level_order_tree_iterator<T::iterator>(), lev, "level-order");
		if (g.chance(1, 4)) copies(level_order_tree_iterator<T::const_iterator>(T::const_iterator(b)), level_order_tree_iterator<T::const_iterator>(), lev, "const level-order");
		drive(tree_iterator<T::iterator>(b), tree_iterator<T::iterator>(), pre, "pre-order");
		drive(level_order_tree_iterator<T::iterator>(b), level_order_tree_iterator<T::iterator>(), lev, "level-order");
		drive(tree_iterator<T::const_iterator>(T::const_iterator(b)), tree_iterator<T::const_iterator>(), pre, "const pre-order");
		if (!top->ch.empty())
		{
			// a range of siblings
			size_t lo = g.below(static_cast<uint32_t>(top->ch.size())), hi = lo + g.below(static_cast<uint32_t>(top->ch.size() - lo) + 1);
			T::iterator e = hi < top->ch.size() ? r.h[top->ch[hi]] : b.end();
			std::vector<N*> rp, rl; for (size_t i = lo; i < hi; ++i) { Model::collect(top->ch[i], rp); rl.push_back(top->ch[i]); } for (size_t i = 0; i < rl.size(); ++i) for (N* c : rl[i]->ch) rl.push_back(c);
			drive(tree_iterator<T::iterator>(r.h[top->ch[lo]], e), tree_iterator<T::iterator>(), rp, "pre-order of siblings");
			drive(level_order_tree_iterator<T::iterator>(r.h[top->ch[lo]], e), level_order_tree_iterator<T::iterator>(), rl, "level-order of siblings");
		}
		tree_iterator<T::iterator> x(b), y; y = x; check(y == x && y.base() == b, "assignment of a traversal iterator"); if (++x == tree_iterator<T::iterator>()) check(pre.size() == 1, "pre-order ends"); check(y.base() == b, "advancing disturbed an assigned copy");
		g.nontrivial(pre.size() >= 5);
	}

	// ---- tag_tree -------------------------------------------------------------------------------
	using TT = tag_tree<html::simple_node<std::u32string>>;
	using TN = html::simple_node<std::u32string>;
	std::u32string u32(std::string const& s) { return std::u32string(s.begin(), s.end()); }
	// kinds: 0 element 1 text 2 comment 3 doctype 4 document 5 processing instruction is a container like element
	std::u32string txt(int id) { if (id >= 1000 && id % 20 == 11) { std::u32string l; for (int i = 0; i < 254 + id % 50; ++i) l += static_cast<char32_t>(U'a' + i % 26); return l; } return id % 7 == 3 ? U"" : id % 7 == 5 ? std::u32string(1, static_cast<char32_t>(U'A' + id % 26)) : u32("text " + std::to_string(id)); }
	TN mk_node(int id, int kind)
	{
		switch (kind)
		{
		case 0: return TN::element_type(u32("el" + std::to_string(id)));
		case 1: return TN::text_type(txt(id));
		case 2: return TN::comment_type(u32("comment " + std::to_string(id)));
		case 3: return TN::document_type_type(u32("dt" + std::to_string(id)), U"", U"");
		default: return TN::document_type();
		}
	}
	bool is_node(TN const& n, N const* m)
	{
		switch (m->kind)
		{
		case 0: return n.is_element() && n.local_name() == u32("el" + std::to_string(m->id));
		case 1: return n.is_text() && n.data() == txt(m->id);
		case 2: return n.is_comment() && n.data() == u32("comment " + std::to_string(m->id));
		case 3: return n.is_document_type() && n.name() == u32("dt" + std::to_string(m->id));
		default: return n.is_document();
		}
	}
	bool container(N const* n) { return n->kind == 0 || n->kind == 4 || n->id < 0; }

	template <class It> void tt_match(It b, It e, N const* m, It parent, std::vector<It>* flat)
	{
		size_t i = 0; std::vector<It> seen;
		for (It it = b; it != e; ++it, ++i)
		{
			check(i < m->ch.size(), "more children than expected under ", m->id);
			check(is_node(*it, m->ch[i]), "wrong node at child ", i, " of ", m->id);
			check(it.parent() == parent, "parent() of ", m->ch[i]->id);
			seen.push_back(it);
			if (flat) flat->push_back(it);
			if (container(m->ch[i])) tt_match<It>(it.begin(), it.end(), m->ch[i], it, flat);
			else check(it.begin() == it.end(), "childless node has children");
		}
		check(i == m->ch.size(), "fewer children than expected under ", m->id);
		It it = e;
		for (size_t k = seen.size(); k-- > 0;) { --it; check(it == seen[k], "reverse step at child ", k, " of ", m->id); }
	}

	struct TagRig
	{
		TT t; Model m; std::map<N*, TT::iterator> h; int next = 0;
		TT::iterator at(N* parent, size_t i)
		{
			if (i < parent->ch.size()) return h[parent->ch[i]];
			return parent == &m.root ? t.end() : h[parent].end();
		}
		N* any(Gen& g) { return m.live[m.live.size() - 1 - g.below(static_cast<uint32_t>(m.live.size()))]; }
		N* anyc(Gen& g) { std::vector<N*> v{ &m.root }; for (N* n : m.live) if (container(n)) v.push_back(n); return v[v.size() - 1 - g.below(static_cast<uint32_t>(v.size()))]; }
		void insert(Gen& g)
		{
			N* p = anyc(g); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
			int kind = static_cast<int>(g.weighted({ 6, 3, 1, 1, 1 }));
			N* n = m.make(next++, kind);
			g.note("insert ", n->id, " kind ", kind, " under ", p->id, " at ", i);
			auto pos = at(p, i);
			TT::iterator it;
			if (g.chance(1, 2)) { TN v = mk_node(n->id, kind); it = t.insert(pos, v); } else it = t.insert(pos, mk_node(n->id, kind));
			m.link(p, i, n); h[n] = it;
		}
		void reh(N* p, TT::iterator b) { for (N* x : p->ch) { h[x] = b; if (container(x)) reh(x, b.begin()); ++b; } }
		void serial(N* n, std::vector<std::pair<N*, int>>& o) { for (N* c : n->ch) { o.push_back({ c, container(c) ? 1 : 0 }); if (container(c)) { serial(c, o); o.push_back({ c, 2 }); } } }
		void full()
		{
			tt_match<TT::iterator>(t.begin(), t.end(), &m.root, TT::iterator(), nullptr);
			tt_match<TT::const_iterator>(t.cbegin(), t.cend(), &m.root, TT::const_iterator(), nullptr);
			check(t.size() == m.live.size(), "size() is ", t.size(), " expected ", m.live.size());
			check(t.empty() == m.live.empty(), "empty()");
			for (auto& [n, it] : h) check(is_node(*it, n), "a handle to node ", n->id, " no longer denotes it");
			std::vector<std::pair<N*, int>> want; serial(&m.root, want);
			size_t i = 0; auto it = t.sbegin();
			for (; it != t.send(); ++it, ++i)
			{
				check(i < want.size(), "serial traversal too long");
				auto [n, k] = want[i];
				check(it.is_start_tag() == (k == 1) && it.is_end_tag() == (k == 2), "serial step ", i, ": tag kind");
				if (k != 2) check(is_node(*it, n), "serial step ", i, ": node");
				if (k != 0)
				{
					TT::iterator s = it.start_tag(), e = it.end_tag();
					check(s == h[n], "start_tag() of step ", i);
					check(e == h[n].end(), "end_tag() of step ", i);
				}
			}
			check(i == want.size(), "serial traversal too short");
			for (size_t k = 0; it != t.sbegin() && k < 3 && k < want.size(); ++k) { auto y = it; check(it-- == y, "serial post-decrement"); y = it; check(it++ == y, "serial post-increment"); check(it == t.send(), "serial post-increment from the last tag"); }
			{
				TT const& ct = t; auto ci = ct.sbegin(), ce = ct.send(); auto mi = t.sbegin();
				for (size_t k = 0; k < want.size(); ++k)
				{
					auto [n, d] = want[k];
					check(ci != ce && ci == TT::const_serial_iterator(mi) && ci.is_start_tag() == (d == 1) && ci.is_end_tag() == (d == 2), "const serial step ", k);
					check(d == 2 || (is_node(*ci, n) && ci.operator->() == &*ci && mi.operator->() == &*mi), "const serial node ", k);
					if (d != 0) check(ci.start_tag() == TT::const_serial_iterator(mi.start_tag()) && ci.end_tag() == TT::const_serial_iterator(mi.end_tag()), "const serial partner ", k);
					auto y = ci; auto ym = mi;
					if (k % 2) { ++ci; ++mi; } else { check(ci++ == y, "const serial post-increment ", k); check(mi++ == ym, "serial post-increment ", k); }
				}
				check(ci == ce, "const serial traversal too long");
				for (size_t k = want.size(); k-- > 0;) { auto y = ci; if (k % 2) --ci; else check(ci-- == y, "const serial post-decrement ", k); check(ci.is_end_tag() == (want[k].second == 2), "const serial reverse step ", k); if (want[k].second != 2) check(is_node(*ci, want[k].first), "const serial reverse node ", k); }
				check(want.empty() || ci == ct.sbegin(), "const serial reverse start");
			}
			for (size_t k = want.size(); k-- > 0;) { --it; check(it.is_end_tag() == (want[k].second == 2), "serial reverse step"); if (want[k].second != 2) check(is_node(*it, want[k].first), "serial reverse node"); }
			// characters: all text from a node on in document order
			auto chars = [&](TT::iterator from, std::u32string const& text, bool whole)
			{
				TT::character_iterator c(from), e = c.end(); std::u32string got, back, wide; std::vector<TT::character_iterator> seen;
				for (auto x = c; x != e; ++x) { got += *x; seen.push_back(x); check(got.size() <= text.size(), "character iterator runs past the text"); }
				check(got == text, "character iterator text ", show(got), " expected ", show(text));
				auto x = e; for (size_t k = text.size(); k-- > 0;) { auto y = x; if (k % 2) --x; else check(x-- == y, "post-decrement"); check(x == seen[k], "reverse character step"); back += *x; }
				std::reverse(back.begin(), back.end());
				check(back == text, "reverse character iteration ", show(back), " expected ", show(text));
				if (whole && !text.empty()) { --x; check(x == e, "stepping back from the first character does not reach the end position"); }
				if (sizeof(wchar_t) == 4) { for (TT::wchar_iterator w(from), f(t.end()); w != f; ++w) wide += static_cast<char32_t>(*w); check(wide == text, "wide character iteration ", show(wide), " expected ", show(text));
					TT::wchar_iterator w(from); for (size_t k = 0; k < text.size(); ++k) { auto v = w; check(w++ == v, "wide post-increment"); } check(w == TT::wchar_iterator(t.end()), "wide end"); for (size_t k = text.size(); k-- > 0;) { if (k % 2) --w; else { auto v = w; check(w-- == v, "wide post-decrement"); } check(static_cast<char32_t>(*w) == text[k] && *w.operator->() == *w, "wide reverse step"); }
					TT::const_character_iterator cc(from); for (size_t k = 0; k < text.size(); ++k) ++cc; for (size_t k = text.size(); k-- > 0;) { if (k % 2) --cc; else cc--; check(*cc == text[k] && *cc.operator->() == text[k], "const character reverse step"); } }
				TT::const_character_iterator d(from); size_t k = 0; for (auto z = d.end(); d != z; d++, ++k) check(k < text.size() && *d == text[k], "const character iteration");
			};
			std::u32string text; std::map<N*, std::u32string> rest;
			for (size_t k = want.size(); k-- > 0;) if (want[k].second != 2) { if (want[k].first->kind == 1) text = txt(want[k].first->id) + text; rest[want[k].first] = text; }
			if (!t.empty()) chars(t.begin(), text, true);
			if (!h.empty()) { auto k = h.begin(); std::advance(k, static_cast<long>((h.size() * 7 + next) % h.size())); chars(k->second, rest[k->first], false); }
			// traversal adaptors
			for (N* top : m.root.ch)
			{
				std::vector<N*> pre; Model::collect(top, pre); std::vector<N*> lev{ top }; for (size_t k = 0; k < lev.size(); ++k) for (N* c : lev[k]->ch) lev.push_back(c);
				size_t k = 0; for (tree_iterator<TT::iterator> a(h[top]), z; a != z; ++a, ++k) check(k < pre.size() && a.base() == h[pre[k]], "pre-order over the tag tree, step ", k);
				check(k == pre.size(), "pre-order over the tag tree stops early");
				k = 0; for (level_order_tree_iterator<TT::iterator> a(h[top]), z; a != z; ++a, ++k) check(k < lev.size() && a.base() == h[lev[k]], "level order over the tag tree, step ", k);
				check(k == lev.size(), "level order over the tag tree stops early");
			}
		}
		bool step(Gen& g)
		{
			uint32_t op = m.live.empty() ? 0 : g.weighted({ 6, 2, 4, 1 });
			if (op == 0) { insert(g); return true; }
			if (op == 1)
			{
				N* n = any(g); g.note("erase ", n->id);
				N* p = n->parent; size_t i = m.pos(n);
				auto r = t.erase(h[n]);
				std::vector<N*> v; Model::collect(n, v); for (N* x : v) h.erase(x);
				m.unlink(n); m.drop(n);
				check(r == at(p, i), "erase did not return the position after the erased node");
				return true;
			}
			if (op == 2)
			{
				N* n = any(g); N* p = anyc(g); size_t i = g.below(static_cast<uint32_t>(p->ch.size()) + 1);
				if (m.within(p, n) || (i < p->ch.size() && p->ch[i] == n)) return false;
				g.note("move ", n->id, " under ", p->id, " at ", i);
				if (p == n->parent && i == m.pos(n) + 1) g.label("move to own position");
				N* before = i < p->ch.size() ? p->ch[i] : nullptr;
				auto r = t.move(at(p, i), h[n]);
				m.unlink(n); m.link(p, before ? m.pos(before) : p->ch.size(), n);
				check(r == h[n], "move returned a wrong iterator");
				return true;
			}
			uint32_t k = g.below(4);
			if (k == 0) { g.note("copy, then destroy the original"); TT c(t); t.clear(); check(t.empty(), "clear"); t = c; h.clear(); reh(&m.root, t.begin()); }
			else if (k == 1) { g.note("move away and back"); TT c(std::move(t)); t = std::move(c); }
			else if (k == 2) { g.note("swap with another"); TT c; c.insert(c.end(), mk_node(77, 1)); t.swap(c); check(t.size() == 1, "swap"); t.swap(c); }
			else if (g.chance(1, 4)) { g.note("clear"); t.clear(); h.clear(); m.root.ch.clear(); m.live.clear(); }
			return true;
		}
	};
	void c03(Gen& g)
	{
		TagRig r; uint32_t n = g.wide(1, 50, 500, 400); size_t maxn = 0; uint32_t done = 0; if (g.chance(1, 10)) { r.next = 1009; g.label("long texts"); }
		for (uint32_t i = 0; i < n; ++i) { if (r.step(g)) ++done; maxn = std::max(maxn, r.m.live.size()); if (g.verbose) g.note("   model ", Model::dump(&r.m.root)); if (n <= 50 || i % 8 == 0 || i + 1 == n) r.full(); }
		g.nontrivial(done >= 5 && maxn >= 4);
	}

	// ---- static_vector --------------------------------------------------------------------------
	template <class V, size_t CAP> struct SvRig
	{
		using SV = static_vector<V, CAP>;
		SV s, s2; std::vector<V> v, v2;
		std::function<V(int)> mk;
		int next = 0;
		V fresh() { return mk(next++); }
		void same(SV const& a, std::vector<V> const& b)
		{
			check(a.size() == b.size(), "size() ", a.size(), " expected ", b.size());
			check(a.empty() == b.empty(), "empty()");
			check(a.capacity() == CAP && a.max_size() == CAP, "capacity()");
			for (size_t i = 0; i < b.size(); ++i) check(a[i] == b[i] && a.at(i) == b[i] && a.data()[i] == b[i], "element ", i);
			check(std::equal(a.begin(), a.end(), b.begin(), b.end()), "iteration");
			check(std::equal(a.rbegin(), a.rend(), b.rbegin(), b.rend()), "reverse iteration");
			check(static_cast<size_t>(a.end() - a.begin()) == b.size(), "iterator difference");
			if (!b.empty()) check(a.front() == b.front() && a.back() == b.back(), "front/back");
			if (!b.empty()) { SV& w = const_cast<SV&>(a); check(&w.front() == &a.front() && &w.back() == &a.back() && &*w.begin() == &a.front() && w.data() == a.data() && &w.at(b.size() - 1) == &a.back() && &w[0] == &a.front(), "mutable access"); check(std::equal(w.rbegin(), w.rend(), b.rbegin(), b.rend()) && std::equal(a.cbegin(), a.cend(), b.begin(), b.end()) && std::equal(a.crbegin(), a.crend(), b.rbegin(), b.rend()), "mutable reverse and constant iteration"); }
			for (size_t i = 0; i < 2; ++i) { bool t = false; try { (void)a.at(b.size() + i); } catch (std::out_of_range const&) { t = true; } check(t, "at(", b.size() + i, ") past the size must throw std::out_of_range"); }
		}
		void run(Gen& g)
		{
			uint32_t n = g.wide(1, 50, 400, 300); bool full_seen = false;
			for (uint32_t i = 0; i < n; ++i)
			{
				size_t z = v.size(), room = CAP - z;
				size_t p = g.below(static_cast<uint32_t>(z) + 1);
				switch (g.below(18))
				{
				case 0: if (room) { V x = fresh(); g.note("push_back copy"); s.push_back(x); v.push_back(x); } break;
				case 1: if (room) { V x = fresh(), y = x; g.note("push_back move"); s.push_back(std::move(x)); v.push_back(std::move(y)); } break;
				case 2: if (z) { g.note("pop_back"); s.pop_back(); v.pop_back(); } break;
				case 3: if (room) { V x = fresh(); g.note("insert copy at ", p); auto r = s.insert(s.cbegin() + p, x); auto q = v.insert(v.begin() + p, x); check(static_cast<size_t>(r - s.begin()) == static_cast<size_t>(q - v.begin()) && *r == x, "insert result"); } break;
				case 4: if (room) { V x = fresh(), y = x; g.note("insert move at ", p); auto r = s.insert(s.cbegin() + p, std::move(x)); v.insert(v.begin() + p, y); check(static_cast<size_t>(r - s.begin()) == p && *r == y, "insert result"); } break;
				case 5: { size_t c = g.below(static_cast<uint32_t>(room) + 1); V x = fresh(); g.note("insert ", c, " copies at ", p); auto r = s.insert(s.cbegin() + p, c, x); v.insert(v.begin() + p, c, x); check(static_cast<size_t>(r - s.begin()) == p, "insert result"); break; }
				case 6: { size_t c = g.below(static_cast<uint32_t>(room) + 1); std::list<V> l; for (size_t k = 0; k < c; ++k) l.push_back(fresh()); g.note("insert range of ", c, " at ", p); auto r = s.insert(s.cbegin() + p, l.begin(), l.end()); v.insert(v.begin() + p, l.begin(), l.end()); check(static_cast<size_t>(r - s.begin()) == p, "insert result"); break; }
				case 7: if (room >= 2) { V x = fresh(), y = fresh(); g.note("insert ilist at ", p); s.insert(s.cbegin() + p, { x, y }); v.insert(v.begin() + p, { x, y }); } break;
				case 8: if (p < z) { g.note("erase at ", p); auto r = s.erase(s.cbegin() + p); v.erase(v.begin() + p); check(static_cast<size_t>(r - s.begin()) == p, "erase result"); } break;
				case 9: if (p < z) { size_t q = p + g.below(static_cast<uint32_t>(z - p) + 1); g.note("erase [", p, ",", q, ")"); auto r = s.erase(s.cbegin() + p, s.cbegin() + q); v.erase(v.begin() + p, v.begin() + q); check(static_cast<size_t>(r - s.begin()) == p, "erase result"); } break;
				case 10: { size_t c = g.below(CAP + 1); g.note("resize ", c); s.resize(c); v.resize(c); break; }
				case 11: { size_t c = g.below(CAP + 1); V x = fresh(); g.note("resize ", c, " with value"); s.resize(c, x); v.resize(c, x); break; }
				case 12: { size_t c = g.below(CAP + 1); V x = fresh(); g.note("assign ", c); s.assign(c, x); v.assign(c, x); break; }
				case 13: { size_t c = g.below(CAP + 1); std::vector<V> l; for (size_t k = 0; k < c; ++k) l.push_back(fresh()); g.note("assign range ", c); s.assign(l.begin(), l.end()); v = l; break; }
				case 14: if (g.chance(1, 3)) { g.note("clear"); s.clear(); v.clear(); } break;
				case 15: { g.note("swap/copy/move"); uint32_t k = g.below(4); if (k == 0) { s.swap(s2); v.swap(v2); } else if (k == 1) { s2 = s; v2 = v; } else if (k == 2) { SV c(s); s2 = std::move(c); v2 = v; } else { SV c(v.begin(), v.end()); s = c; } break; }
				case 16: if (z) { V x = fresh(); g.note("write through iterator at ", p % z); s.begin()[static_cast<int>(p % z)] = x; v[p % z] = x; auto it = s.begin(); it += p % z; check(*it == x, "+="); it -= p % z; check(it == s.begin(), "-="); it += z; check(it == s.end(), "+= size"); auto e = s.end(); --e; check(*e == v.back(), "--end"); } break;
				case 17: if (room && z) { size_t q = g.below(static_cast<uint32_t>(z)); g.note("insert own element ", q, " at ", p); V x = v[q]; uint32_t how = g.below(4); if (how == 0) { g.note("(pushed back)"); s.push_back(s[q]); v.push_back(x); } else if (how == 1) { size_t c = z + g.below(static_cast<uint32_t>(room) + 1); g.note("(resized to ", c, ")"); s.resize(c, s[q]); v.resize(c, x); } else if (room >= 2 && g.chance(1, 2)) { s.insert(s.cbegin() + p, size_t(2), s[q]); v.insert(v.begin() + p, 2, x); } else { s.insert(s.cbegin() + p, s[q]); v.insert(v.begin() + p, x); } g.label("self-aliasing insert"); } break;
				}
				same(s, v); same(s2, v2);
				{
					int zz = static_cast<int>(s.size()), x = static_cast<int>(g.below(zz + 1)), y = static_cast<int>(g.below(zz + 1)); auto a = s.begin() + x, b = s.begin() + y; typename SV::const_iterator ca = a, cb; cb = b;
					auto rel = [&](auto const& l, auto const& r) { check((l == r) == (x == y) && (l != r) == (x != y) && (l < r) == (x < y) && (l <= r) == (x <= y) && (l > r) == (x > y) && (l >= r) == (x >= y) && r - l == y - x, "comparing iterators at ", x, " and ", y, " of ", zz); };
					rel(a, b); rel(ca, cb); rel(a, cb); rel(ca, b);
					if (x < zz) { check(*ca == v[x] && &*ca == &*a && a.operator->() == &*a && ca.operator->() == &*ca, "dereference"); auto c = a; check(c++ == a && c == a + 1 && --c == a && ++c - 1 == a && c-- == a + 1 && c == a, "stepping"); }
					check((b - (y - x)) == a && &s.begin()[0] == s.data(), "iterator arithmetic");
				}
				check((s == s2) == (v == v2) && (s != s2) == (v != v2) && (s < s2) == (v < v2) && (s <= s2) == (v <= v2) && (s > s2) == (v > v2) && (s >= s2) == (v >= v2), "comparison operators");
				if (s.size() == CAP) full_seen = true;
			}
			g.nontrivial(n >= 5 && next >= 3);
			if (full_seen) g.label("reached capacity");
		}
	};
	void c04(Gen& g)
	{
		switch (g.weighted({ 8, 8, 8, 8, 1 }))
		{
		case 4: { SvRig<char16_t, 300> r; r.mk = [](int i) { return static_cast<char16_t>(i % 7 + 0x2F0); }; r.run(g); g.label("large capacity"); break; }
		case 0: { SvRig<std::string, 8> r; r.mk = [](int i) { return val(i % 5); }; r.run(g); break; }
		case 1: { SvRig<char, 5> r; r.mk = [](int i) { return static_cast<char>('a' + i % 7); }; r.run(g); break; }
		case 2: { SvRig<std::string, 1> r; r.mk = [](int i) { return val(i % 5); }; r.run(g); break; }
		default: { SvRig<char32_t, 16> r; r.mk = [](int i) { return static_cast<char32_t>(0x10000 + i % 7); }; r.run(g); break; }
		}
	}

	// ---- serialize ------------------------------------------------------------------------------
	template <class I> void ser(Gen& g)
	{
		using U = std::make_unsigned_t<I>;
		uint32_t n = g.wide(0, 20, 700, 300);
		std::vector<I> v;
		for (uint32_t i = 0; i < n; ++i)
		{
			uint64_t x = 0;
			switch (g.below(4)) { case 0: x = g.u64(); break; case 1: x = ~0ull; break; case 2: x = 1ull << g.below(64); break; case 3: x = g.below(256); break; }
			v.push_back(static_cast<I>(static_cast<U>(x)));
		}
		std::string want; // big-endian two's complement, written with arithmetic of its own
		for (I x : v) { U u = static_cast<U>(x); std::string b; for (size_t k = 0; k < sizeof(I); ++k) { b.insert(b.begin(), static_cast<char>(u % 256)); u = static_cast<U>(sizeof(I) == 1 ? 0 : u / 256); } want += b; }
		g.note("width ", sizeof(I), " bytes ", hex(want));
		std::string got;
		for (I x : v) { auto a = wordring::serialize(x); check(a.size() == sizeof(I), "serialize() length"); for (size_t k = 0; k < a.size(); ++k) { got += static_cast<char>(a[k]); check(wordring::serialize(x, static_cast<uint32_t>(k)) == a[k], "serialize(value, position)"); } }
		check(got == want, "serialize() bytes ", hex(got), " expected ", hex(want));
		{
			std::string it_bytes; auto e = serialize_iterator(v.begin()); e = serialize_iterator(v.end());
			for (auto it = serialize_iterator(v.begin()); it != e; ++it) { it_bytes += static_cast<char>(*it); check(it_bytes.size() <= want.size(), "serialize_iterator does not stop"); }
			check(it_bytes == want, "serialize_iterator bytes ", hex(it_bytes), " expected ", hex(want));
			std::list<I> l(v.begin(), v.end()); std::string lb; auto le = serialize_iterator(l.begin()); le = serialize_iterator(l.end());
			auto it = serialize_iterator(l.begin()); while (it != le) lb += static_cast<char>(*it++);
			check(lb == want, "serialize_iterator over a list");
		}
		{
			std::vector<I> back; using D = deserialize_iterator<I, std::string::iterator>;
			for (D it(want.begin()), e(want.end()); it != e; ++it) back.push_back(*it);
			check(back == v, "deserialize_iterator does not give the integers back");
			std::list<char> l(want.begin(), want.end()); back.clear(); using D2 = deserialize_iterator<I, std::list<char>::iterator>;
			D2 it(l.begin()), e(l.end()); while (it != e) back.push_back(*it++);
			check(back == v, "deserialize_iterator over a list");
		}
		{
			auto p = want.begin(); std::vector<I> back;
			while (p != want.end()) { I x{}; auto q = deserialize(p, want.end(), x); check(q == p + sizeof(I), "deserialize() consumed ", q - p); p = q; back.push_back(x); }
			check(back == v, "deserialize() does not give the integers back");
			std::vector<unsigned char> uc(want.begin(), want.end()); auto r = uc.begin(); back.clear();
			while (r != uc.end()) { I x{}; r = deserialize(r, uc.end(), x); back.push_back(x); }
			check(back == v, "deserialize() over unsigned char");
		}
		g.nontrivial(v.size() >= 1);
	}
	void c05(Gen& g)
	{
		switch (g.below(8))
		{
		case 0: ser<int8_t>(g); break; case 1: ser<uint8_t>(g); break; case 2: ser<int16_t>(g); break; case 3: ser<uint16_t>(g); break;
		case 4: ser<int32_t>(g); break; case 5: ser<uint32_t>(g); break; case 6: ser<int64_t>(g); break; default: ser<uint64_t>(g); break;
		}
	}

	// ---- string_matcher -------------------------------------------------------------------------
	template <class S> void match_strings(Gen& g, S const& alphabet)
	{
		using M = string_matcher<S>; using C = typename S::value_type; using R = typename M::match_result;
		uint32_t n = g.below(6);
		std::vector<S> p;
		for (uint32_t i = 0; i < n; ++i)
		{
			S s;
			if (!p.empty() && g.chance(1, 2)) { s = g.pick(p); s.resize(1 + g.below(static_cast<uint32_t>(s.size()))); }
			uint32_t k = g.wide(s.empty() ? 1 : 0, 4, 300, 300); for (uint32_t j = 0; j < k; ++j) s += alphabet[g.below(3)];
			p.push_back(s);
		}
		auto make = [&]() -> M { switch (n) { case 0: return M({}); case 1: return M({ p[0] }); case 2: return M({ p[0], p[1] }); case 3: return M({ p[0], p[1], p[2] }); case 4: return M({ p[0], p[1], p[2], p[3] }); default: return M({ p[0], p[1], p[2], p[3], p[4] }); } };
		M m = make();
		for (auto& s : p) g.note("pattern ", show(s));
		uint32_t rounds = g.in(1, 4);
		for (uint32_t r = 0; r < rounds; ++r)
		{
			S fed;
			for (int step = 0; step < 400; ++step)
			{
				C c = alphabet[g.below(4)];
				if (!p.empty() && g.chance(3, 4)) { auto& q = g.pick(p); if (fed.size() < q.size()) c = q[fed.size()]; }
				fed += c;
				bool exact = false, part = false;
				for (auto& s : p) { if (s == fed) exact = true; if (s.size() > fed.size() && s.compare(0, fed.size(), fed) == 0) part = true; }
				auto want = exact ? R::succeed : part ? R::partial : R::failed;
				if (g.chance(1, 16)) { M k(m); k.push_back(alphabet[g.below(4)]); if (g.chance(1, 2)) { k = m; m.push_back(c); m = k; } g.label("copied midway"); }
				auto got = m.push_back(c);
				g.note("round ", r, " fed ", show(fed), " -> ", static_cast<int>(got));
				check(got == want, "after feeding ", show(fed), " result ", static_cast<int>(got), " expected ", static_cast<int>(want));
				check(m.data() == fed && m.size() == fed.size(), "data()/size()");
				if (want != R::partial) { g.nontrivial(fed.size() >= 2); break; }
			}
			m.clear();
			check(m.size() == 0 && m.data().empty(), "clear()");
		}
	}
	void c06(Gen& g)
	{
		uint32_t k = g.weighted({ 4, 2, 1, 1 });
		if (k == 0) match_strings<std::u32string>(g, U"ab\U0001F600c");
		else if (k == 1) match_strings<std::string>(g, "ab\xE3" "c");
		else if (k == 2) match_strings<std::u16string>(g, u"ab\u3042c");
		else match_strings<std::u8string>(g, u8"ab\u00E9");
	}

	Reg r01({ "C01", "a history of tree operations counts when at least 5 took effect and the forest held at least 4 nodes", 300000, 2000000, c01 });
	Reg r02({ "C02", "a traversal counts when the traversed subtree has at least 5 nodes", 600000, 6000000, c02 });
	Reg r03({ "C03", "a history counts when at least 5 operations took effect and the document held at least 4 nodes", 200000, 2500000, c03 });
	Reg r04({ "C04", "a history counts when it has at least 5 operations and created at least 3 values", 300000, 5000000, c04 });
	Reg r05({ "C05", "a sequence counts when it has at least one integer", 1200000, 12000000, c05 });
	Reg r06({ "C06", "a run counts when it fed at least 2 characters before a verdict", 5000000, 60000000, c06 });
}
PBT_MAIN

// node.cpp - HTML names and nodes
#include "pbt.hpp"
#include <deque>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_traits.hpp>

using namespace pbt;
namespace html = wordring::html;
using U = std::u32string;

namespace
{
	template <typename Name> struct Known { Name id; char32_t const* text; };
#include "html_names.inc"

	template <typename S> U u32(S const& s) { return wordring::encoding_cast<U>(s); }
	std::string A(U const& u) { std::string r; for (char32_t c : u) r += 0x20 <= c && c < 0x7F ? std::string(1, static_cast<char>(c)) : "\\u{" + std::to_string(static_cast<uint32_t>(c)) + "}"; return r; }

	template <typename Name> std::map<U, uint32_t> const& ids();
	template <typename Name, size_t N> std::map<U, uint32_t> build(Known<Name> const (&k)[N]) { std::map<U, uint32_t> r; for (auto const& x : k) r[x.text] = static_cast<uint32_t>(x.id); return r; }
	template <> std::map<U, uint32_t> const& ids<html::tag_name>() { static auto const m = build(known_tags); return m; }
	template <> std::map<U, uint32_t> const& ids<html::attribute_name>() { static auto const m = build(known_attributes); return m; }
	template <> std::map<U, uint32_t> const& ids<html::ns_name>() { static auto const m = build(known_namespaces); return m; }

	template <typename Name> uint32_t id_of(U const& s) { auto i = ids<Name>().find(s); return i == ids<Name>().end() ? 0 : i->second; }
	template <typename Name> U known(Gen& g) { auto i = ids<Name>().begin(); std::advance(i, g.below(static_cast<uint32_t>(ids<Name>().size()))); return i->first; }

	U odd(Gen& g, U s)
	{
		uint32_t k = g.in(1, 2);
		for (uint32_t i = 0; i < k; ++i)
			switch (g.below(6))
			{
			case 0: if (!s.empty()) s.pop_back(); break;
			case 1: s += g.pick({ U'a', U's', U'1', U'-', U' ', U':', char32_t(0xE9), char32_t(0x3042), char32_t(0x1F600), U'\0' }); break;
			case 2: if (!s.empty()) { auto& c = s[g.below(static_cast<uint32_t>(s.size()))]; if (U'a' <= c && c <= U'z') c -= 32; else if (U'A' <= c && c <= U'Z') c += 32; else c = U'x'; } break;
			case 3: if (!s.empty()) s.erase(g.below(static_cast<uint32_t>(s.size())), 1); break;
			case 4: for (auto& c : s) if (U'A' <= c && c <= U'Z') c += 32; break;
			default: if (s.size() > 1) std::swap(s[0], s[1]); break;
			}
		return s;
	}
	// a name and how it is made
	struct Spec { U text; bool by_id; };
	template <typename Name> Spec spec(Gen& g)
	{
		switch (g.weighted({ 5, 4, 4, 1 }))
		{
		case 0: return { known<Name>(g), true };
		case 1: return { known<Name>(g), false };
		case 2: { U s = odd(g, known<Name>(g)); return { s, id_of<Name>(s) && g.chance(1, 2) }; }
		default: return { U(), g.chance(1, 2) };
		}
	}
	template <typename Str, typename Name> using Atom = wordring::whatwg::html::basic_html_atom<Str, Name>;
	template <typename Str, typename Name> Atom<Str, Name> make(Spec const& s) { if (s.by_id) return Atom<Str, Name>(static_cast<Name>(id_of<Name>(s.text))); return Atom<Str, Name>(wordring::encoding_cast<Str>(s.text)); }

	template <typename Str, typename Name> void atoms(Gen& g, char const* what)
	{
		Spec a = spec<Name>(g), b = g.chance(1, 3) ? Spec{ a.text, id_of<Name>(a.text) ? !a.by_id : a.by_id } : spec<Name>(g);
		if (g.chance(1, 3)) { b.text = odd(g, a.text); b.by_id = id_of<Name>(b.text) && g.chance(1, 2); }
		g.note(what, " \"", A(a.text), a.by_id ? "\" by number, \"" : "\" by text, \"", A(b.text), b.by_id ? "\" by number" : "\" by text");
		g.nontrivial(!a.text.empty() && !b.text.empty()); g.label(a.text == b.text ? "equal names" : "different names");
		auto x = make<Str, Name>(a); auto y = make<Str, Name>(b);
		auto verify = [&](Atom<Str, Name> const& p, U const& t, char const* when)
		{
			if (u32(static_cast<Str>(p)) != t) fail("the text of \"", A(t), "\" is \"", A(u32(static_cast<Str>(p))), "\" ", when);
			if (static_cast<uint32_t>(static_cast<Name>(p)) != id_of<Name>(t)) fail("the name \"", A(t), "\" has number ", static_cast<uint32_t>(static_cast<Name>(p)), " and not ", id_of<Name>(t), " ", when);
		};
		verify(x, a.text, "after construction"); verify(y, b.text, "after construction");
		bool eq = a.text == b.text; Str sa = wordring::encoding_cast<Str>(a.text), sb = wordring::encoding_cast<Str>(b.text);
		check((x == y) == eq && (y == x) == eq && (x != y) == !eq && (y != x) == !eq, "comparison of two names");
		check((x == sb) == eq && (sb == x) == eq && (x != sb) == !eq && (sb != x) == !eq && (y == sa) == eq, "comparison with a text");
		Name nb = static_cast<Name>(id_of<Name>(b.text));
		if (id_of<Name>(b.text)) check((x == nb) == eq && (nb == x) == eq && (x != nb) == !eq && (nb != x) == !eq, "comparison with a number");
		auto z = x; z = y; verify(z, b.text, "after assignment"); verify(x, a.text, "after the assignment of a copy");
		x = sb; verify(x, b.text, "after assignment of a text"); if (id_of<Name>(b.text)) { y = make<Str, Name>({ a.text, false }); y = nb; verify(y, b.text, "after assignment of a number"); }
	}

	// ---- attributes
	struct MAttr { uint32_t ns; U prefix, name, value; bool key(MAttr const& o) const { return ns == o.ns && prefix == o.prefix && name == o.name; } };
	MAttr attr(Gen& g)
	{
		static U const pool[] = { U"id", U"class", U"href", U"lang", U"x", U"ID", U"xlink:href", U"xmlns", U"viewBox", U"viewbox", U"", U"data-x", U"space" };
		MAttr a; a.ns = g.weighted({ 6, 0, 0, 0, 2, 2, 2 }); a.prefix = g.chance(1, 3) ? U(g.pick({ U"xlink", U"xml", U"xmlns", U"p" })) : U(); a.name = g.chance(5, 6) ? g.pick(pool) : known<html::attribute_name>(g); a.value = g.pick({ U"", U"1", U"2", U"x y" }); return a;
	}
	template <typename Str> html::simple_attr<Str> attr_of(Gen& g, MAttr const& m)
	{
		auto S = [](U const& u) { return wordring::encoding_cast<Str>(u); };
		auto ns = static_cast<html::ns_name>(m.ns); auto id = static_cast<html::attribute_name>(id_of<html::attribute_name>(m.name)); bool by = static_cast<uint32_t>(id) && g.chance(1, 2);
		if (m.ns == 0 && m.prefix.empty() && g.chance(1, 3)) { if (by) return html::simple_attr<Str>(id, S(m.value)); return html::simple_attr<Str>(S(m.name), S(m.value)); }
		if (g.chance(1, 5)) { html::simple_attr<Str> a(S(U"other"), S(U"v")); a.namespace_uri_name(ns); a.prefix(S(m.prefix)); if (by) a.local_name_name(id); else a.local_name(S(m.name)); a.value(S(m.value)); return a; }
		if (by) return html::simple_attr<Str>(ns, S(m.prefix), id, S(m.value));
		return html::simple_attr<Str>(ns, S(m.prefix), S(m.name), S(m.value));
	}
	struct MElem { uint32_t ns; U prefix, name; std::vector<MAttr> attrs; };
	MElem elem(Gen& g)
	{
		MElem e; e.ns = g.pick({ 1u, 1u, 2u, 3u }); e.prefix = g.chance(1, 6) ? U"p" : U""; e.name = g.chance(2, 3) ? U(g.pick({ U"b", U"B", U"a", U"x-y", U"foreignObject", U"foreignobject", U"title" })) : known<html::tag_name>(g);
		uint32_t n = g.wide(0, 5, 40, 100); for (uint32_t i = 0; i < n; ++i) { MAttr a = attr(g); bool dup = false; for (auto const& o : e.attrs) if (o.key(a)) dup = true; if (!dup) e.attrs.push_back(a); }
		return e;
	}
	template <typename Str> html::simple_element<Str> elem_of(Gen& g, MElem const& m)
	{
		auto S = [](U const& u) { return wordring::encoding_cast<Str>(u); };
		auto ns = static_cast<html::ns_name>(m.ns); auto id = static_cast<html::tag_name>(id_of<html::tag_name>(m.name)); bool by = static_cast<uint32_t>(id) && g.chance(1, 2);
		html::simple_element<Str> e;
		switch (g.below(4))
		{
		case 0: e.namespace_uri_name(ns); e.namespace_prefix(S(m.prefix)); if (by) e.local_name_name(id); else e.local_name(S(m.name)); break;
		case 1: for (auto const& k : known_namespaces) if (k.id == ns) e = html::simple_element<Str>(S(k.text), S(m.prefix), S(m.name)); break;
		case 2: if (m.ns == 1 && m.prefix.empty()) { e = by ? html::simple_element<Str>(id) : html::simple_element<Str>(S(m.name)); break; } [[fallthrough]];
		default: e = by ? html::simple_element<Str>(ns, S(m.prefix), id) : html::simple_element<Str>(ns, S(m.prefix), S(m.name)); break;
		}
		for (auto const& a : m.attrs) e.push_back(attr_of<Str>(g, a));
		return e;
	}
	template <typename Str, typename E> void same(E const& e, MElem const& m, char const* what)
	{
		check(static_cast<uint32_t>(e.namespace_uri_name()) == m.ns, what, ": namespace of the element");
		check(u32(e.local_name()) == m.name && static_cast<uint32_t>(e.local_name_name()) == id_of<html::tag_name>(m.name), what, ": name of the element is ", A(u32(e.local_name())));
		check(u32(e.qualified_name()) == (m.prefix.empty() ? m.name : m.prefix + U":" + m.name), what, ": qualified name of the element");
		for (auto const& k : known_namespaces) if (static_cast<uint32_t>(k.id) == m.ns) check(u32(e.namespace_uri()) == k.text, what, ": namespace URI");
		size_t i = 0;
		for (auto a = e.begin(); a != e.end(); ++a, ++i)
		{
			check(i < m.attrs.size(), what, ": too many attributes"); auto const& o = m.attrs[i];
			check(static_cast<uint32_t>(a->namespace_uri_name()) == o.ns && u32(a->prefix()) == o.prefix && u32(a->local_name()) == o.name && u32(a->value()) == o.value, what, ": attribute ", i);
			check(static_cast<uint32_t>(a->local_name_name()) == id_of<html::attribute_name>(o.name), what, ": number of attribute ", i);
			check(u32(a->qualified_name()) == (o.prefix.empty() ? o.name : o.prefix + U":" + o.name), what, ": qualified name of attribute ", i);
		}
		check(i == m.attrs.size(), what, ": too few attributes");
	}
	template <typename Str, typename Tree> void elements(Gen& g)
	{
		auto S = [](U const& u) { return wordring::encoding_cast<Str>(u); };
		MElem a = elem(g), b = elem(g);
		if (g.chance(1, 2))
		{
			// a variation of the first
			b = a; if (b.attrs.size() > 1 && g.chance(1, 2)) { uint32_t r = g.below(static_cast<uint32_t>(b.attrs.size())); std::rotate(b.attrs.begin(), b.attrs.begin() + r, b.attrs.end()); }
			switch (g.below(6)) { case 0: b.name = odd(g, b.name); break; case 1: b.ns = b.ns % 3 + 1; break; case 2: if (!b.attrs.empty()) b.attrs.pop_back(); break; case 3: if (!b.attrs.empty()) b.attrs[0].value += U"x"; break; case 4: if (!b.attrs.empty()) { MAttr n = b.attrs[0]; n.name = odd(g, n.name); bool dup = false; for (auto const& o : b.attrs) if (o.key(n)) dup = true; if (!dup) b.attrs[0] = n; } break; default: break; }
		}
		g.note("element ", a.ns, ' ', A(a.name), " with ", a.attrs.size(), " attributes"); for (auto const& x : a.attrs) g.note("  ", x.ns, ' ', A(x.prefix), ':', A(x.name), '=', A(x.value));
		g.note("element ", b.ns, ' ', A(b.name), " with ", b.attrs.size(), " attributes"); for (auto const& x : b.attrs) g.note("  ", x.ns, ' ', A(x.prefix), ':', A(x.name), '=', A(x.value));
		g.nontrivial(a.attrs.size() >= 2); g.label("elements");
		auto ea = elem_of<Str>(g, a), eb = elem_of<Str>(g, b); same<Str>(ea, a, "element"); same<Str>(eb, b, "element");
		check(u32(ea.namespace_prefix()) == a.prefix, "prefix of the element");
		html::simple_node<Str> na(ea); html::simple_node<Str> nb(eb);
		same<Str>(na, a, "node");
		// look-up
		for (uint32_t k = 0; k < 4; ++k)
		{
			MAttr q = !a.attrs.empty() && g.chance(2, 3) ? g.pick(a.attrs) : attr(g); if (g.chance(1, 5)) q.name = odd(g, q.name); if (g.chance(1, 6)) q.prefix = U""; if (g.chance(1, 6)) q.ns = 0;
			auto pos = [&](auto pred) { size_t i = 0; while (i < a.attrs.size() && !pred(a.attrs[i])) ++i; return i; };
			size_t w = pos([&](MAttr const& o) { return o.key(q); }), w0 = pos([&](MAttr const& o) { return o.ns == 0 && o.prefix.empty() && o.name == q.name; });
			auto ns = static_cast<html::ns_name>(q.ns); html::simple_element<Str> const& ce = ea; html::simple_node<Str> const& cn = na;
			auto at = [&](auto it) { return static_cast<size_t>(it - ce.begin()); }; auto an = [&](auto it) { return static_cast<size_t>(it - cn.begin()); };
			check(at(ce.find(ns, S(q.prefix), S(q.name))) == w, "find() of attribute ", A(q.name), " in the element");
			check(at(ce.find(attr_of<Str>(g, q))) == w, "find() of an attribute like ", A(q.name), " in the element");
			check(at(ce.find(S(q.name))) == w0, "find() of attribute name ", A(q.name), " in the element");
			check(an(cn.find(ns, S(q.prefix), S(q.name))) == w, "find() of attribute ", A(q.name), " in the node");
			check(an(cn.find(S(q.name))) == w0, "find() of attribute name ", A(q.name), " in the node");
			check(na.contains(ns, S(q.prefix), S(q.name)) == (w < a.attrs.size()), "contains() of ", A(q.name));
			if (uint32_t id = id_of<html::attribute_name>(q.name))
			{
				auto n = static_cast<html::attribute_name>(id);
				check(at(ce.find(n)) == w0 && an(cn.find(n)) == w0, "find() of attribute number of ", A(q.name)); check(at(ce.find(ns, S(q.prefix), n)) == w, "find() of attribute number in a namespace");
				if (w0 < a.attrs.size()) check(*(ce.begin() + static_cast<long>(w0)) == n && n == *(ce.begin() + static_cast<long>(w0)), "attribute equals its number");
			}
			for (size_t i = 0; i < a.attrs.size(); ++i) { auto x = attr_of<Str>(g, q); auto const& y = *(ce.begin() + static_cast<long>(i)); bool eq = a.attrs[i].key(q); check((x == y) == eq && (y == x) == eq && (x != y) == !eq, "comparison of attributes"); bool e0 = a.attrs[i].ns == 0 && a.attrs[i].prefix.empty() && a.attrs[i].name == q.name; check((y == S(q.name)) == e0 && (S(q.name) == y) == e0 && (y != S(q.name)) == !e0, "comparison of an attribute with a name"); }
		}
		// equality
		auto subset = [](MElem const& x, MElem const& y, bool values) { for (auto const& o : x.attrs) { bool f = false; for (auto const& p : y.attrs) if (o.key(p) && (!values || o.value == p.value)) f = true; if (!f) return false; } return true; };
		bool eq = a.ns == b.ns && a.name == b.name && a.attrs.size() == b.attrs.size() && subset(a, b, false), ev = eq && subset(a, b, true);
		check((ea == eb) == eq && (eb == ea) == eq && (ea != eb) == !eq, "comparison of elements"); check((na == nb) == eq && (na != nb) == !eq, "comparison of nodes");
		Tree t; auto d = t.insert(t.end(), html::simple_document<Str>()); auto ia = t.insert(d.end(), na), ib = t.insert(d.end(), nb);
		using Tr = html::node_traits<typename Tree::iterator>;
		check(Tr::equals(ia, ib) == ev && Tr::equals(ib, ia) == ev, "elements alike in namespace, name and attributes with values");
		for (auto it : { ia, ib })
		{
			MElem const& m = it == ia ? a : b;
			check(Tr::is_element(it) && !Tr::is_text(it) && !Tr::is_comment(it) && !Tr::is_document(it) && !Tr::is_document_type(it), "kind of node");
			check(static_cast<uint32_t>(Tr::get_namespace_name(it)) == m.ns && u32(Tr::get_local_name(it)) == m.name, "names through the traits");
			for (auto k : { U"b", U"title", U"html" }) check(Tr::is_html_element_of(it, static_cast<html::tag_name>(id_of<html::tag_name>(k))) == (m.ns == 1 && m.name == k), "is an HTML element of a name");
		}
		// copies are independent
		html::simple_node<Str> cp(na); cp.push_back(html::simple_attr<Str>(S(U"added"), S(U"v"))); same<Str>(na, a, "the original of a changed copy"); MElem c = a; c.attrs.push_back({ 0, U"", U"added", U"v" }); same<Str>(cp, c, "copy"); cp = nb; same<Str>(cp, b, "assigned node");
	}
	void h05(Gen& g)
	{
		uint32_t w = g.below(3);
		switch (g.weighted({ 2, 3, 3, 6 }))
		{
		case 0: w == 0 ? atoms<std::u8string, html::ns_name>(g, "namespace") : w == 1 ? atoms<std::u16string, html::ns_name>(g, "namespace") : atoms<U, html::ns_name>(g, "namespace"); break;
		case 1: w == 0 ? atoms<std::u8string, html::tag_name>(g, "element name") : w == 1 ? atoms<std::u16string, html::tag_name>(g, "element name") : atoms<U, html::tag_name>(g, "element name"); break;
		case 2: w == 0 ? atoms<std::u8string, html::attribute_name>(g, "attribute name") : w == 1 ? atoms<std::u16string, html::attribute_name>(g, "attribute name") : atoms<U, html::attribute_name>(g, "attribute name"); break;
		default: w == 0 ? elements<std::u8string, html::u8simple_tree>(g) : w == 1 ? elements<std::u16string, html::u16simple_tree>(g) : elements<U, html::u32simple_tree>(g); break;
		}
	}
	// every known name, both ways
	template <typename Str, typename Name> void sweep() { for (auto const& [t, i] : ids<Name>()) { Atom<Str, Name> a(static_cast<Name>(i)), b(wordring::encoding_cast<Str>(t)); check(u32(static_cast<Str>(a)) == t, "the text of name number ", i, " is ", A(u32(static_cast<Str>(a))), " and not ", A(t)); check(static_cast<uint32_t>(static_cast<Name>(b)) == i, "the number of ", A(t), " is ", static_cast<uint32_t>(static_cast<Name>(b))); check(a == b, "the two forms of ", A(t)); } }
	void all_names() { sweep<std::u8string, html::ns_name>(); sweep<U, html::tag_name>(); sweep<std::u16string, html::attribute_name>(); sweep<std::u8string, html::tag_name>(); }
	Reg r05({ "H05", "a pair of names counts when neither is empty; a pair of elements counts when the first has at least two attributes", 700000, 10000000, h05, 20, { { "all known names", all_names } } });
}
PBT_MAIN

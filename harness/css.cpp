// css.cpp - CSS syntax: tokenizer, parser, input decoding; selectors
#include "pbt.hpp"
#include "css_ref.hpp"
#include "enc_ref.hpp"
#include <list>
#include <wordring/css/selector.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/wwwc/css_syntax/parsing.hpp>
#include <wordring/wwwc/selectors/api.hpp>

using namespace pbt;
namespace css = wordring::wwwc::css;
using cssref::N; using cssref::U;

namespace
{
	U W(char const* s) { U r; for (; *s; ++s) r += static_cast<unsigned char>(*s); return r; }
	template <typename S> S const& ref(S const& s) { return s; }

	// ---- library values as reference nodes --------------------------------------------------------
	using sn = css::syntax_primitive_name;
	template <typename C> std::vector<N> conv(std::vector<C> const& v);
	template <typename P> N tok(P const& p)
	{
		N n; auto named = [&](char const* k, U const& t) { n.kind = k; n.text = t; };
		auto flag = [](css::number_type_flag_name f) { return f == css::number_type_flag_name::integer ? "integer" : f == css::number_type_flag_name::number ? "number" : "?"; };
		switch (p.type())
		{
		case sn::IdentToken: named("ident", p.template get<css::ident_token>().m_value); break;
		case sn::AtKeywordToken: named("at-keyword", p.template get<css::at_keyword_token>().m_value); break;
		case sn::HashToken:
		{
			auto const& h = p.template get<css::hash_token>(); named("hash", h.m_value);
			n.flag = h.m_type_flag == css::hash_token::type_flag_name::id ? "id" : h.m_type_flag == css::hash_token::type_flag_name::unrestricted ? "unrestricted" : "?"; break;
		}
		case sn::StringToken: named("string", p.template get<css::string_token>().m_value); break;
		case sn::BadStringToken: n.kind = "bad-string"; break;
		case sn::UrlToken: named("url", p.template get<css::url_token>().m_value); break;
		case sn::BadUrlToken: n.kind = "bad-url"; break;
		case sn::DelimToken: named("delim", U(1, p.template get<css::delim_token>().m_value)); break;
		case sn::NumberToken: { auto const& t = p.template get<css::number_token>(); n.kind = "number"; n.has_num = true; n.num = t.m_value; n.flag = flag(t.m_type_flag); break; }
		case sn::PercentageToken: { auto const& t = p.template get<css::percentage_token>(); n.kind = "percentage"; n.has_num = true; n.num = t.m_value; break; }
		case sn::DimensionToken: { auto const& t = p.template get<css::dimension_token>(); n.kind = "dimension"; n.has_num = true; n.num = t.m_value; n.text = t.m_unit; n.flag = flag(t.m_type_flag); break; }
		case sn::WhitespaceToken: n.kind = "ws"; break;
		case sn::CdoToken: n.kind = "CDO"; break;
		case sn::CdcToken: n.kind = "CDC"; break;
		case sn::ColonToken: n.kind = ":"; break;
		case sn::SemicolonToken: n.kind = ";"; break;
		case sn::CommaToken: n.kind = ","; break;
		case sn::CloseSquareToken: n.kind = "]"; break;
		case sn::CloseParenToken: n.kind = ")"; break;
		case sn::CloseCurlyToken: n.kind = "}"; break;
		case sn::EofToken: n.kind = "EOF"; break;
		case sn::Function: { auto const& f = p.template get<css::function>(); named("fn", f.m_name); n.kids = conv(f.m_value); break; }
		case sn::SimpleBlock:
		{
			auto const& b = p.template get<css::simple_block>();
			n.kind = b.m_associated_token == U'{' ? "{}" : b.m_associated_token == U'[' ? "[]" : b.m_associated_token == U'(' ? "()" : "??"; n.kids = conv(b.m_value); break;
		}
		default: n.kind = "other"; break;
		}
		return n;
	}
	N block_of(N n, css::simple_block const* b)
	{
		if (b) { n.has_block = true; if (b->m_associated_token != U'{') n.flag += " block opened by " + hex(std::string(1, static_cast<char>(b->m_associated_token))); n.block = conv(b->m_value); }
		return n;
	}
	N conv1(css::component_value const& v) { return tok(v); }
	N conv1(css::at_rule const& r) { N n; n.kind = "at"; n.text = r.m_name; n.kids = conv(r.m_prelude); return block_of(std::move(n), r.m_block.get()); }
	N conv1(css::declaration const& d) { N n; n.kind = "decl"; n.text = d.m_name; n.kids = conv(d.m_value); if (d.m_important_flag) n.flag = "important"; return n; }
	N conv1(css::syntax_primitive const& p)
	{
		switch (p.type())
		{
		case sn::FunctionToken: { N n; n.kind = "function("; n.text = p.get<css::function_token>().m_value; return n; }
		case sn::OpenSquareToken: { N n; n.kind = "["; return n; }
		case sn::OpenParenToken: { N n; n.kind = "("; return n; }
		case sn::OpenCurlyToken: { N n; n.kind = "{"; return n; }
		case sn::AtRule: return conv1(p.get<css::at_rule>());
		case sn::QualifiedRule: { auto const& r = p.get<css::qualified_rule>(); N n; n.kind = "rule"; n.kids = conv(r.m_prelude); return block_of(std::move(n), &r.m_block); }
		case sn::Declaration: return conv1(p.get<css::declaration>());
		case sn::ComponentValue: return conv1(p.get<css::component_value>());
		default: return tok(p);
		}
	}
	template <typename C> std::vector<N> conv(std::vector<C> const& v) { std::vector<N> r; for (auto const& x : v) r.push_back(conv1(x)); return r; }
	template <typename C> std::vector<N> opt(std::optional<C> const& o) { std::vector<N> r; if (o) r.push_back(conv1(*o)); return r; }
	std::vector<N> opt(std::optional<N> const& o) { std::vector<N> r; if (o) r.push_back(*o); return r; }

	// ---- generators -------------------------------------------------------------------------------
	char32_t cchar(Gen& g)
	{
		switch (g.weighted({ 5, 4, 6, 1, 1, 1 }))
		{
		case 0: return g.pick({ 'a', 'e', 'u', 'Z', '0', '9', '-', '_' });
		case 1: return g.in(0x20, 0x7E);
		case 2: return static_cast<char32_t>(g.pick({ '#', '.', '+', '-', '@', '\\', '/', '*', '"', '\'', '(', ')', '[', ']', '{', '}', ':', ';', ',', '<', '!', '>', '%', '\n', ' ', '\t' }));
		case 3: return g.below(0x20);
		case 4: return g.pick({ 0x7Fu, 0x80u, 0xE9u, 0x3042u, 0xFFFDu, 0xFFFFu, 0x1F600u, 0x10FFFFu, 0xFEFFu, 0xD800u, 0xDFFFu, 0x0Cu, 0x0Du, 0u });
		default: return g.below(0x110000);
		}
	}
	U escape(Gen& g)
	{
		char b[20];
		switch (g.weighted({ 4, 3, 1, 1 }))
		{
		case 0:
		{
			uint32_t v = g.weighted({ 3, 1, 1 });
			uint32_t c = v == 0 ? g.in(0x20, 0x7E) : v == 1 ? g.below(0x1000000) : static_cast<uint32_t>(g.pick({ 0, 0xD800, 0xDFFF, 0x10FFFF, 0x110000, 0xA, 0xFFFFFF, 0x80 }));
			snprintf(b, sizeof b, g.chance(1, 2) ? "\\%x" : "\\%06X", c);
			U r = W(b);
			if (g.chance(1, 2)) r += g.pick({ U" ", U"\n", U"\t", U"\r\n", U"\f", U"  " });
			return r;
		}
		case 1: return U(1, U'\\') + cchar(g);
		case 2: return U"\\\n";
		default: return U"\\";
		}
	}
	U ident(Gen& g)
	{
		U s; if (g.chance(1, 5)) s += g.pick({ U"-", U"--", U"_" });
		uint32_t n = g.wide(s.empty() ? 1 : 0, 5, 300, 2000);
		for (uint32_t i = 0; i < n; ++i) s += g.chance(1, 10) ? escape(g) : U(1, static_cast<char32_t>(g.weighted({ 8, 1 }) == 0 ? g.pick({ 'a', 'b', 'e', 'u', 'r', 'l', 'x', 'Q', '1', '-', '_', 'i' }) : g.pick({ 0xE9, 0x3042, 0x80, 0x1F600 })));
		return s;
	}
	U digits(Gen& g) { U s; uint32_t n = g.weighted({ 20, 1 }) == 0 ? g.len(1, 4) : g.in(8, 40); for (uint32_t i = 0; i < n; ++i) s += U'0' + g.below(10); return s; }
	U number(Gen& g)
	{
		U s = g.pick({ U"", U"", U"", U"+", U"-" });
		uint32_t k = g.weighted({ 4, 3, 2, 1 });
		if (k != 2) s += digits(g);
		if (k == 1 || k == 2) { s += U'.'; s += digits(g); }
		if (k == 3) s += U'.';
		if (g.chance(1, 5)) { s += g.pick({ U"e", U"E", U"e+", U"e-", U"E-", U"e" }); if (g.chance(4, 5)) { uint32_t e = g.weighted({ 6, 1 }) == 0 ? g.below(40) : g.below(500); char b[8]; snprintf(b, sizeof b, "%u", e); s += W(b); } }
		return s;
	}
	U ws(Gen& g) { U s; uint32_t n = g.in(1, 3); for (uint32_t i = 0; i < n; ++i) s += g.pick({ U" ", U" ", U"\n", U"\t", U"\r\n", U"\r", U"\f", U"/**/" }); return s; }
	U strng(Gen& g)
	{
		char32_t q = g.chance(1, 2) ? U'"' : U'\''; U s(1, q); uint32_t n = g.wide(0, 5, 400, 1500);
		for (uint32_t i = 0; i < n; ++i) { uint32_t k = g.weighted({ 8, 2, 1 }); if (k == 0) s += static_cast<char32_t>(g.pick({ 'a', ' ', 'b', '(', ')', ';', '}', '/', '*', '\'', '"' })); else if (k == 1) s += escape(g); else s += cchar(g); }
		if (g.chance(9, 10)) s += q;
		return s;
	}
	U urlt(Gen& g)
	{
		U s = g.pick({ U"url(", U"URL(", U"uRl(", U"\\75rl(", U"u\\72 l(", U"url" });
		if (g.chance(1, 3)) s += ws(g);
		uint32_t k = g.weighted({ 5, 2 });
		if (k == 1) s += strng(g);
		else { uint32_t n = g.wide(0, 5, 400, 1500); for (uint32_t i = 0; i < n; ++i) { uint32_t j = g.weighted({ 10, 2, 1 }); if (j == 0) s += static_cast<char32_t>(g.pick({ 'a', ':', '/', '.', '?', 'x' })); else if (j == 1) s += escape(g); else s += cchar(g); } }
		if (g.chance(1, 3)) s += ws(g);
		if (g.chance(1, 10)) s += cchar(g);
		if (g.chance(9, 10)) s += U')';
		return s;
	}
	U piece(Gen& g)
	{
		switch (g.weighted({ 5, 4, 4, 3, 2, 2, 3, 4, 2, 2, 2 }))
		{
		case 0: return ident(g);
		case 1: { U s = number(g); uint32_t k = g.weighted({ 3, 2, 2, 1 }); if (k == 1) s += U'%'; else if (k == 2) s += ident(g); else if (k == 3) s += g.pick({ U"e3", U"-", U"--", U"-x", U".5", U"\\65 3", U"E-" }); return s; }
		case 2: return ws(g);
		case 3: return strng(g);
		case 4: return urlt(g);
		case 5: return U(1, U'#') + (g.chance(3, 4) ? ident(g) : digits(g));
		case 6: return U(1, U'@') + (g.chance(5, 6) ? ident(g) : U());
		case 7: return U(1, cchar(g));
		case 8: return g.pick({ U"<!--", U"-->", U"<!-", U"--", U"->", U"<!", U"--->" });
		case 9: { U s = U"/*"; uint32_t n = g.wide(0, 3, 300, 1000); for (uint32_t i = 0; i < n; ++i) s += cchar(g); if (g.chance(6, 7)) s += U"*/"; return s; }
		default: return ident(g) + U"(";
		}
	}
	U stream(Gen& g, uint32_t max) { U s; uint32_t n = g.wide(0, max, 400, 500); for (uint32_t i = 0; i < n; ++i) s += piece(g); return s; }

	// structured text: component values, declarations, rules
	U values(Gen& g, int d);
	U value(Gen& g, int d)
	{
		if (d <= 0) return piece(g);
		switch (g.weighted({ 6, 2, 2, 1, 1, 1 }))
		{
		case 0: return piece(g);
		case 1: return ident(g) + U"(" + values(g, d - 1) + (g.chance(9, 10) ? U")" : U"");
		case 2: return U"(" + values(g, d - 1) + (g.chance(9, 10) ? U")" : U"");
		case 3: return U"[" + values(g, d - 1) + (g.chance(9, 10) ? U"]" : U"");
		case 4: return U"{" + values(g, d - 1) + (g.chance(9, 10) ? U"}" : U"");
		default: return g.pick({ U",", U":", U";", U"!", U")", U"]", U"}" });
		}
	}
	U values(Gen& g, int d) { U s; uint32_t n = g.len(0, 4); for (uint32_t i = 0; i < n; ++i) { s += value(g, d); if (g.chance(1, 3)) s += U' '; } return s; }
	U decl(Gen& g, int d)
	{
		U s = g.chance(12, 13) ? ident(g) : piece(g);
		if (g.chance(1, 6)) s += ws(g);
		if (g.chance(9, 10)) s += U':';
		if (g.chance(1, 3)) s += ws(g);
		s += values(g, d);
		if (g.chance(1, 3)) { s += g.pick({ U"!important", U"!IMPORTANT", U" ! important ", U"!imp\\6frtant", U"important", U"!importan", U"! /*x*/important", U"!", U"!important!important", U"!important x" }); if (g.chance(1, 3)) s += ws(g); }
		return s;
	}
	U decls(Gen& g, int d)
	{
		U s; uint32_t n = g.len(0, 4);
		for (uint32_t i = 0; i < n; ++i)
		{
			uint32_t k = g.weighted({ 8, 1, 1 });
			if (k == 0) s += decl(g, d); else if (k == 1) s += U"@" + ident(g) + U" " + values(g, d - 1); else s += values(g, d - 1);
			if (g.chance(7, 8)) s += U';';
			if (g.chance(1, 3)) s += ws(g);
		}
		return s;
	}
	U rules(Gen& g, int d)
	{
		U s; uint32_t n = g.len(0, 4);
		for (uint32_t i = 0; i < n; ++i)
		{
			switch (g.weighted({ 6, 4, 1, 1 }))
			{
			case 0: s += values(g, 1) + U"{" + decls(g, d - 1) + (g.chance(11, 12) ? U"}" : U""); break;
			case 1: s += U"@" + ident(g) + U" " + values(g, 1) + (g.chance(1, 2) ? U"{" + (d > 0 ? rules(g, d - 1) : U()) + U"}" : g.chance(7, 8) ? U";" : U""); break;
			case 2: s += g.pick({ U"<!--", U"-->" }); break;
			default: s += values(g, d); break;
			}
			if (g.chance(1, 2)) s += ws(g);
		}
		return s;
	}
	U text(Gen& g)
	{
		U s;
		switch (g.weighted({ 4, 3, 2, 2 })) { case 0: s = rules(g, 2); break; case 1: s = decls(g, 2); break; case 2: s = values(g, 3); break; default: s = stream(g, 12); break; }
		if (g.chance(1, 120)) // deep nesting
		{
			uint32_t k = g.in(5, 60); U a, z; for (uint32_t i = 0; i < k; ++i) switch (g.below(4)) { case 0: a += U"("; z = U")" + z; break; case 1: a += U"["; z = U"]" + z; break; case 2: a += U"{"; z = U"}" + z; break; default: a += U"f("; z = U")" + z; }
			uint32_t p = g.below(s.size() + 1); s.insert(p, a + piece(g) + (g.chance(3, 4) ? z : z.substr(0, g.below(k)))); g.label("deep nesting");
		}
		if (g.chance(1, 4) && !s.empty())
		{
			uint32_t k = g.in(1, 3);
			for (uint32_t i = 0; i < k && !s.empty(); ++i)
			{
				uint32_t p = g.below(s.size());
				switch (g.below(4)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, cchar(g)); break; case 2: s.resize(p); break; default: { uint32_t q = g.below(s.size()); std::swap(s[p], s[q]); } }
			}
		}
		return s;
	}
	std::string sh(U const& s) { return cssref::esc(s); }

	void same(char const* what, U const& in, std::vector<N> const& got, std::vector<N> const& want)
	{
		if (!cssref::same(got, want)) fail(what, " of \"", sh(in), "\" gives\n  ", cssref::dump(got), "\nbut the specification gives\n  ", cssref::dump(want));
	}

	// ---- S01 ----------------------------------------------------------------------------------------
	void s01(Gen& g)
	{
		U in = g.chance(3, 4) ? stream(g, 10) : text(g);
		g.note("input ", sh(in));
		auto want = cssref::tokenize(in);
		auto got = conv(css::normalize_into_token_stream(U(in)));
		g.nontrivial(want.size() >= 2);
		for (auto const& n : want) if (n.kind.size() > 2) g.label(n.kind);
		same("tokenizing", in, got, want);
		// with an error handler, and from another kind of bidirectional sequence, nothing changes
		size_t errors = 0;
		auto got2 = conv(css::normalize_into_token_stream(U(in), [&](U::iterator) { ++errors; }));
		same("tokenizing with an error handler", in, got2, want);
		U f = cssref::preprocess(in);
		U f2 = in; f2.erase(wordring::wwwc::filter_code_points(f2.begin(), f2.end()), f2.end());
		if (f != f2) fail("preprocessing of \"", sh(in), "\" gives \"", sh(f2), "\" and not \"", sh(f), "\"");
		std::list<char32_t> l(f.begin(), f.end()); std::vector<css::syntax_primitive> v;
		css::tokenize(l.begin(), l.end(), std::back_inserter(v), nullptr);
		same("tokenizing a list", in, conv(v), want);
	}
	Reg r01({ "S01", "the input has at least two tokens", 1500000, 6000000, s01 });

	// ---- S02 ----------------------------------------------------------------------------------------
	cssref::Parser parser(std::vector<N> const& cv) { return cssref::Parser{ cv }; }
	std::vector<N> flat(std::vector<std::vector<N>> const& v) { std::vector<N> r; for (auto const& x : v) { N n; n.kind = "list"; n.kids = x; r.push_back(n); } return r; }
	template <typename V> std::vector<N> flatl(V const& v) { std::vector<N> r; for (auto const& x : v) { N n; n.kind = "list"; n.kids = conv(x); r.push_back(n); } return r; }
	// a grammar that accepts everything, token by token
	struct Everything
	{
		std::vector<css::syntax_primitive> v;
		static Everything consume(css::syntax_primitive_stream in, css::parse_context&) { Everything e; for (size_t n = in.size(); n > 0; --n) e.v.push_back(in.consume()); return e; }
	};
	void s02(Gen& g)
	{
		U in = text(g);
		g.note("input ", sh(in));
		auto cv = cssref::toks_to_cvs(cssref::tokenize(in));
		auto sheet = parser(cv).rules(true);
		g.nontrivial(cv.size() >= 3);
		using Src = std::vector<css::syntax_primitive>;
		// src 0: text, 1: its tokens, 2: its component values
		auto all = [&](int src)
		{
			auto mk = [&]() -> Src { return src == 1 ? css::normalize_into_token_stream(U(in)) : css::parse_list_of_component_values(U(in)); };
			char const* t[] = { "", " (from tokens)", " (from component values)" };
			auto name = [&](char const* s) { return std::string(s) + t[src]; };
#define RUN(F) (src == 0 ? css::F(U(in)) : css::F(mk()))
			auto got = RUN(parse_stylesheet);
			same(name("parse_stylesheet").c_str(), in, conv(got), sheet);
			same(name("parse_list_of_rules").c_str(), in, conv(RUN(parse_list_of_rules)), parser(cv).rules(false));
			same(name("parse_rule").c_str(), in, opt(RUN(parse_rule)), opt(parser(cv).rule()));
			same(name("parse_declaration").c_str(), in, opt(RUN(parse_declaration)), opt(parser(cv).decl()));
			same(name("parse_list_of_declarations").c_str(), in, conv(RUN(parse_list_of_declarations)), parser(cv).declarations());
			same(name("parse_component_value").c_str(), in, opt(RUN(parse_component_value)), opt(parser(cv).component()));
			same(name("parse_list_of_component_values").c_str(), in, conv(RUN(parse_list_of_component_values)), cv);
			same(name("parse_comma_separated_list_of_component_values").c_str(), in, flatl(RUN(parse_comma_separated_list_of_component_values)), flat(parser(cv).commas()));
			// parsing by a grammar hands the component values to the grammar (a white space only comma list is not judged: drafts differ)
			css::parse_context ctx;
			same(name("parse_grammar").c_str(), in, conv((src == 0 ? css::parse_grammar<Everything>(U(in), ctx) : css::parse_grammar<Everything>(mk(), ctx)).v), cv);
			bool blank = true; for (auto const& n : cv) if (n.kind != "ws") blank = false;
			if (!blank)
			{
				std::vector<std::vector<css::syntax_primitive>> parts; for (auto& e : src == 0 ? css::parse_comma_list<Everything>(U(in), ctx) : css::parse_comma_list<Everything>(mk(), ctx)) parts.push_back(e.v);
				same(name("parse_comma_list").c_str(), in, flatl(parts), flat(parser(cv).commas()));
			}
#undef RUN
			// a copy of the result is a value of its own
			if (!got.empty())
			{
				std::vector<css::syntax_primitive> c(got.size()); for (size_t i = 0; i < got.size(); ++i) c[i] = got[i];
				if (auto p = c[0].type() == sn::AtRule ? &c[0].get<css::at_rule>() : nullptr) { css::at_rule r; r = *p; p->m_prelude.clear(); p->m_block.reset(); same("copy of the first rule", in, { conv1(r) }, { sheet[0] }); }
				same("parse_stylesheet, after a copy of it changed", in, conv(got), sheet);
			}
		};
		all(0);
		if (g.chance(1, 2)) all(1);
		if (g.chance(1, 2)) all(2);
		if (sheet.size() > 0) g.label("has rules");
	}
	Reg r02({ "S02", "at least three top-level component values", 60000, 1200000, s02 });

	// ---- S03 ----------------------------------------------------------------------------------------
	void s03(Gen& g)
	{
		std::string in;
		// the label: a known one, or junk
		static char const* labels[] = { "utf-8", "UTF-8", "utf8", "shift_jis", "windows-1252", "iso-8859-2", "gb18030", "big5", "euc-kr", "utf-16", "utf-16le", "utf-16be", "UTF-16BE", "koi8-r", "macintosh", "x-user-defined", "latin1", "replacement", "iso-2022-kr", "nonsense", "", "utf-7", "euc-jp", "windows-31j" };
		std::string lab = labels[g.below(std::size(labels))];
		if (g.chance(1, 3)) { lab = g.pick(encref::ref_labels).label; for (auto& c : lab) if ('a' <= c && c <= 'z' && g.chance(1, 6)) c = static_cast<char>(c - 32); if (g.chance(1, 8)) lab[g.below(static_cast<uint32_t>(lab.size()))] = g.pick({ '-', '_', '0', 'x', '\v' }); }
		uint32_t form = g.weighted({ 10, 2, 2, 2, 2, 1 });
		auto pad = [&](uint32_t n) { std::string s; for (uint32_t i = 0; i < n; ++i) s += g.pick({ ' ', '\t', '\n', ' ' }); return s; };
		if (g.chance(1, 5)) lab = pad(g.below(3)) + lab + pad(g.below(3));
		if (g.chance(1, 6)) { uint32_t total = g.in(1005, 1020); if (total > lab.size()) lab += pad(total - lab.size()); }
		switch (form)
		{
		case 0: in = "@charset \"" + lab + "\";"; break;
		case 1: in = g.pick({ std::string("@charset '"), std::string("@charset  \""), std::string("@CHARSET \""), std::string(" @charset \""), std::string("@charset"), std::string("@char"), std::string("@charset \"") }) + lab + "\";"; break;
		case 2: in = "@charset \"" + lab + g.pick({ "\" ;", "\"", "", ";", "\"\";", "\"x\";", "';" }); break;
		case 3: { in = "@charset \"" + lab + "\";"; in.resize(g.below(in.size() + 1)); break; }
		case 4: { in = "@charset \"" + lab + "\";"; in[g.below(in.size())] = static_cast<char>(g.below(256)); break; }
		default: break;
		}
		std::string decl = in;
		uint32_t n = g.len(0, 8);
		for (uint32_t i = 0; i < n; ++i) in += g.chance(1, 2) ? std::string(1, static_cast<char>(g.below(256))) : std::string(g.pick({ "a{b:c}", "\xE3\x81\x82", "\x83\x41", "p { }", "\xA4\xA2", "/*x*/", "\x81\x30\x81\x30" }));
		uint32_t bom = g.weighted({ 8, 1, 1, 1 });
		if (bom) in = std::string(bom == 1 ? "\xEF\xBB\xBF" : bom == 2 ? "\xFE\xFF" : "\xFF\xFE") + in;
		wordring::encoding_name fb = static_cast<wordring::encoding_name>(0);
		if (g.chance(1, 4)) fb = g.pick({ wordring::encoding_name::UTF_8, wordring::encoding_name::Shift_JIS, wordring::encoding_name::windows_1252, wordring::encoding_name::UTF_16BE, wordring::encoding_name::EUC_JP });
		if (g.chance(1, 12)) fb = g.pick(encref::ref_labels).name;
		// reference
		auto expect = [&]() -> wordring::encoding_name
		{
			if (fb != static_cast<wordring::encoding_name>(0)) return fb;
			std::string head = in.substr(0, 1024), pre = "@charset \"";
			if (head.compare(0, pre.size(), pre) != 0) return wordring::encoding_name::UTF_8;
			size_t q = head.find('"', pre.size());
			if (q == std::string::npos || q + 1 >= head.size() || head[q + 1] != ';') return wordring::encoding_name::UTF_8;
			std::string l = head.substr(pre.size(), q - pre.size());
			for (unsigned char c : l) if (c >= 0x80) return wordring::encoding_name::UTF_8;
			auto e = wordring::get_encoding_name(l);      // the label table itself is decided by E03
			if (e == static_cast<wordring::encoding_name>(0) || e == wordring::encoding_name::UTF_16BE || e == wordring::encoding_name::UTF_16LE) return wordring::encoding_name::UTF_8;
			return e;
		};
		auto e = expect();
		g.note("bytes ", hex(in), " fallback ", static_cast<int>(fb));
		g.nontrivial(form == 0 || e != wordring::encoding_name::UTF_8);
		auto got = wordring::wwwc::determine_fallback_encoding(in.begin(), in.end(), fb);
		if (got != e) fail("the encoding of ", hex(in), " is determined as ", static_cast<int>(got), " and not ", static_cast<int>(e));
		g.label(e == wordring::encoding_name::UTF_8 ? "utf-8" : "other encoding");
		if (bom) g.label("byte order mark");
		// what a stylesheet given as bytes means: the decoder of the encoding, or of the byte order mark
		auto u8 = wordring::encoding_name::UTF_8;
		auto actual = bom == 1 ? u8 : bom == 2 ? wordring::encoding_name::UTF_16BE : bom == 3 ? wordring::encoding_name::UTF_16LE : e;
		std::string body = bom == 0 ? in : in.substr(bom == 1 ? 3 : 2);
		auto dec = encref::decode(actual, encref::Bytes(body.begin(), body.end())); U chars(dec.out.begin(), dec.out.end());
		U d; wordring::wwwc::decode(in.begin(), in.end(), std::back_inserter(d), fb);
		if (d != chars) fail("decoding ", hex(in), " gives \"", sh(d), "\" and not \"", sh(chars), "\"");
		auto want = parser(cssref::toks_to_cvs(cssref::tokenize(chars))).rules(true);
		same("parse_stylesheet of bytes", chars, conv(css::parse_stylesheet(in, fb)), want);
	}
	Reg r03({ "S03", "an @charset declaration is present, or an encoding other than UTF-8 results", 900000, 4000000, s03 });

	// ---- S04: selectors ---------------------------------------------------------------------------
	// reference: a parser for selector lists over component values and a naive matcher over a plain tree
	namespace sel
	{
		struct At { U first, second, ns; };
		struct Node { U name; bool element = false; std::vector<At> attrs; int parent = -1; std::vector<int> kids; U ns; };
		struct Attr { bool any_ns = false; U ns; U name; std::string op; U value; bool icase = false; };
		struct Simple { int kind; U text; bool none_ns = false; Attr a; bool has_ns = false; U ns; };        // 0 type, 1 universal, 2 id, 3 class, 4 attribute, 5 :root, 6 never
		struct Compound { std::vector<Simple> s; std::string comb; };              // comb: between the previous compound and this one
		using Complex = std::vector<Compound>;

		bool is(N const& n, char32_t c) { return n.kind == "delim" && n.text == U(1, c); }
		U low(U s) { for (auto& c : s) if (U'A' <= c && c <= U'Z') c += 32; return s; }

		struct P
		{
			std::vector<N> const& v; std::map<U, U> const* nss = nullptr; size_t p = 0; bool bad = false;
			bool more() const { return p < v.size(); }
			void ws() { while (more() && v[p].kind == "ws") ++p; }
			// wq-name: 0 none, 1 name without prefix, 2 "*|", 3 "|", 4 "ident|"
			int prefix(bool star)
			{
				auto local = [&](size_t i) { return i < v.size() && (v[i].kind == "ident" || (star && is(v[i], U'*'))); };
				if (more() && is(v[p], U'|') && local(p + 1)) { p += 1; return 3; }
				if (p + 1 < v.size() && (v[p].kind == "ident" || is(v[p], U'*')) && is(v[p + 1], U'|') && local(p + 2)) { int r = v[p].kind == "ident" ? 4 : 2; p += 2; return r; }
				return local(p) ? 1 : 0;
			}
			bool compound(Compound& c)
			{
				size_t start = p;
				if (int k = prefix(true))
				{
					Simple s; s.kind = is(v[p], U'*') ? 1 : 0; s.text = v[p].text; ++p;
					if (k == 4) { auto i = nss ? nss->find(v[p - 3].text) : decltype(nss->find(U())){}; if (!nss || i == nss->end()) bad = true; else { s.has_ns = true; s.ns = i->second; } }
					else if (k == 1 && nss && nss->count(U())) { s.has_ns = true; s.ns = nss->at(U()); }
					s.none_ns = k == 3; c.s.push_back(s);
				}
				else if (nss && nss->count(U())) { Simple s; s.kind = 1; s.has_ns = true; s.ns = nss->at(U()); c.s.push_back(s); }
				bool pe = false;
				while (more())
				{
					N const& n = v[p];
					if (n.kind == "hash" && !pe) { if (n.flag != "id") { bad = true; return false; } c.s.push_back({ 2, n.text, false, {} }); ++p; }
					else if (is(n, U'.') && !pe) { if (p + 1 >= v.size() || v[p + 1].kind != "ident") { bad = true; return false; } c.s.push_back({ 3, v[p + 1].text, false, {} }); p += 2; }
					else if (n.kind == "[]" && !pe) { Simple s; s.kind = 4; if (!attribute(n.kids, s.a)) { bad = true; return false; } c.s.push_back(s); ++p; }
					else if (n.kind == ":")
					{
						size_t q = p + 1; bool two = q < v.size() && v[q].kind == ":"; if (two) ++q;
						if (q >= v.size() || (v[q].kind != "ident" && v[q].kind != "fn")) { bad = true; return false; }
						bool root = !two && v[q].kind == "ident" && low(v[q].text) == U"root";
						c.s.push_back({ root ? 5 : 6, v[q].text, false, {} });
						if (two) pe = true;
						p = q + 1;
					}
					else break;
				}
				return p > start;
			}
			bool attribute(std::vector<N> const& k, Attr& a)
			{
				P q{ k, nss }; q.ws();
				int kind = q.prefix(false);
				// "a|=v": the bar belongs to the matcher
				if (kind == 0) return false;
				if (kind == 4) { if (!nss) return false; auto i = nss->find(k[q.p - 2].text); if (i == nss->end()) return false; a.ns = i->second; }
				a.any_ns = kind == 2; a.name = k[q.p].text; ++q.p; q.ws();
				if (!q.more()) return true;
				if (is(k[q.p], U'=')) { a.op = "="; ++q.p; }
				else
				{
					if (q.p + 1 >= k.size() || k[q.p].kind != "delim" || !is(k[q.p + 1], U'=')) return false;
					char32_t c = k[q.p].text[0]; if (U(U"~|^$*").find(c) == U::npos) return false;
					a.op = std::string(1, static_cast<char>(c)) + "="; q.p += 2;
				}
				q.ws();
				if (!q.more() || (k[q.p].kind != "ident" && k[q.p].kind != "string")) return false;
				a.value = k[q.p].text; ++q.p; q.ws();
				if (!q.more()) return true;
				if (k[q.p].kind != "ident") return false;
				U m = low(k[q.p].text); if (m != U"i" && m != U"s") return false;
				a.icase = m == U"i"; ++q.p; q.ws();
				return !q.more();
			}
			bool complex(Complex& out)
			{
				ws(); std::string comb;
				for (;;)
				{
					Compound c; c.comb = comb;
					if (!compound(c) || bad) return false;
					out.push_back(c);
					bool sp = more() && v[p].kind == "ws"; ws();
					if (!more() || v[p].kind == ",") return true;
					if (is(v[p], U'>') || is(v[p], U'+') || is(v[p], U'~')) { comb = std::string(1, static_cast<char>(v[p].text[0])); ++p; ws(); }
					else if (p + 1 < v.size() && is(v[p], U'|') && is(v[p + 1], U'|')) { comb = "||"; p += 2; ws(); }
					else if (sp) comb = " ";
					else return false;
				}
			}
			bool list(std::vector<Complex>& out)
			{
				for (;;) { Complex c; if (!complex(c)) return false; out.push_back(c); if (!more()) return true; ++p; }
			}
		};

		struct M
		{
			std::vector<Node> const& t; bool quirks; bool dash_exact;
			U const* attr(Node const& n, U const& name) const { for (auto const& a : n.attrs) if (a.first == name && a.ns.empty()) return &a.second; return nullptr; }
			static std::vector<U> words(U const& s) { std::vector<U> r; U w; for (char32_t c : s) { if (c == 0x20 || c == 9 || c == 0xA || c == 0xC || c == 0xD) { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; } if (!w.empty()) r.push_back(w); return r; }
			static bool in_ns(Simple const& s, Node const& n) { return s.none_ns ? n.ns.empty() : !s.has_ns || s.ns == n.ns; }
			bool simple(Simple const& s, Node const& n) const
			{
				auto eq = [&](U const& a, U const& b) { return quirks ? low(a) == low(b) : a == b; };
				switch (s.kind)
				{
				case 0: return in_ns(s, n) && low(s.text) == n.name;
				case 1: return in_ns(s, n);
				case 2: { auto v = attr(n, U"id"); return v && eq(*v, s.text); }
				case 3: { auto v = attr(n, U"class"); if (v) for (auto const& w : words(*v)) if (eq(w, s.text)) return true; return false; }
				case 4:
				{
					auto value = [&](U x)
					{
					U y = s.a.value; if (s.a.icase) { x = low(x); y = low(y); }
					if (s.a.op.empty()) return true;
					if (s.a.op == "=") return x == y;
					if (s.a.op == "~=") { if (y.empty() || words(y) != std::vector<U>{ y }) return false; for (auto const& w : words(x)) if (w == y) return true; return false; }
					if (s.a.op == "|=") return (dash_exact && x == y) || x.compare(0, y.size() + 1, y + U"-") == 0;
					if (y.empty() || y.size() > x.size()) return false;
					if (s.a.op == "^=") return x.compare(0, y.size(), y) == 0;
					if (s.a.op == "$=") return x.compare(x.size() - y.size(), y.size(), y) == 0;
					return x.find(y) != U::npos;
					};
					for (auto const& a : n.attrs) if (a.first == low(s.a.name) && (s.a.any_ns || a.ns == s.a.ns) && value(a.second)) return true;
					return false;
				}
				case 5: { for (int i = n.parent; i >= 0; i = t[i].parent) if (t[i].element) return false; return true; }
				default: return false;
				}
			}
			bool at(Complex const& c, int i, int n) const
			{
				if (n < 0 || !t[n].element) return false;
				for (auto const& s : c[i].s) if (!simple(s, t[n])) return false;
				if (i == 0) return true;
				std::string const& k = c[i].comb;
				if (k == " ") { for (int p = t[n].parent; p >= 0; p = t[p].parent) if (at(c, i - 1, p)) return true; return false; }
				if (k == ">") return at(c, i - 1, t[n].parent);
				if (k == "||" || t[n].parent < 0) return false;
				auto const& sib = t[t[n].parent].kids; int prev = -1;
				for (int s : sib)
				{
					if (s == n) break;
					if (!t[s].element) continue;
					prev = s; if (k == "~" && at(c, i - 1, s)) return true;
				}
				return k == "+" && prev >= 0 && at(c, i - 1, prev);
			}
		};
	}

	char const* const s4names[] = { "div", "span", "em", "section", "x-a", "DIV", "article" };
	U const s4vals[] = { U"a", U"A", U"b", U"a-b", U"a-B", U"a b", U"b a", U"", U"-", U"-a", U"ab", U"aB", U"ba", U" a", U"b\ta", U"b\na", U"\u00e9", U"\u00c9", U"a\f", U"aa", U"abab", U"a  A", U"\U0001F600", U"b\ra" };
	char const* const s4attrs[] = { "id", "class", "title", "data-x", "foo", "class", "id" };
	struct S4el { U name; std::vector<std::pair<U, U>> attrs; int ns = 0, parent = -1, prev = -1; std::vector<int> ans; };
	std::vector<S4el> s4made;          // the elements of the document, for selectors that have a chance to match
	U html_of(Gen& g, int depth, int& budget)
	{
		U s; uint32_t n = g.len(1, 4);
		for (uint32_t i = 0; i < n && budget > 0; ++i)
		{
			if (g.chance(1, 8)) { s += U"t"; continue; }
			if (g.chance(1, 12)) { s += U"<!--c-->"; continue; }
			--budget;
			U name = W(s4names[g.below(std::size(s4names))]); s += U"<" + name; S4el made{ name, {} };
			std::vector<std::string> used; uint32_t k = g.weighted({ 2, 3, 3, 1 });
			for (uint32_t j = 0; j < k; ++j)
			{
				std::string a = s4attrs[g.below(std::size(s4attrs))]; if (std::find(used.begin(), used.end(), a) != used.end()) continue; used.push_back(a);
				U v = s4vals[g.below(std::size(s4vals))]; made.attrs.push_back({ W(a.c_str()), v }); U e; for (char32_t c : v) if (c == U'\r') e += U"&#13;"; else e += c;
				s += U" " + (g.chance(1, 8) ? W(a == "data-x" ? "DATA-x" : a.c_str()) : W(a.c_str())) + U"=\"" + e + U"\"";
			}
			s4made.push_back(made); s += U">"; if (depth > 0 && g.chance(2, 3)) s += html_of(g, depth - 1, budget);
			s += U"</" + name + U">";
		}
		return s;
	}
	U s4ident(Gen& g, U const& v)      // v as an identifier, escaped where needed (or now and then without need)
	{
		U r; bool first = true;
		for (char32_t c : v)
		{
			bool plain = (U'a' <= c && c <= U'z') || (U'A' <= c && c <= U'Z') || c >= 0x80 || c == U'_' || (c == U'-' && !first) || (!first && U'0' <= c && c <= U'9');
			if (plain && !g.chance(1, 30)) r += c;
			else { char b[16]; std::snprintf(b, sizeof b, "\\%x ", static_cast<unsigned>(c)); r += W(b); }
			first = false;
		}
		return r;
	}
	U s4str(Gen& g, U const& v)
	{
		char32_t q = g.chance(1, 2) ? U'"' : U'\''; U r(1, q);
		for (char32_t c : v) if (c == U'\n' || c == U'\f' || c == U'\r' || c == q || c == U'\\') { char b[16]; std::snprintf(b, sizeof b, "\\%x ", static_cast<unsigned>(c)); r += W(b); } else r += c;
		return r + q;
	}
	U s4word(Gen& g) { for (;;) { U v = s4vals[g.below(std::size(s4vals))]; if (!v.empty() && (g.chance(1, 8) || v.find_first_of(U" \t\n\f\r") == U::npos)) return v; } }
	U s4ws(Gen& g) { return g.pick({ U"", U"", U" ", U"\n", U"/**/", U" /*x*/ " }); }
	U s4compound(Gen& g)
	{
		U s;
		if (!s4made.empty() && g.chance(3, 5))      // aimed at an element of the document
		{
			S4el const& e = s4made[g.below(s4made.size())];
			if (e.attrs.empty() || g.chance(1, 2)) s += g.chance(1, 4) ? U(U"*") : s4ident(g, e.name);
			if (!e.attrs.empty())
			{
				auto const& a = e.attrs[g.below(e.attrs.size())]; auto w = sel::M::words(a.second);
				if (a.first == U"id" && !a.second.empty() && g.chance(2, 3)) s += U"#" + s4ident(g, a.second);
				else if (a.first == U"class" && !w.empty() && g.chance(2, 3)) s += U"." + s4ident(g, w[g.below(w.size())]);
				else
				{
					U v = a.second, op = U"="; size_t h = g.below(v.size() + 1);
					switch (g.below(6))
					{
					case 0: break;
					case 1: op = U"~="; if (!w.empty()) v = w[g.below(w.size())]; break;
					case 2: op = U"|="; v = v.substr(0, std::min(v.find(U'-'), v.size())); break;
					case 3: op = U"^="; v = v.substr(0, h); break;
					case 4: op = U"$="; v = v.substr(h); break;
					default: op = U"*="; v = v.substr(h, g.below(3)); break;
					}
					bool i = g.chance(1, 5); if (i) for (auto& c : v) if (U'a' <= c && c <= U'z') c -= 32;
					s += U"[" + a.first + op + s4str(g, v) + (i ? U" i" : U"") + U"]";
				}
			}
			if (!g.chance(1, 8)) return s;
		}
		if (g.chance(1, 2)) { s += g.pick({ U"", U"", U"", U"", U"", U"", U"", U"*|", U"*|", U"|", g.chance(1, 6) ? U"ns|" : U"" }); s += g.chance(1, 4) ? U"*" : s4ident(g, W(g.pick({ "div", "span", "em", "section", "x-a", "Div", "SPAN", "html", "body", "article" }))); }
		uint32_t n = s.empty() ? g.in(1, 2) : g.weighted({ 3, 3, 1 });
		for (uint32_t i = 0; i < n; ++i)
		{
			if (g.chance(1, 20)) s += U"/**/";
			switch (g.weighted({ 6, 6, 10, 2, 1 }))
			{
			case 0: s += U"#" + s4ident(g, s4word(g)); break;
			case 1: s += U"." + s4ident(g, s4word(g)); break;
			case 2:
			{
				s += U"[" + s4ws(g) + g.pick({ U"", U"", U"", U"", U"", U"", U"", U"*|", U"|", g.chance(1, 6) ? U"ns|" : U"" }) + s4ident(g, W(g.pick({ "id", "class", "title", "data-x", "foo", "Title", "DATA-X", "FOO" })));
				s += s4ws(g);
				if (g.chance(7, 8))
				{
					s += g.pick({ U"=", U"~=", U"|=", U"^=", U"$=", U"*=" }); s += s4ws(g);
					U v = s4vals[g.below(std::size(s4vals))];
					s += !v.empty() && g.chance(1, 3) ? s4ident(g, v) : s4str(g, v);
					s += s4ws(g);
					if (g.chance(1, 4)) s += (s.back() == U' ' || s.back() == U'"' || s.back() == U'\'' || s.back() == U'\n' ? U"" : U" ") + U(g.pick({ U"i", U"I", U"s", U"S", U"i", U"x", U"i i" })) + s4ws(g);
				}
				s += U"]"; break;
			}
			case 3: s += g.pick({ U":root", U":ROOT" }); break;
			default: s += g.pick({ U":hover", U"::before", U":not(div)", U"::before:hover", U":nth-child(2n+1)", U"::slotted(a)" }); break;
			}
		}
		return s;
	}
	U s4selector(Gen& g)
	{
		U s; uint32_t n = g.weighted({ 6, 2, 1 }) + 1;
		s += s4ws(g);
		for (uint32_t i = 0; i < n; ++i)
		{
			if (i) s += s4ws(g) + U"," + s4ws(g);
			uint32_t m = g.weighted({ 5, 5, 2, 1 }) + 1;
			for (uint32_t j = 0; j < m; ++j)
			{
				if (j) { if (g.chance(2, 5)) s += g.pick({ U" ", U"\n", U" /**/ ", U"  " }); else { s += s4ws(g) + U(g.pick({ U">", U"+", U"~", U"~", U">", U"+", g.chance(1, 4) ? U"||" : U">" })); s += s4ws(g); } }
				s += s4compound(g);
			}
		}
		s += s4ws(g);
		if (g.chance(1, 8) && !s.empty())
		{
			uint32_t p = g.below(s.size());
			switch (g.below(3)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, U(g.pick({ U">", U",", U"+", U"|", U"*", U" ", U":", U"]", U"(", U"a", U"1", U"!", U"&", U"#", U"." }))); break; default: s.resize(p); }
		}
		return s;
	}
	// the tree as a plain model
	template <typename It> void plain(It it, int parent, std::vector<sel::Node>& t, std::vector<It>& its)
	{
		int me = static_cast<int>(t.size()); t.emplace_back(); its.push_back(it); t[me].parent = parent; if (parent >= 0) t[parent].kids.push_back(me);
		if (it->is_element())
		{
			t[me].element = true; t[me].name = wordring::encoding_cast<U>(it->local_name()); t[me].ns = wordring::encoding_cast<U>(it->namespace_uri());
			for (auto a = it->begin(); a != it->end(); ++a) t[me].attrs.push_back({ wordring::encoding_cast<U>(a->local_name()), wordring::encoding_cast<U>(a->value()), wordring::encoding_cast<U>(a->namespace_uri()) });
		}
		for (It c = it.begin(); c != it.end(); ++c) plain(c, me, t, its);
	}
	template <typename Tree, typename S> void s04_in(Gen& g, U const& doc, U const& selector, std::vector<uint32_t> const& scopes, bool quirks)
	{
		namespace html = wordring::html;
		Tree tree = html::make_document<Tree>(doc.begin(), doc.end());
		using It = typename Tree::const_iterator;
		std::vector<sel::Node> t; std::vector<It> its; plain(It(tree.begin()), -1, t, its);
		auto cv = cssref::toks_to_cvs(cssref::tokenize(selector));
		std::vector<sel::Complex> list; bool ok = sel::P{ cv, nullptr }.list(list);
		bool known = false; if (char const* k = std::getenv("VERIF_KNOWN")) known = std::strstr(k, "dash-exact") != nullptr;
		sel::M m{ t, quirks, true }, m2{ t, quirks, false };
		S src = wordring::encoding_cast<S>(selector);
		for (uint32_t sc : scopes)
		{
			int scope = static_cast<int>(sc % t.size());
			std::vector<int> want, want2;
			for (int n = 0; n < static_cast<int>(t.size()); ++n)
			{
				bool in = false; for (int p = t[n].parent; p >= 0; p = t[p].parent) if (p == scope) in = true;
				if (!ok || !in || !t[n].element) continue;
				auto hit = [&](sel::M const& mm) { for (auto const& c : list) if (mm.at(c, static_cast<int>(c.size()) - 1, n)) return true; return false; };
				if (hit(m)) want.push_back(n);
				if (hit(m2)) want2.push_back(n);
			}
			std::vector<It> v; wordring::css::query_selector_all(its[scope], src, std::back_inserter(v));
			std::vector<int> got; for (auto const& i : v) { auto f = std::find(its.begin(), its.end(), i); got.push_back(f == its.end() ? -1 : static_cast<int>(f - its.begin())); }
			auto str = [](std::vector<int> const& x) { std::string r; for (int i : x) r += std::to_string(i) + " "; return r; };
			if (got != want && !(known && got == want2)) fail("selector \"", sh(selector), "\" in node ", scope, " of \"", sh(doc), "\" (nodes counted in document order from 0) gives ", str(got), "and not ", str(want), ok ? "" : "(the selector is invalid)");
			It one = wordring::css::query_selector(its[scope], src);
			if (got.empty() ? one != html::node_traits<It>::pointer() : one != v.front()) fail("query_selector of \"", sh(selector), "\" in node ", scope, " of \"", sh(doc), "\" is not the first match");
			if (!want.empty()) g.nontrivial(true);
			g.label(!ok ? "invalid selector" : want.empty() ? "no match" : "matches");
		}
	}
	void s04(Gen& g)
	{
		s4made.clear(); bool quirks = g.chance(1, 3); bool large = g.chance(1, 150); int budget = static_cast<int>(large ? g.in(20, 120) : g.in(2, 14)); if (large) g.label("large document");
		U doc = quirks ? U"" : U"<!DOCTYPE html>"; if (g.chance(1, 10)) doc += U"<!--c-->";
		if (g.chance(1, 4)) s4made.push_back({ U"body", { { U"title", U"a-b" } } }), doc += U"<html id=a class=\"a b\"><body title=a-b>";
		doc += html_of(g, large ? 12 : 4, budget);
		uint32_t n = g.in(1, 4), enc = g.below(3);
		g.note("document ", sh(doc));
		for (uint32_t i = 0; i < n; ++i)
		{
			U selector = s4selector(g); g.note("selector ", sh(selector));
			std::vector<uint32_t> scopes{ 0 }; uint32_t k = g.below(3); for (uint32_t j = 0; j < k; ++j) scopes.push_back(g.below(64));
			switch (enc) { case 0: s04_in<wordring::html::u8simple_tree, std::u8string>(g, doc, selector, scopes, quirks); break; case 1: s04_in<wordring::html::u16simple_tree, std::u16string>(g, doc, selector, scopes, quirks); break; default: s04_in<wordring::html::u32simple_tree, U>(g, doc, selector, scopes, quirks); }
		}
	}
	// ---- S05: namespaces, ranges and scoping roots --------------------------------------------------
	// Elements of three namespaces; selectors with declared and undeclared prefixes. Names are in lower case: the case rules of foreign elements are not under test.
	U s5doc(Gen& g, int depth, int ns, int& budget, int parent = -1)
	{
		static char const* const hn[] = { "div", "span", "em", "x-a" }; static char const* const sn[] = { "g", "a", "x-a", "desc" }; static char const* const mn[] = { "mrow", "g", "x-a", "mi" };
		U s; uint32_t n = g.len(1, 4); int prev = -1;
		for (uint32_t i = 0; i < n && budget > 0; ++i)
		{
			if (g.chance(1, 20)) { s += U"<!--c-->"; continue; }
			if (g.chance(1, 10)) { s += U"t"; continue; }
			--budget; int k = ns; U name;
			if (ns == 0 && g.chance(1, 3)) { k = g.chance(1, 2) ? 1 : 2; name = k == 1 ? U"svg" : U"math"; }
			else name = W(ns == 0 ? g.pick(hn) : ns == 1 ? g.pick(sn) : g.pick(mn));
			S4el made{ name, {}, k, parent, prev, {} }; s += U"<" + name;
			std::vector<std::string> used; uint32_t c = g.weighted({ 2, 3, 3, 1 });
			for (uint32_t j = 0; j < c; ++j)
			{
				std::string a = k == 0 ? g.pick({ "id", "class", "href", "lang" }) : g.pick({ "id", "class", "href", "lang", "xlink:href", "xlink:title", "xml:lang", "title", "xlink:href" });
				if (std::find(used.begin(), used.end(), a) != used.end()) continue; used.push_back(a);
				U v = U(g.pick({ U"a", U"b", U"a-b", U"a b", U"A", U"" })); made.attrs.push_back({ W(a.find(':') == a.npos ? a.c_str() : a.c_str() + a.find(':') + 1), v }); made.ans.push_back(a.compare(0, 6, "xlink:") == 0 ? 3 : a.compare(0, 4, "xml:") == 0 ? 4 : -1); s += U" " + W(a.c_str()) + U"=\"" + v + U"\"";
			}
			prev = static_cast<int>(s4made.size()); int self = prev; s4made.push_back(made); s += U">"; int in = k == 1 && name == U"desc" ? 0 : k == 2 && name == U"mi" ? 3 : k;
			if (in == 3) s += U"t"; else if (depth > 0 && g.chance(2, 3)) s += s5doc(g, depth - 1, in, budget, self);
			s += U"</" + name + U">";
		}
		return s;
	}
	U s5compound(Gen& g, bool deflt, int at)
	{
		static char const* const pfx[] = { "h|", "s|", "m|", "l|", "x|" };
		S4el const* e = at < 0 ? nullptr : &s4made[static_cast<size_t>(at)];
		U s; auto pre = [&] { if (e && g.chance(1, 2)) return W(pfx[e->ns]); return U(g.pick({ U"", U"", U"", U"*|", U"|", U"h|", U"h|", U"s|", U"s|", U"m|", U"m|", U"x|", U"S|", g.chance(1, 4) ? U"zz|" : U"s|" })); };
		if (g.chance(deflt ? 4 : 2, deflt ? 5 : 3)) s += pre() + (g.chance(1, 3) ? U(U"*") : e ? e->name : W(g.pick({ "div", "span", "svg", "math", "g", "a", "x-a", "desc", "body" })));
		uint32_t n = s.empty() ? g.in(1, 2) : g.weighted({ 5, 3, 1 });
		for (uint32_t i = 0; i < n; ++i)
			switch (g.weighted({ 1, 1, 6 }))
			{
			case 0: s += U"#a"; break;
			case 1: s += U"." + U(g.pick({ U"a", U"b" })); break;
			default:
			{
				int k = e && !e->attrs.empty() && g.chance(4, 5) ? static_cast<int>(g.below(static_cast<uint32_t>(e->attrs.size()))) : -1;
				U name = k >= 0 ? e->attrs[static_cast<size_t>(k)].first : W(g.pick({ "id", "class", "href", "lang", "title" }));
				s += U"[" + (k >= 0 && g.chance(1, 2) ? (e->ans[static_cast<size_t>(k)] < 0 ? U() : W(pfx[e->ans[static_cast<size_t>(k)]])) : U(g.pick({ U"", U"", U"*|", U"*|", U"|", U"l|", U"l|", U"x|", U"h|", g.chance(1, 4) ? U"zz|" : U"l|" }))) + name;
				if (g.chance(2, 3)) s += U(g.pick({ U"=", U"=", U"^=", U"~=", U"*=", U"$=" })) + U"\"" + (k >= 0 && g.chance(1, 2) ? e->attrs[static_cast<size_t>(k)].second : U(g.pick({ U"a", U"b", U"a-b", U"A" }))) + U"\"" + (g.chance(1, 6) ? U"i" : U"");
				s += U"]"; break;
			}
			}
		return s;
	}
	U s5complex(Gen& g, bool deflt)
	{
		int at = s4made.empty() || g.chance(1, 6) ? -1 : static_cast<int>(g.below(static_cast<uint32_t>(s4made.size())));
		U s = s5compound(g, deflt, at); uint32_t c = g.weighted({ 5, 4, 1 });
		for (uint32_t j = 0; j < c; ++j)
		{
			uint32_t k = g.below(4); int to = -1;
			if (at >= 0 && g.chance(4, 5)) { S4el const& e = s4made[static_cast<size_t>(at)]; to = k < 2 ? e.parent : e.prev; while (to >= 0 && (k == 0 || k == 3) && g.chance(1, 2)) { int up = k == 0 ? s4made[static_cast<size_t>(to)].parent : s4made[static_cast<size_t>(to)].prev; if (up < 0) break; to = up; } }
			if (at >= 0 && to < 0 && s4made[static_cast<size_t>(at)].parent < 0 && g.chance(1, 2)) { s = U(g.pick({ U"body", U"html", U"*" })) + (g.chance(1, 2) ? U" " : U" > ") + s; at = -1; continue; }
			s = s5compound(g, deflt, to) + U(k == 0 ? U" " : k == 1 ? U" > " : k == 2 ? U" + " : U" ~ ") + s; at = to;
		}
		return s;
	}
	template <typename Tree> void s05_in(Gen& g, U const& doc, U const& selector, std::map<U, U> const& nss, bool quirks)
	{
		namespace html = wordring::html; namespace css = wordring::wwwc::css; using It = typename Tree::const_iterator; using traits = html::node_traits<It>;
		Tree tree = html::make_document<Tree>(doc.begin(), doc.end());
		std::vector<sel::Node> t; std::vector<It> its; plain(typename Tree::const_iterator(tree.begin()), -1, t, its);
		auto cv = cssref::toks_to_cvs(cssref::tokenize(selector));
		std::vector<sel::Complex> list; bool ok = sel::P{ cv, &nss }.list(list); sel::M m{ t, quirks, true };
		css::parse_context ctx; ctx.m_namespace_uris = nss; auto sl = css::parse_selector(selector, ctx);
		// the narrower productions of the grammar, for a selector they accept
		bool compounds = ok, simples = ok && nss.count(U()) == 0; for (auto const& c : list) { if (c.size() != 1) compounds = simples = false; else if (c[0].s.size() != 1 || c[0].s[0].kind == 6) simples = false; }
		uint32_t production = ok ? g.below(4) : 0; if ((production == 2 && !compounds) || (production == 3 && !simples)) production = 0; if (production) g.label(production == 1 ? "complex list" : production == 2 ? "compound list" : "simple list");
		for (uint32_t round = g.in(1, 3); round > 0; --round)
		{
			// the subtrees of some neighbouring nodes, or of the document
			int first = g.chance(1, 2) ? 0 : static_cast<int>(g.below(static_cast<uint32_t>(t.size()))); size_t take = 1; std::vector<int> roots{ first };
			if (first > 0) { auto const& k = t[t[first].parent].kids; size_t at = static_cast<size_t>(std::find(k.begin(), k.end(), first) - k.begin()); take = g.in(0, static_cast<uint32_t>(k.size() - at)); roots.assign(k.begin() + static_cast<long>(at), k.begin() + static_cast<long>(at + take)); }
			int root = g.chance(1, 3) ? static_cast<int>(g.below(static_cast<uint32_t>(t.size()))) : -1;
			It b = its[first], e = b; for (size_t i = 0; i < take; ++i) ++e;
			std::vector<It> v; auto match = [&](auto const& l) { if (root < 0) css::match_selector(l, ctx, b, e, std::back_inserter(v)); else css::match_selector(l, ctx, b, e, std::back_inserter(v), its[root]); };
			switch (production)
			{
			case 1: match(css::parse_grammar<css::complex_selector_list>(U(selector), ctx)); break;
			case 2: match(css::parse_grammar<css::compound_selector_list>(U(selector), ctx)); break;
			case 3: match(css::parse_grammar<css::simple_selector_list>(U(selector), ctx)); break;
			default: match(sl); break;
			}
			std::vector<int> got, want; for (auto const& i : v) { auto f = std::find(its.begin(), its.end(), i); got.push_back(f == its.end() ? -1 : static_cast<int>(f - its.begin())); }
			auto under = [&](int n, int a) { for (; n >= 0; n = t[n].parent) if (n == a) return true; return false; };
			for (int n = 0; ok && n < static_cast<int>(t.size()); ++n)
			{
				bool in = false; for (int x : roots) if (under(n, x)) in = true;
				if (!in || !t[n].element || (root >= 0 && (n == root || !under(n, root)))) continue;
				for (auto const& c : list) if (m.at(c, static_cast<int>(c.size()) - 1, n)) { want.push_back(n); break; }
			}
			auto str = [](std::vector<int> const& x) { std::string r; for (int i : x) r += std::to_string(i) + " "; return r; };
			if (got != want) fail("selector \"", sh(selector), "\" in ", take, " nodes from ", first, " with scoping root ", root, " of \"", sh(doc), "\" (nodes counted in document order from 0) gives ", str(got), "and not ", str(want), ok ? "" : "(the selector is invalid)");
			if (!want.empty()) g.nontrivial(true);
			g.label(!ok ? "invalid selector" : want.empty() ? "no match" : "matches"); if (root >= 0) g.label("scoping root");
		}
	}
	void s05(Gen& g)
	{
		s4made.clear(); bool quirks = g.chance(1, 4); bool large = g.chance(1, 150); int budget = static_cast<int>(large ? g.in(20, 120) : g.in(2, 14)); if (large) g.label("large document");
		U doc = quirks ? U"" : U"<!DOCTYPE html>"; doc += s5doc(g, large ? 12 : 4, 0, budget);
		U const uris[] = { U"http://www.w3.org/1999/xhtml", U"http://www.w3.org/2000/svg", U"http://www.w3.org/1998/Math/MathML", U"http://www.w3.org/1999/xlink", U"http://www.w3.org/XML/1998/namespace", U"urn:x", U"" };
		std::map<U, U> nss; auto decl = [&](U const& p, int u) { if (g.chance(5, 6)) nss[p] = uris[g.chance(1, 12) ? g.below(7) : static_cast<uint32_t>(u)]; };
		decl(U"h", 0); decl(U"s", 1); decl(U"m", 2); decl(U"l", 3); decl(U"x", 4); if (g.chance(1, 6)) decl(U"S", 2); if (g.chance(1, 3)) nss[U""] = uris[g.below(3)];
		g.note("document ", sh(doc)); for (auto const& [p, u] : nss) g.note("namespace '", sh(p), "' ", sh(u));
		U s; uint32_t n = g.weighted({ 6, 2 }) + 1;
		for (uint32_t i = 0; i < n; ++i) { if (i) s += U", "; s += s5complex(g, nss.count(U"") != 0); }
		g.note("selector ", sh(s));
		switch (g.below(3)) { case 0: s05_in<wordring::html::u8simple_tree>(g, doc, s, nss, quirks); break; case 1: s05_in<wordring::html::u16simple_tree>(g, doc, s, nss, quirks); break; default: s05_in<wordring::html::u32simple_tree>(g, doc, s, nss, quirks); }
	}
	Reg r05({ "S05", "at least one element matches", 200000, 800000, s05 });

	Reg r04({ "S04", "at least one element matches", 60000, 800000, s04 });
}
PBT_MAIN

// Reference for CSS Syntax Level 3: preprocessing, tokenizer and parser, written from the specification on
// plain vectors with an index.  Shares no code with the library.
#pragma once
#include <cmath>
#include <cstdlib>
#include <optional>
#include <string>
#include <vector>

namespace cssref
{
using U = std::u32string;

// a token or a syntax item; one shape for both sides of the comparison
struct N
{
	std::string kind;          // "ident", "function(", "{}", "fn", "at", "rule", "decl", ...
	U text;                    // name / value / unit
	double num = 0;
	bool has_num = false;
	std::string flag;          // id / unrestricted / integer / number / important
	std::vector<N> kids;       // value / prelude
	bool has_block = false;
	std::vector<N> block;      // contents of an at-rule's or rule's {} block
};

inline std::vector<N> toks_to_cvs(std::vector<N> const&);

inline bool close(double a, double b)   // b: reference
{
	if (std::isnan(a)) return false;
	double m = std::fabs(b);
	if (m > 1e290) return std::fabs(a) > 1e280 && (a > 0) == (b > 0);
	if (m < 1e-290) return std::fabs(a) < 1e-280;
	return std::fabs(a - b) <= 1e-9 * m;
}

inline bool same(std::vector<N> const& a, std::vector<N> const& b);
inline bool same(N const& a, N const& b)
{
	return a.kind == b.kind && a.text == b.text && a.has_num == b.has_num && (!a.has_num || close(a.num, b.num))
		&& a.flag == b.flag && a.has_block == b.has_block && same(a.kids, b.kids) && same(a.block, b.block);
}
inline bool same(std::vector<N> const& a, std::vector<N> const& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
	return true;
}

inline std::string esc(U const& s)
{
	std::string r;
	for (char32_t c : s)
	{
		char b[16];
		if (0x20 < c && c < 0x7F && c != '\\') r += char(c);
		else { std::snprintf(b, sizeof b, "\\%x.", unsigned(c)); r += b; }
	}
	return r;
}
inline std::string dump(std::vector<N> const& v);
inline std::string dump(N const& n)
{
	std::string r = n.kind;
	if (!n.text.empty()) r += ":" + esc(n.text);
	if (n.has_num) { char b[40]; std::snprintf(b, sizeof b, "=%.12g", n.num); r += b; }
	if (!n.flag.empty()) r += "/" + n.flag;
	if (!n.kids.empty()) r += "<" + dump(n.kids) + ">";
	if (n.has_block) r += "{" + dump(n.block) + "}";
	return r;
}
inline std::string dump(std::vector<N> const& v)
{
	std::string r;
	for (auto const& n : v) { if (!r.empty()) r += ' '; r += dump(n); }
	return r;
}

// ---- 3.3 preprocessing
inline U preprocess(U const& in)
{
	U out;
	for (size_t i = 0; i < in.size(); ++i)
	{
		char32_t c = in[i];
		if (c == 0x0D) { out += U'\n'; if (i + 1 < in.size() && in[i + 1] == 0x0A) ++i; }
		else if (c == 0x0C) out += U'\n';
		else if (c == 0 || (0xD800 <= c && c <= 0xDFFF)) out += U'\xFFFD';
		else out += c;
	}
	return out;
}

// ---- 4 tokenizer
class Tokenizer
{
	U const& s; size_t p = 0;
	static constexpr char32_t E = 0xFFFFFFFF;   // EOF code point
	char32_t at(size_t i) const { return i < s.size() ? s[i] : E; }
	static bool digit(char32_t c) { return c >= '0' && c <= '9'; }
	static bool hex(char32_t c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	static bool start(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= 0x80 && c != E); }
	static bool name(char32_t c) { return start(c) || digit(c) || c == '-'; }
	static bool ws(char32_t c) { return c == '\n' || c == '\t' || c == ' '; }
	static bool nonprint(char32_t c) { return c <= 8 || c == 0xB || (c >= 0xE && c <= 0x1F) || c == 0x7F; }
	bool esc2(size_t i) const { return at(i) == '\\' && at(i + 1) != '\n' && at(i + 1) != E; }
	bool id3(size_t i) const
	{
		if (at(i) == '-') return start(at(i + 1)) || at(i + 1) == '-' || esc2(i + 1);
		return start(at(i)) || esc2(i);
	}
	bool num3(size_t i) const
	{
		if (at(i) == '+' || at(i) == '-') ++i;
		return digit(at(i)) || (at(i) == '.' && digit(at(i + 1)));
	}
	char32_t escape()   // p is after the backslash
	{
		if (at(p) == E) return 0xFFFD;
		if (!hex(at(p))) return s[p++];
		unsigned v = 0;
		for (int i = 0; i < 6 && hex(at(p)); ++i)
		{
			char32_t c = s[p++];
			v = v * 16 + (digit(c) ? c - '0' : (c | 32) - 'a' + 10);
		}
		if (ws(at(p))) ++p;
		if (v == 0 || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) return 0xFFFD;
		return v;
	}
	U ident()
	{
		U r;
		for (;;)
		{
			if (name(at(p))) r += s[p++];
			else if (esc2(p)) { ++p; r += escape(); }
			else return r;
		}
	}
	static N mk(char const* k) { N n; n.kind = k; return n; }
	static N mk(char const* k, U t) { N n; n.kind = k; n.text = std::move(t); return n; }
	N number()
	{
		std::string r; bool integer = true;
		if (at(p) == '+' || at(p) == '-') r += char(s[p++]);
		while (digit(at(p))) r += char(s[p++]);
		if (at(p) == '.' && digit(at(p + 1)))
		{
			integer = false; r += char(s[p++]);
			while (digit(at(p))) r += char(s[p++]);
		}
		if ((at(p) | 32) == 'e' && at(p) != E)
		{
			size_t k = (at(p + 1) == '+' || at(p + 1) == '-') ? 2 : 1;
			if (digit(at(p + k)))
			{
				integer = false;
				for (size_t j = 0; j < k; ++j) r += char(s[p++]);
				while (digit(at(p))) r += char(s[p++]);
			}
		}
		N n = mk("number"); n.has_num = true; n.num = std::strtod(r.c_str(), nullptr); n.flag = integer ? "integer" : "number";
		if (id3(p)) { n.kind = "dimension"; n.text = ident(); }
		else if (at(p) == '%') { ++p; n.kind = "percentage"; n.flag.clear(); }
		return n;
	}
	N string(char32_t q)
	{
		U r;
		for (;;)
		{
			char32_t c = at(p);
			if (c == E) return mk("string", r);
			if (c == '\n') return mk("bad-string");
			++p;
			if (c == q) return mk("string", r);
			if (c == '\\')
			{
				if (at(p) == E) continue;
				if (at(p) == '\n') { ++p; continue; }
				r += escape();
			}
			else r += c;
		}
	}
	void remnants()
	{
		for (;;)
		{
			char32_t c = at(p);
			if (c == E) return;
			if (esc2(p)) { ++p; escape(); continue; }
			++p;
			if (c == ')') return;
		}
	}
	N url()
	{
		U r;
		while (ws(at(p))) ++p;
		for (;;)
		{
			char32_t c = at(p);
			if (c == E) return mk("url", r);
			if (c == ')') { ++p; return mk("url", r); }
			if (ws(c))
			{
				while (ws(at(p))) ++p;
				if (at(p) == E) return mk("url", r);
				if (at(p) == ')') { ++p; return mk("url", r); }
				remnants(); return mk("bad-url");
			}
			if (c == '"' || c == '\'' || c == '(' || nonprint(c)) { ++p; remnants(); return mk("bad-url"); }
			if (c == '\\')
			{
				if (!esc2(p)) { ++p; remnants(); return mk("bad-url"); }
				++p; r += escape(); continue;
			}
			r += c; ++p;
		}
	}
	N identlike()
	{
		U n = ident();
		U l = n; for (auto& c : l) if (c >= 'A' && c <= 'Z') c |= 32;
		if (l == U"url" && at(p) == '(')
		{
			++p;
			while (ws(at(p)) && ws(at(p + 1))) ++p;
			char32_t c = ws(at(p)) ? at(p + 1) : at(p);
			if (c == '"' || c == '\'') return mk("function(", n);
			return url();
		}
		if (at(p) == '(') { ++p; return mk("function(", n); }
		return mk("ident", n);
	}
public:
	Tokenizer(U const& in) : s(in) {}
	std::vector<N> run()
	{
		std::vector<N> out;
		for (;;)
		{
			while (at(p) == '/' && at(p + 1) == '*')
			{
				p += 2;
				while (at(p) != E && !(at(p) == '*' && at(p + 1) == '/')) ++p;
				if (at(p) != E) p += 2;
			}
			char32_t c = at(p);
			if (c == E) return out;
			if (ws(c)) { while (ws(at(p))) ++p; out.push_back(mk("ws")); continue; }
			if (c == '"' || c == '\'') { ++p; out.push_back(string(c)); continue; }
			if (c == '#' && (name(at(p + 1)) || esc2(p + 1)))
			{
				++p; N n = mk("hash"); n.flag = id3(p) ? "id" : "unrestricted"; n.text = ident(); out.push_back(n); continue;
			}
			if (num3(p)) { out.push_back(number()); continue; }
			if (c == '-' && at(p + 1) == '-' && at(p + 2) == '>') { p += 3; out.push_back(mk("CDC")); continue; }
			if (c == '<' && at(p + 1) == '!' && at(p + 2) == '-' && at(p + 3) == '-') { p += 4; out.push_back(mk("CDO")); continue; }
			if (c == '@' && id3(p + 1)) { ++p; out.push_back(mk("at-keyword", ident())); continue; }
			if (id3(p)) { out.push_back(identlike()); continue; }
			++p;
			switch (c)
			{
			case '(': out.push_back(mk("(")); break;
			case ')': out.push_back(mk(")")); break;
			case '[': out.push_back(mk("[")); break;
			case ']': out.push_back(mk("]")); break;
			case '{': out.push_back(mk("{")); break;
			case '}': out.push_back(mk("}")); break;
			case ',': out.push_back(mk(",")); break;
			case ':': out.push_back(mk(":")); break;
			case ';': out.push_back(mk(";")); break;
			default: out.push_back(mk("delim", U(1, c)));
			}
		}
	}
};
inline std::vector<N> tokenize(U const& in) { U f = preprocess(in); return Tokenizer(f).run(); }

// ---- 5 parser: first group into component values, then everything works on those
struct Group
{
	std::vector<N> const& t; size_t p = 0;
	N one()
	{
		N n = t[p++];
		char const* end = n.kind == "{" ? "}" : n.kind == "[" ? "]" : (n.kind == "(" || n.kind == "function(") ? ")" : nullptr;
		if (!end) return n;
		N b; b.kind = n.kind == "function(" ? "fn" : n.kind == "{" ? "{}" : n.kind == "[" ? "[]" : "()"; b.text = n.text;
		while (p < t.size() && t[p].kind != end) b.kids.push_back(one());
		if (p < t.size()) ++p;
		return b;
	}
};
inline std::vector<N> toks_to_cvs(std::vector<N> const& t)
{
	Group g{t}; std::vector<N> r;
	while (g.p < t.size()) r.push_back(g.one());
	return r;
}
inline bool isws(N const& n) { return n.kind == "ws"; }

struct Parser
{
	std::vector<N> v; size_t p = 0;
	bool end() const { return p >= v.size(); }
	N at_rule()
	{
		N r; r.kind = "at"; r.text = v[p++].text;
		while (!end())
		{
			N n = v[p++];
			if (n.kind == ";") return r;
			if (n.kind == "{}") { r.has_block = true; r.block = n.kids; return r; }
			r.kids.push_back(n);
		}
		return r;
	}
	std::optional<N> qualified()
	{
		N r; r.kind = "rule";
		while (!end())
		{
			N n = v[p++];
			if (n.kind == "{}") { r.has_block = true; r.block = n.kids; return r; }
			r.kids.push_back(n);
		}
		return {};
	}
	std::vector<N> rules(bool top)
	{
		std::vector<N> out;
		while (!end())
		{
			N const& n = v[p];
			if (isws(n) || (top && (n.kind == "CDO" || n.kind == "CDC"))) { ++p; continue; }
			if (n.kind == "at-keyword") { out.push_back(at_rule()); continue; }
			if (auto q = qualified()) out.push_back(*q);
		}
		return out;
	}
	static std::optional<N> declaration(std::vector<N> const& d)   // d starts with an ident
	{
		N r; r.kind = "decl"; r.text = d[0].text;
		size_t i = 1;
		while (i < d.size() && isws(d[i])) ++i;
		if (i == d.size() || d[i].kind != ":") return {};
		++i;
		while (i < d.size() && isws(d[i])) ++i;
		r.kids.assign(d.begin() + i, d.end());
		auto trim = [&] { while (!r.kids.empty() && isws(r.kids.back())) r.kids.pop_back(); };
		// the last two non-whitespace values
		std::vector<size_t> nz;
		for (size_t k = 0; k < r.kids.size(); ++k) if (!isws(r.kids[k])) nz.push_back(k);
		if (nz.size() >= 2)
		{
			N const& a = r.kids[nz[nz.size() - 2]]; N const& b = r.kids[nz.back()];
			U l = b.text; for (auto& c : l) if (c >= 'A' && c <= 'Z') c |= 32;
			if (a.kind == "delim" && a.text == U"!" && b.kind == "ident" && l == U"important")
			{
				r.flag = "important";
				r.kids.resize(nz[nz.size() - 2]);
			}
		}
		trim();
		return r;
	}
	std::vector<N> declarations()
	{
		std::vector<N> out;
		while (!end())
		{
			N const& n = v[p];
			if (isws(n) || n.kind == ";") { ++p; continue; }
			if (n.kind == "at-keyword") { out.push_back(at_rule()); continue; }
			bool id = n.kind == "ident";
			std::vector<N> d;
			while (!end() && v[p].kind != ";") d.push_back(v[p++]);
			if (id) if (auto r = declaration(d)) out.push_back(*r);
		}
		return out;
	}
	void skip() { while (!end() && isws(v[p])) ++p; }
	std::optional<N> rule()
	{
		skip();
		if (end()) return {};
		N r;
		if (v[p].kind == "at-keyword") r = at_rule();
		else { auto q = qualified(); if (!q) return {}; r = *q; }
		skip();
		if (!end()) return {};
		return r;
	}
	std::optional<N> decl()
	{
		skip();
		if (end() || v[p].kind != "ident") return {};
		return declaration(std::vector<N>(v.begin() + p, v.end()));
	}
	std::optional<N> component()
	{
		skip();
		if (end()) return {};
		N r = v[p++];
		skip();
		if (!end()) return {};
		return r;
	}
	std::vector<std::vector<N>> commas()
	{
		std::vector<std::vector<N>> out(1);
		for (; !end(); ++p) if (v[p].kind == ",") out.emplace_back(); else out.back().push_back(v[p]);
		return out;
	}
};
}

// Reference for the HTML Standard's parser (tokenization and tree construction, scripting disabled, no fragment
// case) and serializer, written from the standard on a plain index-linked tree.  Shares no code with the library.
// The text of the standard is that of 2020, the one the library implements.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace htmlref
{
using U = std::u32string;
inline U W(std::string_view s) { U r; for (unsigned char c : s) r += c; return r; }
inline std::string A(U const& s)
{
	std::string r;
	for (char32_t c : s) { char b[16]; if (0x20 <= c && c < 0x7F && c != '\\') r += static_cast<char>(c); else { std::snprintf(b, sizeof b, "\\%x.", static_cast<unsigned>(c)); r += b; } }
	return r;
}

struct Attr { std::string ns; U prefix, name, value; bool operator==(Attr const&) const = default; };
struct Token
{
	enum T { Doctype, Start, End, Comment, Char, Eof } t = Eof;
	U name, data; std::string n8;                  // name; n8: the same, when ASCII
	std::vector<Attr> attrs; bool self = false;
	bool has_name = false, has_pub = false, has_sys = false, quirks = false; U pub, sys;
	char32_t c = 0;
	U const* attr(char const* k) const { for (auto const& a : attrs) if (a.name == W(k)) return &a.value; return nullptr; }
};
struct Entity { char const* name; char32_t a, b; };
inline Entity const entities[] = {
#include "html_entities.inc"
};
inline std::map<std::string, Entity const*> const& entity_map() { static auto m = [] { std::map<std::string, Entity const*> r; for (auto const& e : entities) r[e.name] = &e; return r; }(); return m; }

inline U newlines(U const& in)
{
	U r; for (size_t i = 0; i < in.size(); ++i) { if (in[i] == U'\r') { r += U'\n'; if (i + 1 < in.size() && in[i + 1] == U'\n') ++i; } else r += in[i]; } return r;
}

inline bool ws(char32_t c) { return c == 9 || c == 0xA || c == 0xC || c == 0xD || c == 0x20; }
inline bool up(char32_t c) { return 'A' <= c && c <= 'Z'; }
inline bool alpha(char32_t c) { return up(c) || ('a' <= c && c <= 'z'); }
inline bool digit(char32_t c) { return '0' <= c && c <= '9'; }
inline char32_t lo(char32_t c) { return up(c) ? c + 32 : c; }
inline U lower(U s) { for (auto& c : s) c = lo(c); return s; }

// ---- tokenization --------------------------------------------------------------------------------------
// Sink: void token(Token&), bool cdata()  (whether a CDATA section may start here: the adjusted current node exists and is not in the HTML namespace)
template <typename Sink> struct Tokenizer
{
	enum S { Data, Rcdata, Rawtext, Script, Plaintext, TagOpen, EndTagOpen, TagName,
		RcLt, RcEnd, RcEndName, RawLt, RawEnd, RawEndName, ScLt, ScEnd, ScEndName, ScEscStart, ScEscStartDash, ScEsc, ScEscDash, ScEscDashDash,
		ScEscLt, ScEscEnd, ScEscEndName, ScDblStart, ScDbl, ScDblDash, ScDblDashDash, ScDblLt, ScDblEnd,
		BeforeAttrName, AttrName, AfterAttrName, BeforeAttrValue, AttrDq, AttrSq, AttrUq, AfterAttrQ, SelfClosing, BogusComment, MarkupDecl,
		CommentStart, CommentStartDash, CommentS, CommentLt, CommentLtBang, CommentLtBangDash, CommentLtBangDashDash, CommentEndDash, CommentEnd, CommentEndBang,
		DoctypeS, BeforeDoctypeName, DoctypeName, AfterDoctypeName, AfterPubKw, BeforePub, PubDq, PubSq, AfterPub, BetweenPubSys, AfterSysKw, BeforeSys, SysDq, SysSq, AfterSys, BogusDoctype,
		Cdata, CdataBracket, CdataEnd, CharRef, NamedRef, Ambiguous, NumericRef, HexStart, DecStart, Hex, Dec, NumEnd };
	static constexpr char32_t EOFC = 0xFFFFFFFF;
	U in; Sink& sink; size_t p = 0; S s = Data, ret = Data; Token tag, cm, dt; U tmp, last; uint32_t code = 0; bool done = false; char32_t c = 0;
	bool dup = false;     // the attribute being read repeats an earlier name
	std::set<int> visited;

	Tokenizer(U const& text, Sink& k) : in(newlines(text)), sink(k) {}
	void ch(char32_t x) { Token t; t.t = Token::Char; t.c = x; sink.token(t); }
	void chs(char const* x) { for (; *x; ++x) ch(static_cast<unsigned char>(*x)); }
	void emit(Token& t) { Token k = t; k.n8.clear(); for (char32_t x : k.name) k.n8 += x < 0x80 ? static_cast<char>(x) : '?'; sink.token(k); }
	void emit_tag() { drop(); if (tag.t == Token::Start) last = tag.name; else { } emit(tag); }
	void eof() { Token t; t.t = Token::Eof; done = true; sink.token(t); }
	void re(S n) { s = n; --p; }       // reconsume
	void drop() { if (dup) { tag.attrs.pop_back(); dup = false; } }
	void attr() { drop(); tag.attrs.emplace_back(); }
	void name_done() { auto& a = tag.attrs; for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i].name == a.back().name) dup = true; }
	bool appropriate() { return !last.empty() && tag.name == last; }
	bool in_attr() { return ret == AttrDq || ret == AttrSq || ret == AttrUq; }
	void flush() { for (char32_t x : tmp) if (in_attr()) tag.attrs.back().value += x; else ch(x); }
	bool ahead(char const* w, bool ci) { size_t i = p - 1; for (; *w; ++w, ++i) if (i >= in.size() || (ci ? lo(in[i]) : in[i]) != static_cast<unsigned char>(*w)) return false; return true; }
	void start_tag(Token::T t) { tag = Token(); tag.t = t; dup = false; }

	void run() { while (!done) { c = p < in.size() ? in[p] : EOFC; ++p; visited.insert(s); step(); } }

	// "</name" inside RCDATA, RAWTEXT or script data
	void end_name(S back)
	{
		if (ws(c) && appropriate()) s = BeforeAttrName;
		else if (c == '/' && appropriate()) s = SelfClosing;
		else if (c == '>' && appropriate()) { s = Data; emit_tag(); }
		else if (alpha(c)) { tag.name += lo(c); tmp += c; }
		else { chs("</"); for (char32_t x : tmp) ch(x); re(back); }
	}
	void step()
	{
		switch (s)
		{
		case Data: if (c == '&') { ret = Data; s = CharRef; } else if (c == '<') s = TagOpen; else if (c == EOFC) eof(); else ch(c); break;
		case Rcdata: if (c == '&') { ret = Rcdata; s = CharRef; } else if (c == '<') s = RcLt; else if (c == 0) ch(0xFFFD); else if (c == EOFC) eof(); else ch(c); break;
		case Rawtext: if (c == '<') s = RawLt; else if (c == 0) ch(0xFFFD); else if (c == EOFC) eof(); else ch(c); break;
		case Script: if (c == '<') s = ScLt; else if (c == 0) ch(0xFFFD); else if (c == EOFC) eof(); else ch(c); break;
		case Plaintext: if (c == 0) ch(0xFFFD); else if (c == EOFC) eof(); else ch(c); break;
		case TagOpen:
			if (c == '!') s = MarkupDecl;
			else if (c == '/') s = EndTagOpen;
			else if (c != EOFC && alpha(c)) { start_tag(Token::Start); re(TagName); }
			else if (c == '?') { cm = Token(); cm.t = Token::Comment; re(BogusComment); }
			else if (c == EOFC) { ch('<'); eof(); }
			else { ch('<'); re(Data); }
			break;
		case EndTagOpen:
			if (c != EOFC && alpha(c)) { start_tag(Token::End); re(TagName); }
			else if (c == '>') s = Data;
			else if (c == EOFC) { chs("</"); eof(); }
			else { cm = Token(); cm.t = Token::Comment; re(BogusComment); }
			break;
		case TagName:
			if (c == EOFC) eof();
			else if (ws(c)) s = BeforeAttrName;
			else if (c == '/') s = SelfClosing;
			else if (c == '>') { s = Data; emit_tag(); }
			else if (c == 0) tag.name += 0xFFFD;
			else tag.name += lo(c);
			break;
		case RcLt: if (c == '/') { tmp.clear(); s = RcEnd; } else { ch('<'); re(Rcdata); } break;
		case RcEnd: if (c != EOFC && alpha(c)) { start_tag(Token::End); re(RcEndName); } else { chs("</"); re(Rcdata); } break;
		case RcEndName: end_name(Rcdata); break;
		case RawLt: if (c == '/') { tmp.clear(); s = RawEnd; } else { ch('<'); re(Rawtext); } break;
		case RawEnd: if (c != EOFC && alpha(c)) { start_tag(Token::End); re(RawEndName); } else { chs("</"); re(Rawtext); } break;
		case RawEndName: end_name(Rawtext); break;
		case ScLt: if (c == '/') { tmp.clear(); s = ScEnd; } else if (c == '!') { s = ScEscStart; chs("<!"); } else { ch('<'); re(Script); } break;
		case ScEnd: if (c != EOFC && alpha(c)) { start_tag(Token::End); re(ScEndName); } else { chs("</"); re(Script); } break;
		case ScEndName: end_name(Script); break;
		case ScEscStart: if (c == '-') { s = ScEscStartDash; ch('-'); } else re(Script); break;
		case ScEscStartDash: if (c == '-') { s = ScEscDashDash; ch('-'); } else re(Script); break;
		case ScEsc: if (c == '-') { s = ScEscDash; ch('-'); } else if (c == '<') s = ScEscLt; else if (c == 0) ch(0xFFFD); else if (c == EOFC) eof(); else ch(c); break;
		case ScEscDash: if (c == '-') { s = ScEscDashDash; ch('-'); } else if (c == '<') s = ScEscLt; else if (c == EOFC) eof(); else { s = ScEsc; ch(c ? c : 0xFFFD); } break;
		case ScEscDashDash: if (c == '-') ch('-'); else if (c == '<') s = ScEscLt; else if (c == '>') { s = Script; ch('>'); } else if (c == EOFC) eof(); else { s = ScEsc; ch(c ? c : 0xFFFD); } break;
		case ScEscLt: if (c == '/') { tmp.clear(); s = ScEscEnd; } else if (c != EOFC && alpha(c)) { tmp.clear(); ch('<'); re(ScDblStart); } else { ch('<'); re(ScEsc); } break;
		case ScEscEnd: if (c != EOFC && alpha(c)) { start_tag(Token::End); re(ScEscEndName); } else { chs("</"); re(ScEsc); } break;
		case ScEscEndName: end_name(ScEsc); break;
		case ScDblStart: if (c != EOFC && (ws(c) || c == '/' || c == '>')) { s = tmp == U"script" ? ScDbl : ScEsc; ch(c); } else if (c != EOFC && alpha(c)) { tmp += lo(c); ch(c); } else re(ScEsc); break;
		case ScDbl: if (c == '-') { s = ScDblDash; ch('-'); } else if (c == '<') { s = ScDblLt; ch('<'); } else if (c == EOFC) eof(); else ch(c ? c : 0xFFFD); break;
		case ScDblDash: if (c == '-') { s = ScDblDashDash; ch('-'); } else if (c == '<') { s = ScDblLt; ch('<'); } else if (c == EOFC) eof(); else { s = ScDbl; ch(c ? c : 0xFFFD); } break;
		case ScDblDashDash: if (c == '-') ch('-'); else if (c == '<') { s = ScDblLt; ch('<'); } else if (c == '>') { s = Script; ch('>'); } else if (c == EOFC) eof(); else { s = ScDbl; ch(c ? c : 0xFFFD); } break;
		case ScDblLt: if (c == '/') { tmp.clear(); s = ScDblEnd; ch('/'); } else re(ScDbl); break;
		case ScDblEnd: if (c != EOFC && (ws(c) || c == '/' || c == '>')) { s = tmp == U"script" ? ScEsc : ScDbl; ch(c); } else if (c != EOFC && alpha(c)) { tmp += lo(c); ch(c); } else re(ScDbl); break;
		case BeforeAttrName:
			if (c != EOFC && ws(c)) break;
			if (c == '/' || c == '>' || c == EOFC) re(AfterAttrName);
			else if (c == '=') { attr(); tag.attrs.back().name = U"="; s = AttrName; }
			else { attr(); re(AttrName); }
			break;
		case AttrName:
			if (c == EOFC || ws(c) || c == '/' || c == '>') { name_done(); re(AfterAttrName); }
			else if (c == '=') { name_done(); s = BeforeAttrValue; }
			else if (c == 0) tag.attrs.back().name += 0xFFFD;
			else tag.attrs.back().name += lo(c);
			break;
		case AfterAttrName:
			if (c == EOFC) eof();
			else if (ws(c)) break;
			else if (c == '/') s = SelfClosing;
			else if (c == '=') s = BeforeAttrValue;
			else if (c == '>') { s = Data; emit_tag(); }
			else { attr(); re(AttrName); }
			break;
		case BeforeAttrValue:
			if (c != EOFC && ws(c)) break;
			if (c == '"') s = AttrDq; else if (c == '\'') s = AttrSq; else if (c == '>') { s = Data; emit_tag(); } else re(AttrUq);
			break;
		case AttrDq: case AttrSq:
			if (c == (s == AttrDq ? U'"' : U'\'')) s = AfterAttrQ;
			else if (c == '&') { ret = s; s = CharRef; }
			else if (c == EOFC) eof();
			else tag.attrs.back().value += c ? c : 0xFFFD;
			break;
		case AttrUq:
			if (c == EOFC) eof();
			else if (ws(c)) s = BeforeAttrName;
			else if (c == '&') { ret = s; s = CharRef; }
			else if (c == '>') { s = Data; emit_tag(); }
			else tag.attrs.back().value += c ? c : 0xFFFD;
			break;
		case AfterAttrQ:
			if (c == EOFC) eof();
			else if (ws(c)) s = BeforeAttrName;
			else if (c == '/') s = SelfClosing;
			else if (c == '>') { s = Data; emit_tag(); }
			else re(BeforeAttrName);
			break;
		case SelfClosing:
			if (c == '>') { tag.self = true; s = Data; emit_tag(); }
			else if (c == EOFC) eof();
			else re(BeforeAttrName);
			break;
		case BogusComment:
			if (c == '>') { s = Data; emit(cm); }
			else if (c == EOFC) { emit(cm); eof(); }
			else cm.data += c ? c : 0xFFFD;
			break;
		case MarkupDecl:
			cm = Token(); cm.t = Token::Comment;
			if (ahead("--", false)) { p += 1; s = CommentStart; }
			else if (ahead("doctype", true)) { p += 6; s = DoctypeS; }
			else if (ahead("[CDATA[", false)) { p += 6; if (sink.cdata()) s = Cdata; else { cm.data = U"[CDATA["; s = BogusComment; } }
			else re(BogusComment);
			break;
		case CommentStart: if (c == '-') s = CommentStartDash; else if (c == '>') { s = Data; emit(cm); } else re(CommentS); break;
		case CommentStartDash: if (c == '-') s = CommentEnd; else if (c == '>') { s = Data; emit(cm); } else if (c == EOFC) { emit(cm); eof(); } else { cm.data += U'-'; re(CommentS); } break;
		case CommentS: if (c == '<') { cm.data += c; s = CommentLt; } else if (c == '-') s = CommentEndDash; else if (c == EOFC) { emit(cm); eof(); } else cm.data += c ? c : 0xFFFD; break;
		case CommentLt: if (c == '!') { cm.data += c; s = CommentLtBang; } else if (c == '<') cm.data += c; else re(CommentS); break;
		case CommentLtBang: if (c == '-') s = CommentLtBangDash; else re(CommentS); break;
		case CommentLtBangDash: if (c == '-') s = CommentLtBangDashDash; else re(CommentEndDash); break;
		case CommentLtBangDashDash: re(CommentEnd); break;
		case CommentEndDash: if (c == '-') s = CommentEnd; else if (c == EOFC) { emit(cm); eof(); } else { cm.data += U'-'; re(CommentS); } break;
		case CommentEnd: if (c == '>') { s = Data; emit(cm); } else if (c == '!') s = CommentEndBang; else if (c == '-') cm.data += U'-'; else if (c == EOFC) { emit(cm); eof(); } else { cm.data += U"--"; re(CommentS); } break;
		case CommentEndBang: if (c == '-') { cm.data += U"--!"; s = CommentEndDash; } else if (c == '>') { s = Data; emit(cm); } else if (c == EOFC) { emit(cm); eof(); } else { cm.data += U"--!"; re(CommentS); } break;
		case DoctypeS:
			if (c == EOFC) { newdt(); dt.quirks = true; emit(dt); eof(); }
			else if (ws(c)) s = BeforeDoctypeName; else re(BeforeDoctypeName);
			break;
		case BeforeDoctypeName:
			if (c == EOFC) { newdt(); dt.quirks = true; emit(dt); eof(); }
			else if (ws(c)) break;
			else if (c == '>') { newdt(); dt.quirks = true; s = Data; emit(dt); }
			else { newdt(); dt.has_name = true; dt.name = U(1, c ? lo(c) : 0xFFFD); s = DoctypeName; }
			break;
		case DoctypeName:
			if (c == EOFC) dteof();
			else if (ws(c)) s = AfterDoctypeName;
			else if (c == '>') { s = Data; emit(dt); }
			else dt.name += c ? lo(c) : 0xFFFD;
			break;
		case AfterDoctypeName:
			if (c == EOFC) dteof();
			else if (ws(c)) break;
			else if (c == '>') { s = Data; emit(dt); }
			else if (ahead("public", true)) { p += 5; s = AfterPubKw; }
			else if (ahead("system", true)) { p += 5; s = AfterSysKw; }
			else { dt.quirks = true; re(BogusDoctype); }
			break;
		case AfterPubKw: case BeforePub:
			if (c == EOFC) dteof();
			else if (ws(c)) s = BeforePub;
			else if (c == '"' || c == '\'') { dt.has_pub = true; dt.pub.clear(); s = c == '"' ? PubDq : PubSq; }
			else if (c == '>') { dt.quirks = true; s = Data; emit(dt); }
			else { dt.quirks = true; re(BogusDoctype); }
			break;
		case PubDq: case PubSq:
			if (c == EOFC) dteof();
			else if (c == (s == PubDq ? U'"' : U'\'')) s = AfterPub;
			else if (c == '>') { dt.quirks = true; s = Data; emit(dt); }
			else dt.pub += c ? c : 0xFFFD;
			break;
		case AfterPub: case BetweenPubSys:
			if (c == EOFC) dteof();
			else if (ws(c)) s = BetweenPubSys;
			else if (c == '>') { s = Data; emit(dt); }
			else if (c == '"' || c == '\'') { dt.has_sys = true; dt.sys.clear(); s = c == '"' ? SysDq : SysSq; }
			else { dt.quirks = true; re(BogusDoctype); }
			break;
		case AfterSysKw: case BeforeSys:
			if (c == EOFC) dteof();
			else if (ws(c)) s = BeforeSys;
			else if (c == '"' || c == '\'') { dt.has_sys = true; dt.sys.clear(); s = c == '"' ? SysDq : SysSq; }
			else if (c == '>') { dt.quirks = true; s = Data; emit(dt); }
			else { dt.quirks = true; re(BogusDoctype); }
			break;
		case SysDq: case SysSq:
			if (c == EOFC) dteof();
			else if (c == (s == SysDq ? U'"' : U'\'')) s = AfterSys;
			else if (c == '>') { dt.quirks = true; s = Data; emit(dt); }
			else dt.sys += c ? c : 0xFFFD;
			break;
		case AfterSys:
			if (c == EOFC) dteof();
			else if (ws(c)) break;
			else if (c == '>') { s = Data; emit(dt); }
			else re(BogusDoctype);
			break;
		case BogusDoctype: if (c == '>') { s = Data; emit(dt); } else if (c == EOFC) { emit(dt); eof(); } break;
		case Cdata: if (c == ']') s = CdataBracket; else if (c == EOFC) eof(); else ch(c); break;
		case CdataBracket: if (c == ']') s = CdataEnd; else { ch(']'); re(Cdata); } break;
		case CdataEnd: if (c == ']') ch(']'); else if (c == '>') s = Data; else { chs("]]"); re(Cdata); } break;
		case CharRef:
			tmp = U"&";
			if (c != EOFC && (alpha(c) || digit(c))) re(NamedRef);
			else if (c == '#') { tmp += c; s = NumericRef; }
			else { flush(); re(ret); }
			break;
		case NamedRef:
		{
			std::string k; Entity const* best = nullptr; size_t n = 0;
			auto const& m = entity_map();
			for (size_t i = p - 1; i < in.size() && in[i] < 0x80 && k.size() < 40; ++i)
			{
				k += static_cast<char>(in[i]); auto f = m.find(k); if (f != m.end()) { best = f->second; n = k.size(); }
				if (k.back() == ';') break;
			}
			if (!best) { --p; flush(); s = Ambiguous; break; }
			U w = in.substr(p - 1, n); p += n - 1; tmp += w;
			char32_t nx = p < in.size() ? in[p] : EOFC;
			if (in_attr() && w.back() != U';' && nx != EOFC && (nx == '=' || alpha(nx) || digit(nx))) { flush(); s = ret; break; }
			tmp = U(1, best->a); if (best->b) tmp += best->b;
			flush(); s = ret; break;
		}
		case Ambiguous: if (c != EOFC && (alpha(c) || digit(c))) { if (in_attr()) tag.attrs.back().value += c; else ch(c); } else re(ret); break;
		case NumericRef: code = 0; if (c == 'x' || c == 'X') { tmp += c; s = HexStart; } else re(DecStart); break;
		case HexStart: if (c != EOFC && (digit(c) || ('a' <= lo(c) && lo(c) <= 'f'))) re(Hex); else { flush(); re(ret); } break;
		case DecStart: if (c != EOFC && digit(c)) re(Dec); else { flush(); re(ret); } break;
		case Hex: if (c != EOFC && digit(c)) add(16, c - '0'); else if (c != EOFC && 'a' <= lo(c) && lo(c) <= 'f') add(16, lo(c) - 'a' + 10); else if (c == ';') numend(); else { --p; numend(); } break;
		case Dec: if (c != EOFC && digit(c)) add(10, c - '0'); else if (c == ';') numend(); else { --p; numend(); } break;
		default: break;
		}
	}
	void newdt() { dt = Token(); dt.t = Token::Doctype; }
	void dteof() { dt.quirks = true; emit(dt); eof(); }
	void add(uint32_t base, uint32_t v) { if (code <= 0x10FFFF) code = code * base + v; }
	void numend()
	{
		static char32_t const t[32] = { 0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0, 0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0, 0x017E, 0x0178 };
		if (code == 0 || code > 0x10FFFF || (0xD800 <= code && code <= 0xDFFF)) code = 0xFFFD;
		else if (0x80 <= code && code <= 0x9F && t[code - 0x80]) code = t[code - 0x80];
		tmp = U(1, code); flush(); s = ret;
	}
};

// ---- tree ------------------------------------------------------------------------------------------------
struct Node
{
	enum T { Document, Doctype, Element, Text, Comment, Instruction } t = Element;
	std::string ns; U name; std::string n8; std::vector<Attr> attrs; U data, pub, sys, prefix;
	int parent = -1; std::vector<int> kids;
};
using Set = std::set<std::string>;

struct Parser
{
	using Tk = Tokenizer<Parser>;
	enum M { Initial, BeforeHtml, BeforeHead, InHead, InHeadNoscript, AfterHead, InBody, TextM, InTable, InTableText, InCaption, InColgroup, InTableBody, InRow, InCell, InSelect, InSelectInTable, InTemplate, AfterBody, InFrameset, AfterFrameset, AfterAfterBody, AfterAfterFrameset };
	std::vector<Node> n; std::vector<int> st; std::vector<int> fmt;   // fmt: -1 is a marker
	std::vector<M> tmodes; M m = Initial, orig = Initial; int head = -1, form = -1; bool frameset_ok = true, foster = false, skip_lf = false, stopped = false;
	std::string mode = "no-quirks"; std::vector<char32_t> pend; Tk tk; std::set<int> used; std::set<std::string> events;
	U const* charset = nullptr;

	std::string text() const;            // the tree, as dump() writes it
	explicit Parser(U const& text, bool swap = false) : tk(text, *this), swapped(swap) { n.emplace_back(); n[0].t = Node::Document; tk.run(); }

	// -- tree primitives
	int make(std::string ns, U name, std::vector<Attr> attrs)
	{
		n.emplace_back(); Node& e = n.back(); e.ns = ns; e.name = name; e.attrs = attrs; for (char32_t c : name) e.n8 += c < 0x80 ? static_cast<char>(c) : '?';
		return static_cast<int>(n.size()) - 1;
	}
	void detach(int x) { if (n[x].parent < 0) return; auto& k = n[n[x].parent].kids; k.erase(std::find(k.begin(), k.end(), x)); n[x].parent = -1; }
	struct Pos { int parent; int before; };       // before: -1 is the end
	void put(Pos q, int x) { detach(x); auto& k = n[q.parent].kids; k.insert(q.before < 0 ? k.end() : std::find(k.begin(), k.end(), q.before), x); n[x].parent = q.parent; }
	bool html(int x, char const* name) const { return n[x].ns == "html" && n[x].n8 == name; }
	bool html(int x, Set const& s) const { return n[x].ns == "html" && s.count(n[x].n8); }
	int cur() const { return st.back(); }
	bool is(char const* name) const { return html(cur(), name); }
	bool is(Set const& s) const { return html(cur(), s); }
	int on_stack(char const* name) const { for (int i = static_cast<int>(st.size()) - 1; i >= 0; --i) if (html(st[i], name)) return i; return -1; }
	bool stacked(int x) const { return std::find(st.begin(), st.end(), x) != st.end(); }
	Pos place(int target = -1)
	{
		int t = target < 0 ? cur() : target;
		if (foster && html(t, Set{ "table", "tbody", "tfoot", "thead", "tr" }))
		{
			int lt = on_stack("template"), lb = on_stack("table");
			if (lt >= 0 && (lb < 0 || lt > lb)) return { st[lt], -1 };
			if (lb < 0) return { st[0], -1 };
			events.insert("foster parenting");
			if (n[st[lb]].parent >= 0) return { n[st[lb]].parent, st[lb] };
			return { st[lb - 1], -1 };
		}
		return { t, -1 };
	}
	int insert(Token const& t, std::string const& ns = "html") { Pos q = place(); int e = make(ns, t.name, t.attrs); put(q, e); st.push_back(e); return e; }
	int insert(char const* name) { Token t; t.t = Token::Start; t.name = W(name); return insert(t); }
	void insert_char(char32_t c)
	{
		Pos q = place(); if (n[q.parent].t == Node::Document) return;
		auto& k = n[q.parent].kids; auto at = q.before < 0 ? k.end() : std::find(k.begin(), k.end(), q.before);
		if (at != k.begin() && n[*(at - 1)].t == Node::Text) { n[*(at - 1)].data += c; return; }
		n.emplace_back(); n.back().t = Node::Text; n.back().data = U(1, c); put(q, static_cast<int>(n.size()) - 1);
	}
	void comment(Token const& t, int parent = -1) { Pos q = parent < 0 ? place() : Pos{ parent, -1 }; n.emplace_back(); n.back().t = Node::Comment; n.back().data = t.data; put(q, static_cast<int>(n.size()) - 1); }

	// -- stack
	static Set const& special() { static Set s{ "address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br", "button", "caption", "center", "col", "colgroup", "dd", "details", "dir", "div", "dl", "dt", "embed", "fieldset", "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "img", "input", "keygen", "li", "link", "listing", "main", "marquee", "menu", "meta", "nav", "noembed", "noframes", "noscript", "object", "ol", "p", "param", "plaintext", "pre", "script", "section", "select", "source", "style", "summary", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "ul", "wbr", "xmp" }; return s; }
	bool other_special(int x) const { return (n[x].ns == "math" && Set{ "mi", "mo", "mn", "ms", "mtext", "annotation-xml" }.count(n[x].n8)) || (n[x].ns == "svg" && Set{ "foreignObject", "desc", "title" }.count(n[x].n8)); }
	bool is_special(int x) const { return html(x, special()) || other_special(x); }
	bool scope(Set const& names, char kind = 0) const { for (int i = static_cast<int>(st.size()) - 1; i >= 0; --i) { int x = st[i]; if (html(x, names)) return true; if (boundary(x, kind)) return false; } return false; }
	bool scope(char const* name, char kind = 0) const { return scope(Set{ name }, kind); }
	bool scope_node(int y) const { for (int i = static_cast<int>(st.size()) - 1; i >= 0; --i) { if (st[i] == y) return true; if (boundary(st[i], 0)) return false; } return false; }
	bool boundary(int x, char kind) const
	{
		if (kind == 't') return html(x, Set{ "html", "table", "template" });
		if (kind == 's') return !html(x, Set{ "optgroup", "option" });
		if (html(x, Set{ "applet", "caption", "html", "table", "td", "th", "marquee", "object", "template" }) || other_special(x)) return true;
		if (kind == 'l' && html(x, Set{ "ol", "ul" })) return true;
		return kind == 'b' && html(x, "button");
	}
	void pop_until(char const* name) { while (!is(name)) st.pop_back(); st.pop_back(); }
	void pop_until(Set const& s) { while (!is(s)) st.pop_back(); st.pop_back(); }
	void pop_through(int x) { while (cur() != x) st.pop_back(); st.pop_back(); }
	void implied(char const* except = "") { static Set const s{ "dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc" }; while (is(s) && !is(except)) st.pop_back(); }
	void implied_all() { static Set const s{ "caption", "colgroup", "dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc", "tbody", "td", "tfoot", "th", "thead", "tr" }; while (is(s)) st.pop_back(); }
	void close_p() { implied("p"); pop_until("p"); }
	void clear_to(Set const& s) { while (!is(s)) st.pop_back(); }

	// -- active formatting elements
	void push_fmt(int e)
	{
		std::vector<size_t> same;
		for (size_t i = fmt.size(); i-- > 0 && fmt[i] >= 0;)
		{
			Node const& a = n[fmt[i]]; Node const& b = n[e];
			auto sa = a.attrs, sb = b.attrs; auto lt = [](Attr const& x, Attr const& y) { return x.name < y.name; };
			std::sort(sa.begin(), sa.end(), lt); std::sort(sb.begin(), sb.end(), lt);
			if (a.name == b.name && a.ns == b.ns && sa == sb) same.push_back(i);
		}
		if (same.size() >= 3) { events.insert("Noah's Ark"); fmt.erase(fmt.begin() + static_cast<long>(same.back())); }
		fmt.push_back(e);
	}
	void reconstruct()
	{
		if (fmt.empty() || fmt.back() < 0 || stacked(fmt.back())) return;
		size_t i = fmt.size() - 1;
		while (i > 0 && fmt[i - 1] >= 0 && !stacked(fmt[i - 1])) --i;
		for (; i < fmt.size(); ++i) { Token t; t.t = Token::Start; t.name = n[fmt[i]].name; t.attrs = n[fmt[i]].attrs; fmt[i] = insert(t); }
		events.insert("reconstruction");
	}
	void clear_fmt() { while (!fmt.empty()) { int x = fmt.back(); fmt.pop_back(); if (x < 0) break; } }
	int find_fmt(char const* name) const { for (size_t i = fmt.size(); i-- > 0 && fmt[i] >= 0;) if (n[fmt[i]].n8 == name) return fmt[i]; return -1; }
	void del_fmt(int x) { fmt.erase(std::remove(fmt.begin(), fmt.end(), x), fmt.end()); }
	void del_st(int x) { st.erase(std::remove(st.begin(), st.end(), x), st.end()); }
	void adoption(Token const& t)
	{
		auto name = t.n8.c_str();
		if (is(name) && std::find(fmt.begin(), fmt.end(), cur()) == fmt.end()) { st.pop_back(); return; }
		for (int outer = 0; outer < 8; ++outer)
		{
			int fe = find_fmt(name); if (fe < 0) { any_end(t); return; }
			if (!stacked(fe)) { del_fmt(fe); return; }
			if (!scope_node(fe)) return;
			size_t fi = static_cast<size_t>(std::find(st.begin(), st.end(), fe) - st.begin());
			size_t bi = fi + 1; while (bi < st.size() && !is_special(st[bi])) ++bi;
			if (bi == st.size()) { pop_through(fe); del_fmt(fe); return; }
			events.insert("adoption agency with furthest block"); if (outer) events.insert("adoption agency loops");
			int fb = st[bi], ca = st[fi - 1];
			int node = fb, lastn = fb; size_t ni = bi; int bookmark_after = -1;      // -1: at the formatting element
			for (int inner = 1;; ++inner)
			{
				--ni; node = st[ni];
				if (node == fe) break;
				bool inl = std::find(fmt.begin(), fmt.end(), node) != fmt.end();
				if (inner > 3 && inl) { del_fmt(node); inl = false; }
				if (!inl) { st.erase(st.begin() + static_cast<long>(ni)); continue; }
				int e = make("html", n[node].name, n[node].attrs);
				std::replace(fmt.begin(), fmt.end(), node, e); st[ni] = e; node = e;
				if (lastn == fb) bookmark_after = node;
				put({ node, -1 }, lastn); lastn = node;
			}
			detach(lastn); put(place(ca), lastn);
			int e = make("html", n[fe].name, n[fe].attrs);
			auto kids = n[fb].kids; for (int k : kids) put({ e, -1 }, k);
			put({ fb, -1 }, e);
			if (bookmark_after >= 0) { del_fmt(fe); fmt.insert(std::find(fmt.begin(), fmt.end(), bookmark_after) + 1, e); }
			else std::replace(fmt.begin(), fmt.end(), fe, e);
			del_st(fe); st.insert(std::find(st.begin(), st.end(), fb) + 1, e);
		}
	}
	void any_end(Token const& t)
	{
		for (size_t i = st.size(); i-- > 0;)
		{
			int x = st[i];
			if (n[x].ns == "html" && n[x].name == t.name) { implied_name(t.name); while (cur() != x) st.pop_back(); st.pop_back(); return; }
			if (is_special(x)) return;
		}
	}
	void implied_name(U const& except) { std::string e; for (char32_t c : except) e += c < 0x80 ? static_cast<char>(c) : '?'; implied(e.c_str()); }

	void reset_mode()
	{
		for (size_t i = st.size(); i-- > 0;)
		{
			int x = st[i]; bool last = i == 0;
			if (html(x, "select"))
			{
				for (size_t j = i; j-- > 1;) { if (html(st[j], "template")) break; if (html(st[j], "table")) { m = InSelectInTable; return; } }
				m = InSelect; return;
			}
			if (html(x, Set{ "td", "th" }) && !last) { m = InCell; return; }
			if (html(x, "tr")) { m = InRow; return; }
			if (html(x, Set{ "tbody", "thead", "tfoot" })) { m = InTableBody; return; }
			if (html(x, "caption")) { m = InCaption; return; }
			if (html(x, "colgroup")) { m = InColgroup; return; }
			if (html(x, "table")) { m = InTable; return; }
			if (html(x, "template")) { m = tmodes.back(); return; }
			if (html(x, "head") && !last) { m = InHead; return; }
			if (html(x, "body")) { m = InBody; return; }
			if (html(x, "frameset")) { m = InFrameset; return; }
			if (html(x, "html")) { m = head < 0 ? BeforeHead : AfterHead; return; }
		}
	}
	void text_element(Token const& t, Tk::S s) { insert(t); tk.s = s; orig = m; m = TextM; }

	// -- foreign content
	std::vector<Token> metas;   // the meta start tags processed by the "in head" rules, in order
	bool swapped = false;      // true: CDATA sections are recognised in HTML content and not in foreign content
	bool cdata() const { return swapped ? !st.empty() && n[cur()].ns == "html" : foreign(); }
	bool foreign() const { return !st.empty() && n[cur()].ns != "html"; }
	bool math_tip(int x) const { return n[x].ns == "math" && Set{ "mi", "mo", "mn", "ms", "mtext" }.count(n[x].n8); }
	bool html_ip(int x) const
	{
		if (n[x].ns == "svg") return Set{ "foreignObject", "desc", "title" }.count(n[x].n8);
		if (n[x].ns == "math" && n[x].n8 == "annotation-xml") for (auto const& a : n[x].attrs) if (a.name == U"encoding") { U v = lower(a.value); return v == U"text/html" || v == U"application/xhtml+xml"; }
		return false;
	}
	void adjust_foreign(Token& t) const
	{
		static std::map<U, Attr> const tbl = [] { std::map<U, Attr> r; for (char const* k : { "actuate", "arcrole", "href", "role", "show", "title", "type" }) r[U"xlink:" + W(k)] = { "xlink", U"xlink", W(k), {} }; for (char const* k : { "lang", "space" }) r[U"xml:" + W(k)] = { "xml", U"xml", W(k), {} }; r[U"xmlns"] = { "xmlns", U"", U"xmlns", {} }; r[U"xmlns:xlink"] = { "xmlns", U"xmlns", U"xlink", {} }; return r; }();
		for (auto& a : t.attrs) { auto f = tbl.find(a.name); if (f != tbl.end()) { U v = a.value; a = f->second; a.value = v; } }
	}
	void adjust_svg(Token& t) const
	{
		static std::map<U, U> const tbl = [] { std::map<U, U> r; for (char const* k : { "attributeName", "attributeType", "baseFrequency", "baseProfile", "calcMode", "clipPathUnits", "diffuseConstant", "edgeMode", "filterUnits", "glyphRef", "gradientTransform", "gradientUnits", "kernelMatrix", "kernelUnitLength", "keyPoints", "keySplines", "keyTimes", "lengthAdjust", "limitingConeAngle", "markerHeight", "markerUnits", "markerWidth", "maskContentUnits", "maskUnits", "numOctaves", "pathLength", "patternContentUnits", "patternTransform", "patternUnits", "pointsAtX", "pointsAtY", "pointsAtZ", "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "refX", "refY", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "specularConstant", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "stitchTiles", "surfaceScale", "systemLanguage", "tableValues", "targetX", "targetY", "textLength", "viewBox", "viewTarget", "xChannelSelector", "yChannelSelector", "zoomAndPan" }) r[lower(W(k))] = W(k); return r; }();
		for (auto& a : t.attrs) { auto f = tbl.find(a.name); if (f != tbl.end()) a.name = f->second; }
	}
	void adjust_math(Token& t) const { for (auto& a : t.attrs) if (a.name == U"definitionurl") a.name = U"definitionURL"; }
	static std::map<U, U> const& svg_names() { static std::map<U, U> const tbl = [] { std::map<U, U> r; for (char const* k : { "altGlyph", "altGlyphDef", "altGlyphItem", "animateColor", "animateMotion", "animateTransform", "clipPath", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "foreignObject", "glyphRef", "linearGradient", "radialGradient", "textPath" }) r[lower(W(k))] = W(k); return r; }(); return tbl; }

	void token(Token& t)
	{
		if (stopped) return;
		if (skip_lf) { skip_lf = false; if (t.t == Token::Char && t.c == '\n') return; }
		if (st.empty() || n[cur()].ns == "html"
			|| (math_tip(cur()) && ((t.t == Token::Start && t.n8 != "mglyph" && t.n8 != "malignmark") || t.t == Token::Char))
			|| (n[cur()].ns == "math" && n[cur()].n8 == "annotation-xml" && t.t == Token::Start && t.n8 == "svg")
			|| (html_ip(cur()) && (t.t == Token::Start || t.t == Token::Char))
			|| t.t == Token::Eof) use(m, t);
		else in_foreign(t);
	}
	void in_foreign(Token& t)
	{
		events.insert("foreign content");
		if (t.t == Token::Char) { if (t.c == 0) insert_char(0xFFFD); else { if (!ws(t.c)) frameset_ok = false; insert_char(t.c); } return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		static Set const out{ "b", "big", "blockquote", "body", "br", "center", "code", "dd", "div", "dl", "dt", "em", "embed", "h1", "h2", "h3", "h4", "h5", "h6", "head", "hr", "i", "img", "li", "listing", "menu", "meta", "nobr", "ol", "p", "pre", "ruby", "s", "small", "span", "strong", "strike", "sub", "sup", "table", "tt", "u", "ul", "var" };
		if (t.t == Token::Start && (out.count(t.n8) || (t.n8 == "font" && (t.attr("color") || t.attr("face") || t.attr("size")))))
		{
			st.pop_back();
			while (!(math_tip(cur()) || html_ip(cur()) || n[cur()].ns == "html")) st.pop_back();
			events.insert("leaving foreign content"); token(t); return;
		}
		if (t.t == Token::Start)
		{
			std::string ns = n[cur()].ns;
			if (ns == "math") adjust_math(t);
			if (ns == "svg") { auto f = svg_names().find(t.name); if (f != svg_names().end()) t.name = f->second; adjust_svg(t); }
			adjust_foreign(t); insert(t, ns); if (t.self) st.pop_back();
			return;
		}
		if (t.n8 == "script" && n[cur()].ns == "svg" && n[cur()].n8 == "script") { st.pop_back(); return; }
		size_t i = st.size() - 1;
		for (;;)
		{
			if (i == 0) return;
			if (lower(n[st[i]].name) == t.name) { pop_through(st[i]); return; }
			--i;
			if (n[st[i]].ns == "html") { use(m, t); return; }
		}
	}

	bool start(Token const& t, char const* k) const { return t.t == Token::Start && t.n8 == k; }
	bool start(Token const& t, Set const& k) const { return t.t == Token::Start && k.count(t.n8); }
	bool end(Token const& t, char const* k) const { return t.t == Token::End && t.n8 == k; }
	bool end(Token const& t, Set const& k) const { return t.t == Token::End && k.count(t.n8); }
	bool wsc(Token const& t) const { return t.t == Token::Char && ws(t.c); }

	void use(M mm, Token& t)
	{
		used.insert(mm);
		switch (mm)
		{
		case Initial: initial(t); break; case BeforeHtml: before_html(t); break; case BeforeHead: before_head(t); break; case InHead: in_head(t); break; case InHeadNoscript: in_head_noscript(t); break;
		case AfterHead: after_head(t); break; case InBody: in_body(t); break; case TextM: text(t); break; case InTable: in_table(t); break; case InTableText: in_table_text(t); break; case InCaption: in_caption(t); break;
		case InColgroup: in_colgroup(t); break; case InTableBody: in_table_body(t); break; case InRow: in_row(t); break; case InCell: in_cell(t); break; case InSelect: in_select(t); break; case InSelectInTable: in_select_in_table(t); break;
		case InTemplate: in_template(t); break; case AfterBody: after_body(t); break; case InFrameset: in_frameset(t); break; case AfterFrameset: after_frameset(t); break; case AfterAfterBody: after_after_body(t); break; default: after_after_frameset(t); break;
		}
	}
	void stop() { stopped = true; st.clear(); }

	void initial(Token& t)
	{
		if (wsc(t)) return;
		if (t.t == Token::Comment) { comment(t, 0); return; }
		if (t.t == Token::Doctype)
		{
			n.emplace_back(); Node& d = n.back(); d.t = Node::Doctype; d.name = t.name; d.pub = t.pub; d.sys = t.sys; put({ 0, -1 }, static_cast<int>(n.size()) - 1);
			U p = lower(t.pub), s = lower(t.sys);
			auto pre = [&](char const* x) { U w = lower(W(x)); return t.has_pub && p.compare(0, w.size(), w) == 0; };
			static char const* const q[] = { "+//Silmaril//dtd html Pro v0r11 19970101//", "-//AS//DTD HTML 3.0 asWedit + extensions//", "-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//", "-//IETF//DTD HTML 2.0 Level 1//", "-//IETF//DTD HTML 2.0 Level 2//", "-//IETF//DTD HTML 2.0 Strict Level 1//", "-//IETF//DTD HTML 2.0 Strict Level 2//", "-//IETF//DTD HTML 2.0 Strict//", "-//IETF//DTD HTML 2.0//", "-//IETF//DTD HTML 2.1E//", "-//IETF//DTD HTML 3.0//", "-//IETF//DTD HTML 3.2 Final//", "-//IETF//DTD HTML 3.2//", "-//IETF//DTD HTML 3//", "-//IETF//DTD HTML Level 0//", "-//IETF//DTD HTML Level 1//", "-//IETF//DTD HTML Level 2//", "-//IETF//DTD HTML Level 3//", "-//IETF//DTD HTML Strict Level 0//", "-//IETF//DTD HTML Strict Level 1//", "-//IETF//DTD HTML Strict Level 2//", "-//IETF//DTD HTML Strict Level 3//", "-//IETF//DTD HTML Strict//", "-//IETF//DTD HTML//", "-//Metrius//DTD Metrius Presentational//", "-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 2.0 HTML//", "-//Microsoft//DTD Internet Explorer 2.0 Tables//", "-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 3.0 HTML//", "-//Microsoft//DTD Internet Explorer 3.0 Tables//", "-//Netscape Comm. Corp.//DTD HTML//", "-//Netscape Comm. Corp.//DTD Strict HTML//", "-//O'Reilly and Associates//DTD HTML 2.0//", "-//O'Reilly and Associates//DTD HTML Extended 1.0//", "-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//", "-//SQ//DTD HTML 2.0 HoTMetaL + extensions//", "-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//", "-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//", "-//Spyglass//DTD HTML 2.0 Extended//", "-//Sun Microsystems Corp.//DTD HotJava HTML//", "-//Sun Microsystems Corp.//DTD HotJava Strict HTML//", "-//W3C//DTD HTML 3 1995-03-24//", "-//W3C//DTD HTML 3.2 Draft//", "-//W3C//DTD HTML 3.2 Final//", "-//W3C//DTD HTML 3.2//", "-//W3C//DTD HTML 3.2S Draft//", "-//W3C//DTD HTML 4.0 Frameset//", "-//W3C//DTD HTML 4.0 Transitional//", "-//W3C//DTD HTML Experimental 19960712//", "-//W3C//DTD HTML Experimental 970421//", "-//W3C//DTD W3 HTML//", "-//W3O//DTD W3 HTML 3.0//", "-//WebTechs//DTD Mozilla HTML 2.0//", "-//WebTechs//DTD Mozilla HTML//" };
			bool f = false; for (auto x : q) f = f || pre(x);
			bool h401 = pre("-//W3C//DTD HTML 4.01 Frameset//") || pre("-//W3C//DTD HTML 4.01 Transitional//");
			if (t.quirks || t.name != U"html" || f || (t.has_pub && (p == lower(U"-//W3O//DTD W3 HTML Strict 3.0//EN//") || p == lower(U"-/W3C/DTD HTML 4.0 Transitional/EN") || p == U"html"))
				|| (t.has_sys && s == U"http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd") || (!t.has_sys && h401)) mode = "quirks";
			else if (pre("-//W3C//DTD XHTML 1.0 Frameset//") || pre("-//W3C//DTD XHTML 1.0 Transitional//") || (t.has_sys && h401)) mode = "limited-quirks";
			m = BeforeHtml; return;
		}
		mode = "quirks"; m = BeforeHtml; use(m, t);
	}
	void before_html(Token& t)
	{
		if (t.t == Token::Doctype || wsc(t)) return;
		if (t.t == Token::Comment) { comment(t, 0); return; }
		if (start(t, "html")) { int e = make("html", t.name, t.attrs); put({ 0, -1 }, e); st.push_back(e); m = BeforeHead; return; }
		if (t.t == Token::End && !end(t, Set{ "head", "body", "html", "br" })) return;
		int e = make("html", U"html", {}); put({ 0, -1 }, e); st.push_back(e); m = BeforeHead; use(m, t);
	}
	void before_head(Token& t)
	{
		if (wsc(t) || t.t == Token::Doctype) return;
		if (t.t == Token::Comment) { comment(t); return; }
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, "head")) { head = insert(t); m = InHead; return; }
		if (t.t == Token::End && !end(t, Set{ "head", "body", "html", "br" })) return;
		head = insert("head"); m = InHead; use(m, t);
	}
	void in_head(Token& t)
	{
		if (wsc(t)) { insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, Set{ "base", "basefont", "bgsound", "link", "meta" })) { insert(t); st.pop_back(); if (t.n8 == "meta") metas.push_back(t); return; }
		if (start(t, "title")) { text_element(t, Tk::Rcdata); return; }
		if (start(t, Set{ "noframes", "style" })) { text_element(t, Tk::Rawtext); return; }
		if (start(t, "noscript")) { insert(t); m = InHeadNoscript; return; }
		if (start(t, "script")) { text_element(t, Tk::Script); return; }
		if (end(t, "head")) { st.pop_back(); m = AfterHead; return; }
		if (start(t, "template")) { insert(t); fmt.push_back(-1); frameset_ok = false; m = InTemplate; tmodes.push_back(InTemplate); events.insert("template"); return; }
		if (end(t, "template"))
		{
			if (on_stack("template") < 0) return;
			implied_all(); pop_until("template"); clear_fmt(); tmodes.pop_back(); reset_mode(); return;
		}
		if (start(t, "head") || (t.t == Token::End && !end(t, Set{ "body", "html", "br" }))) return;
		st.pop_back(); m = AfterHead; use(m, t);
	}
	void in_head_noscript(Token& t)
	{
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (end(t, "noscript")) { st.pop_back(); m = InHead; return; }
		if (wsc(t) || t.t == Token::Comment || start(t, Set{ "basefont", "bgsound", "link", "meta", "noframes", "style" })) { in_head(t); return; }
		if (start(t, Set{ "head", "noscript" }) || (t.t == Token::End && t.n8 != "br")) return;
		st.pop_back(); m = InHead; use(m, t);
	}
	void after_head(Token& t)
	{
		if (wsc(t)) { insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, "body")) { insert(t); frameset_ok = false; m = InBody; return; }
		if (start(t, "frameset")) { insert(t); m = InFrameset; return; }
		if (start(t, Set{ "base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title" })) { st.push_back(head); in_head(t); st.erase(std::find(st.begin(), st.end(), head)); return; }
		if (end(t, "template")) { in_head(t); return; }
		if (start(t, "head") || (t.t == Token::End && !end(t, Set{ "body", "html", "br" }))) return;
		insert("body"); m = InBody; use(m, t);
	}
	void in_body(Token& t)
	{
		if (t.t == Token::Char)
		{
			if (t.c == 0) return;
			reconstruct(); insert_char(t.c); if (!ws(t.c)) frameset_ok = false; return;
		}
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (t.t == Token::Eof) { if (!tmodes.empty()) in_template(t); else stop(); return; }
		if (t.t == Token::Start) body_start(t); else body_end(t);
	}
	void merge(int x, Token const& t) { for (auto const& a : t.attrs) { bool f = false; for (auto const& b : n[x].attrs) f = f || b.name == a.name; if (!f) n[x].attrs.push_back(a); } }
	void body_start(Token& t)
	{
		std::string const k = t.n8;
		if (k == "html") { if (on_stack("template") < 0) merge(st[0], t); return; }
		if (Set{ "base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title" }.count(k)) { in_head(t); return; }
		if (k == "body") { if (st.size() < 2 || !html(st[1], "body") || on_stack("template") >= 0) return; frameset_ok = false; merge(st[1], t); return; }
		if (k == "frameset")
		{
			if (st.size() < 2 || !html(st[1], "body") || !frameset_ok) return;
			detach(st[1]); st.resize(1); insert(t); m = InFrameset; events.insert("frameset replaces body"); return;
		}
		if (Set{ "address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "main", "menu", "nav", "ol", "p", "section", "summary", "ul" }.count(k)) { if (scope("p", 'b')) close_p(); insert(t); return; }
		static Set const hs{ "h1", "h2", "h3", "h4", "h5", "h6" };
		if (hs.count(k)) { if (scope("p", 'b')) close_p(); if (is(hs)) st.pop_back(); insert(t); return; }
		if (k == "pre" || k == "listing") { if (scope("p", 'b')) close_p(); insert(t); skip_lf = true; frameset_ok = false; return; }
		if (k == "form")
		{
			bool tp = on_stack("template") >= 0; if (form >= 0 && !tp) return;
			if (scope("p", 'b')) close_p();
			int e = insert(t); if (!tp) form = e;
			return;
		}
		if (k == "li" || k == "dd" || k == "dt")
		{
			frameset_ok = false; Set const which = k == "li" ? Set{ "li" } : Set{ "dd", "dt" };
			for (size_t i = st.size(); i-- > 0;)
			{
				int x = st[i];
				if (html(x, which)) { std::string nm = n[x].n8; implied(nm.c_str()); pop_until(nm.c_str()); break; }
				if (is_special(x) && !html(x, Set{ "address", "div", "p" })) break;
			}
			if (scope("p", 'b')) close_p();
			insert(t); return;
		}
		if (k == "plaintext") { if (scope("p", 'b')) close_p(); insert(t); tk.s = Tk::Plaintext; return; }
		if (k == "button") { if (scope("button")) { implied(); pop_until("button"); } reconstruct(); insert(t); frameset_ok = false; return; }
		if (k == "a")
		{
			int a = find_fmt("a");
			if (a >= 0) { Token x; x.t = Token::End; x.name = U"a"; x.n8 = "a"; adoption(x); del_fmt(a); del_st(a); }
			reconstruct(); push_fmt(insert(t)); return;
		}
		if (Set{ "b", "big", "code", "em", "font", "i", "s", "small", "strike", "strong", "tt", "u" }.count(k)) { reconstruct(); push_fmt(insert(t)); return; }
		if (k == "nobr") { reconstruct(); if (scope("nobr")) { Token x; x.t = Token::End; x.name = U"nobr"; x.n8 = "nobr"; adoption(x); reconstruct(); } push_fmt(insert(t)); return; }
		if (Set{ "applet", "marquee", "object" }.count(k)) { reconstruct(); insert(t); fmt.push_back(-1); frameset_ok = false; return; }
		if (k == "table") { if (mode != "quirks" && scope("p", 'b')) close_p(); insert(t); frameset_ok = false; m = InTable; return; }
		if (Set{ "area", "br", "embed", "img", "keygen", "wbr" }.count(k)) { reconstruct(); insert(t); st.pop_back(); frameset_ok = false; return; }
		if (k == "input") { reconstruct(); insert(t); st.pop_back(); U const* a = t.attr("type"); if (!a || lower(*a) != U"hidden") frameset_ok = false; return; }
		if (Set{ "param", "source", "track" }.count(k)) { insert(t); st.pop_back(); return; }
		if (k == "hr") { if (scope("p", 'b')) close_p(); insert(t); st.pop_back(); frameset_ok = false; return; }
		if (k == "image") { t.name = U"img"; t.n8 = "img"; token(t); return; }
		if (k == "textarea") { insert(t); skip_lf = true; tk.s = Tk::Rcdata; orig = m; frameset_ok = false; m = TextM; return; }
		if (k == "xmp") { if (scope("p", 'b')) close_p(); reconstruct(); frameset_ok = false; text_element(t, Tk::Rawtext); return; }
		if (k == "iframe") { frameset_ok = false; text_element(t, Tk::Rawtext); return; }
		if (k == "noembed") { text_element(t, Tk::Rawtext); return; }
		if (k == "select")
		{
			reconstruct(); insert(t); frameset_ok = false;
			m = m == InTable || m == InCaption || m == InTableBody || m == InRow || m == InCell ? InSelectInTable : InSelect; return;
		}
		if (k == "optgroup" || k == "option") { if (is("option")) st.pop_back(); reconstruct(); insert(t); return; }
		if (k == "rb" || k == "rtc") { if (scope("ruby")) implied(); insert(t); return; }
		if (k == "rp" || k == "rt") { if (scope("ruby")) implied("rtc"); insert(t); return; }
		if (k == "math") { reconstruct(); adjust_math(t); adjust_foreign(t); insert(t, "math"); if (t.self) st.pop_back(); return; }
		if (k == "svg") { reconstruct(); adjust_svg(t); adjust_foreign(t); insert(t, "svg"); if (t.self) st.pop_back(); return; }
		if (Set{ "caption", "col", "colgroup", "frame", "head", "tbody", "td", "tfoot", "th", "thead", "tr" }.count(k)) return;
		reconstruct(); insert(t);
	}
	void body_end(Token& t)
	{
		std::string const k = t.n8;
		if (k == "template") { in_head(t); return; }
		if (k == "body") { if (scope("body")) m = AfterBody; return; }
		if (k == "html") { if (!scope("body")) return; m = AfterBody; use(m, t); return; }
		if (Set{ "address", "article", "aside", "blockquote", "button", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "listing", "main", "menu", "nav", "ol", "pre", "section", "summary", "ul" }.count(k)) { if (!scope(k.c_str())) return; implied(); pop_until(k.c_str()); return; }
		if (k == "form")
		{
			if (on_stack("template") < 0)
			{
				int x = form; form = -1; if (x < 0 || !scope_node(x)) return;
				implied(); del_st(x); return;
			}
			if (!scope("form")) return;
			implied(); pop_until("form"); return;
		}
		if (k == "p") { if (!scope("p", 'b')) insert("p"); close_p(); return; }
		if (k == "li") { if (!scope("li", 'l')) return; implied("li"); pop_until("li"); return; }
		if (k == "dd" || k == "dt") { if (!scope(k.c_str())) return; implied(k.c_str()); pop_until(k.c_str()); return; }
		static Set const hs{ "h1", "h2", "h3", "h4", "h5", "h6" };
		if (hs.count(k)) { if (!scope(hs)) return; implied(); pop_until(hs); return; }
		if (Set{ "a", "b", "big", "code", "em", "font", "i", "nobr", "s", "small", "strike", "strong", "tt", "u" }.count(k)) { adoption(t); return; }
		if (Set{ "applet", "marquee", "object" }.count(k)) { if (!scope(k.c_str())) return; implied(); pop_until(k.c_str()); clear_fmt(); return; }
		if (k == "br") { t.attrs.clear(); t.t = Token::Start; if (n[cur()].ns != "html") token(t); else body_start(t); return; }
		any_end(t);
	}
	void text(Token& t)
	{
		if (t.t == Token::Char) { insert_char(t.c); return; }
		if (t.t == Token::Eof) { st.pop_back(); m = orig; use(m, t); return; }
		st.pop_back(); m = orig;
	}
	void in_table(Token& t)
	{
		if (t.t == Token::Char && is(Set{ "table", "tbody", "tfoot", "thead", "tr" })) { pend.clear(); orig = m; m = InTableText; use(m, t); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		static Set const ctx{ "table", "template", "html" };
		if (start(t, "caption")) { clear_to(ctx); fmt.push_back(-1); insert(t); m = InCaption; return; }
		if (start(t, "colgroup")) { clear_to(ctx); insert(t); m = InColgroup; return; }
		if (start(t, "col")) { clear_to(ctx); insert("colgroup"); m = InColgroup; use(m, t); return; }
		if (start(t, Set{ "tbody", "tfoot", "thead" })) { clear_to(ctx); insert(t); m = InTableBody; return; }
		if (start(t, Set{ "td", "th", "tr" })) { clear_to(ctx); insert("tbody"); m = InTableBody; use(m, t); return; }
		if (start(t, "table")) { if (!scope("table", 't')) return; pop_until("table"); reset_mode(); token(t); return; }
		if (end(t, "table")) { if (!scope("table", 't')) return; pop_until("table"); reset_mode(); return; }
		if (end(t, Set{ "body", "caption", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr" })) return;
		if (start(t, Set{ "style", "script", "template" }) || end(t, "template")) { in_head(t); return; }
		if (start(t, "input")) { U const* a = t.attr("type"); if (a && lower(*a) == U"hidden") { insert(t); st.pop_back(); return; } }
		if (start(t, "form")) { if (on_stack("template") >= 0 || form >= 0) return; form = insert(t); st.pop_back(); return; }
		if (t.t == Token::Eof) { in_body(t); return; }
		foster = true; in_body(t); foster = false;
	}
	void in_table_text(Token& t)
	{
		if (t.t == Token::Char) { if (t.c) pend.push_back(t.c); return; }
		bool any = false; for (char32_t c : pend) any = any || !ws(c);
		auto list = pend; pend.clear();
		for (char32_t c : list) { if (any) { Token x; x.t = Token::Char; x.c = c; foster = true; in_body(x); foster = false; } else insert_char(c); }
		m = orig; token(t);
	}
	bool close_caption() { if (!scope("caption", 't')) return false; implied(); pop_until("caption"); clear_fmt(); m = InTable; return true; }
	void in_caption(Token& t)
	{
		if (end(t, "caption")) { close_caption(); return; }
		if (start(t, Set{ "caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr" }) || end(t, "table")) { if (close_caption()) token(t); return; }
		if (end(t, Set{ "body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr" })) return;
		in_body(t);
	}
	void in_colgroup(Token& t)
	{
		if (wsc(t)) { insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, "col")) { insert(t); st.pop_back(); return; }
		if (end(t, "colgroup")) { if (!is("colgroup")) return; st.pop_back(); m = InTable; return; }
		if (end(t, "col")) return;
		if (start(t, "template") || end(t, "template")) { in_head(t); return; }
		if (t.t == Token::Eof) { in_body(t); return; }
		if (!is("colgroup")) return;
		st.pop_back(); m = InTable; token(t);
	}
	void in_table_body(Token& t)
	{
		static Set const ctx{ "tbody", "tfoot", "thead", "template", "html" }, tb{ "tbody", "tfoot", "thead" };
		if (start(t, "tr")) { clear_to(ctx); insert(t); m = InRow; return; }
		if (start(t, Set{ "th", "td" })) { clear_to(ctx); insert("tr"); m = InRow; token(t); return; }
		if (end(t, tb)) { if (!scope(t.n8.c_str(), 't')) return; clear_to(ctx); st.pop_back(); m = InTable; return; }
		if (start(t, Set{ "caption", "col", "colgroup", "tbody", "tfoot", "thead" }) || end(t, "table")) { if (!scope(tb, 't')) return; clear_to(ctx); st.pop_back(); m = InTable; token(t); return; }
		if (end(t, Set{ "body", "caption", "col", "colgroup", "html", "td", "th", "tr" })) return;
		in_table(t);
	}
	bool close_row() { if (!scope("tr", 't')) return false; clear_to(Set{ "tr", "template", "html" }); st.pop_back(); m = InTableBody; return true; }
	void in_row(Token& t)
	{
		if (start(t, Set{ "th", "td" })) { clear_to(Set{ "tr", "template", "html" }); insert(t); m = InCell; fmt.push_back(-1); return; }
		if (end(t, "tr")) { close_row(); return; }
		if (start(t, Set{ "caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr" }) || end(t, "table")) { if (close_row()) token(t); return; }
		if (end(t, Set{ "tbody", "tfoot", "thead" })) { if (!scope(t.n8.c_str(), 't')) return; if (close_row()) token(t); return; }
		if (end(t, Set{ "body", "caption", "col", "colgroup", "html", "td", "th" })) return;
		in_table(t);
	}
	void close_cell() { implied(); pop_until(Set{ "td", "th" }); clear_fmt(); m = InRow; }
	void in_cell(Token& t)
	{
		if (end(t, Set{ "td", "th" })) { if (!scope(t.n8.c_str(), 't')) return; implied(); pop_until(t.n8.c_str()); clear_fmt(); m = InRow; return; }
		if (start(t, Set{ "caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr" })) { if (!scope(Set{ "td", "th" }, 't')) return; close_cell(); token(t); return; }
		if (end(t, Set{ "body", "caption", "col", "colgroup", "html" })) return;
		if (end(t, Set{ "table", "tbody", "tfoot", "thead", "tr" })) { if (!scope(t.n8.c_str(), 't')) return; close_cell(); token(t); return; }
		in_body(t);
	}
	void in_select(Token& t)
	{
		if (t.t == Token::Char) { if (t.c) insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, "option")) { if (is("option")) st.pop_back(); insert(t); return; }
		if (start(t, "optgroup")) { if (is("option")) st.pop_back(); if (is("optgroup")) st.pop_back(); insert(t); return; }
		if (end(t, "optgroup")) { if (is("option") && st.size() > 1 && html(st[st.size() - 2], "optgroup")) st.pop_back(); if (is("optgroup")) st.pop_back(); return; }
		if (end(t, "option")) { if (is("option")) st.pop_back(); return; }
		if (end(t, "select") || start(t, "select")) { if (!scope("select", 's')) return; pop_until("select"); reset_mode(); return; }
		if (start(t, Set{ "input", "keygen", "textarea" })) { if (!scope("select", 's')) return; pop_until("select"); reset_mode(); token(t); return; }
		if (start(t, Set{ "script", "template" }) || end(t, "template")) { in_head(t); return; }
		if (t.t == Token::Eof) in_body(t);
	}
	void in_select_in_table(Token& t)
	{
		static Set const s{ "caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th" };
		if (start(t, s)) { pop_until("select"); reset_mode(); token(t); return; }
		if (end(t, s)) { if (!scope(t.n8.c_str(), 't')) return; pop_until("select"); reset_mode(); token(t); return; }
		in_select(t);
	}
	void in_template(Token& t)
	{
		if (t.t == Token::Char || t.t == Token::Comment || t.t == Token::Doctype) { in_body(t); return; }
		if (start(t, Set{ "base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title" }) || end(t, "template")) { in_head(t); return; }
		auto go = [&](M x) { tmodes.pop_back(); tmodes.push_back(x); m = x; token(t); };
		if (start(t, Set{ "caption", "colgroup", "tbody", "tfoot", "thead" })) { go(InTable); return; }
		if (start(t, "col")) { go(InColgroup); return; }
		if (start(t, "tr")) { go(InTableBody); return; }
		if (start(t, Set{ "td", "th" })) { go(InRow); return; }
		if (t.t == Token::Start) { go(InBody); return; }
		if (t.t == Token::End) return;
		if (on_stack("template") < 0) { stop(); return; }
		pop_until("template"); clear_fmt(); tmodes.pop_back(); reset_mode(); token(t);
	}
	void after_body(Token& t)
	{
		if (wsc(t)) { in_body(t); return; }
		if (t.t == Token::Comment) { comment(t, st[0]); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (end(t, "html")) { m = AfterAfterBody; return; }
		if (t.t == Token::Eof) { stop(); return; }
		m = InBody; token(t);
	}
	void in_frameset(Token& t)
	{
		if (wsc(t)) { insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (start(t, "frameset")) { insert(t); return; }
		if (end(t, "frameset")) { if (st.size() == 1) return; st.pop_back(); if (!is("frameset")) m = AfterFrameset; return; }
		if (start(t, "frame")) { insert(t); st.pop_back(); return; }
		if (start(t, "noframes")) { in_head(t); return; }
		if (t.t == Token::Eof) stop();
	}
	void after_frameset(Token& t)
	{
		if (wsc(t)) { insert_char(t.c); return; }
		if (t.t == Token::Comment) { comment(t); return; }
		if (t.t == Token::Doctype) return;
		if (start(t, "html")) { in_body(t); return; }
		if (end(t, "html")) { m = AfterAfterFrameset; return; }
		if (start(t, "noframes")) { in_head(t); return; }
		if (t.t == Token::Eof) stop();
	}
	void after_after_body(Token& t)
	{
		if (t.t == Token::Comment) { comment(t, 0); return; }
		if (t.t == Token::Doctype || wsc(t) || start(t, "html")) { in_body(t); return; }
		if (t.t == Token::Eof) { stop(); return; }
		m = InBody; token(t);
	}
	void after_after_frameset(Token& t)
	{
		if (t.t == Token::Comment) { comment(t, 0); return; }
		if (t.t == Token::Doctype || wsc(t) || start(t, "html")) { in_body(t); return; }
		if (t.t == Token::Eof) { stop(); return; }
		if (start(t, "noframes")) in_head(t);
	}
};

// ---- a tree as text, one line per node ---------------------------------------------------------------------
inline void dump(std::vector<Node> const& n, int x, int depth, std::string& out)
{
	std::string pad(static_cast<size_t>(depth) * 2, ' '); Node const& e = n[x];
	switch (e.t)
	{
	case Node::Document: break;
	case Node::Doctype: out += pad + "<!DOCTYPE " + A(e.name) + ">\n"; break;
	case Node::Text: out += pad + "\"" + A(e.data) + "\"\n"; break;
	case Node::Comment: out += pad + "<!--" + A(e.data) + "-->\n"; break;
	case Node::Instruction: out += pad + "<?" + A(e.name) + " " + A(e.data) + ">\n"; break;
	default:
		out += pad + "<" + (e.ns == "html" ? "" : e.ns + " ") + (e.prefix.empty() ? "" : A(e.prefix) + ":") + A(e.name);
		for (auto const& a : e.attrs) out += " " + (a.ns.empty() ? "" : "{" + a.ns + "}") + (a.prefix.empty() ? "" : A(a.prefix) + ":") + A(a.name) + "=\"" + A(a.value) + "\"";
		out += ">\n";
	}
	for (int k : e.kids) dump(n, k, depth + (e.t == Node::Document ? 0 : 1), out);
}

inline std::string Parser::text() const { std::string r; dump(n, 0, 0, r); return r; }

// ---- serialization -------------------------------------------------------------------------------------------
inline U escape(U const& s, bool attr)
{
	U r;
	for (char32_t c : s)
	{
		if (c == U'&') r += U"&amp;"; else if (c == 0xA0) r += U"&nbsp;"; else if (attr && c == U'"') r += U"&quot;";
		else if (!attr && c == U'<') r += U"&lt;"; else if (!attr && c == U'>') r += U"&gt;"; else r += c;
	}
	return r;
}
inline bool is_void(Node const& e) { return e.ns == "html" && Set{ "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen" }.count(e.n8); }
inline U serialize(std::vector<Node> const& n, int x)
{
	U r; Node const& p = n[x];
	if (p.t == Node::Element && is_void(p)) return r;
	for (int k : p.kids)
	{
		Node const& e = n[k];
		switch (e.t)
		{
		case Node::Doctype: r += U"<!DOCTYPE " + e.name + U">"; break;
		case Node::Comment: r += U"<!--" + e.data + U"-->"; break;
		case Node::Instruction: r += U"<?" + e.name + U" " + e.data + U">"; break;
		case Node::Text: r += p.ns == "html" && Set{ "style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext" }.count(p.n8) ? e.data : escape(e.data, false); break;
		case Node::Element:
		{
			U name = (e.ns == "html" || e.ns == "svg" || e.ns == "math" || e.prefix.empty() ? U() : e.prefix + U":") + e.name; r += U"<" + name;
			for (auto const& a : e.attrs)
			{
				U p; if (a.ns == "xml") p = U"xml:"; else if (a.ns == "xlink") p = U"xlink:"; else if (a.ns == "xmlns") { if (a.name != U"xmlns") p = U"xmlns:"; } else if (!a.ns.empty() && !a.prefix.empty()) p = a.prefix + U":";
				r += U" " + p + a.name + U"=\"" + escape(a.value, true) + U"\"";
			}
			r += U">"; if (is_void(e)) break;
			r += serialize(n, k) + U"</" + name + U">"; break;
		}
		default: break;
		}
	}
	return r;
}
}

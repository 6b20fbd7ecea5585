// Reference implementation of the URL Standard (the late-2020 edition the library implements), written from the
// text of the standard: host parsing and serialising, percent coding, the basic URL parser with state overrides,
// the serialiser and the URL API setters.  IDNA for labels that are not plain ASCII is delegated to ICU.
#pragma once
#include "enc_ref.hpp"
#include <unicode/idna.h>
#include <optional>
#include <memory>

namespace uref
{
	using Str = std::u32string;
	using encref::E; using encref::NO;

	// ---- percent coding --------------------------------------------------------------------------
	inline bool c0(uint32_t c) { return c < 0x20 || c > 0x7E; }
	inline bool has(char const* s, uint32_t c) { for (; *s; ++s) if (static_cast<unsigned char>(*s) == c) return true; return false; }
	inline bool fragment_set(uint32_t c) { return c0(c) || has(" \"<>`", c); }
	inline bool query_set(uint32_t c) { return c0(c) || has(" \"#<>", c); }
	inline bool squery_set(uint32_t c) { return query_set(c) || c == '\''; }
	inline bool path_set(uint32_t c) { return c0(c) || has(" \"#<>?`{}", c); }
	inline bool user_set(uint32_t c) { return path_set(c) || has("/:;=@[\\]^|", c); }
	inline bool component_set(uint32_t c) { return user_set(c) || has("$%&+,", c); }
	inline bool form_set(uint32_t c) { return component_set(c) || has("!'()~", c); }
	using Set = bool (*)(uint32_t);
	inline Str ascii(std::string const& s) { return Str(s.begin(), s.end()); }
	inline std::string pct(uint8_t b) { static char const h[] = "0123456789ABCDEF"; return std::string{ '%', h[b >> 4], h[b & 15] }; }
	inline Str pencode(E e, Str const& in, Set set, bool plus = false)
	{
		auto r = encref::encode(e, in, true); Str o; size_t k = 0;
		for (size_t i = 0; i < r.out.size();)
		{
			if (k < r.refs.size() && r.refs[k].first == i) { auto d = std::to_string(r.refs[k].second); o += U"%26%23" + ascii(d) + U"%3B"; i += d.size() + 3; ++k; continue; }
			uint8_t b = static_cast<uint8_t>(r.out[i++]);
			if (plus && b == ' ') o += U'+'; else if (set(b)) o += ascii(pct(b)); else o += static_cast<char32_t>(b);
		}
		return o;
	}
	inline Str pencode(Str const& in, Set set) { return pencode(E::UTF_8, in, set); }
	inline int hexv(uint32_t c) { return '0' <= c && c <= '9' ? static_cast<int>(c - '0') : 'a' <= c && c <= 'f' ? static_cast<int>(c - 'a' + 10) : 'A' <= c && c <= 'F' ? static_cast<int>(c - 'A' + 10) : -1; }
	inline std::string pdecode(std::string const& s)
	{
		std::string o;
		for (size_t i = 0; i < s.size(); ++i)
			if (s[i] == '%' && i + 2 < s.size() && hexv(static_cast<uint8_t>(s[i + 1])) >= 0 && hexv(static_cast<uint8_t>(s[i + 2])) >= 0) { o.push_back(static_cast<char>(hexv(static_cast<uint8_t>(s[i + 1])) * 16 + hexv(static_cast<uint8_t>(s[i + 2])))); i += 2; }
			else o.push_back(s[i]);
		return o;
	}

	// ---- hosts -----------------------------------------------------------------------------------
	struct Host
	{
		enum K { Fail, Domain, V4, V6, Opaque } k = Fail; Str s; uint32_t v4 = 0; std::array<uint16_t, 8> v6{};
		bool operator==(Host const&) const = default;
		bool empty() const { return k == Opaque && s.empty(); }
	};
	struct Ambiguous {}; // the input depends on a rule that changed between editions of the standard
	inline bool digit(uint32_t c) { return '0' <= c && c <= '9'; }
	inline bool alpha(uint32_t c) { return ('a' <= (c | 0x20) && (c | 0x20) <= 'z') && c < 0x80; }
	inline bool forbidden(uint32_t c) { return c == 0 || has("\t\n\r #%/:?@[\\]<>^|", c); }
	inline std::optional<Str> idna(Str const& d, bool& suspicious)
	{
		bool plain = true; for (char32_t c : d) if (c >= 0x80) plain = false;
		Str low = d; for (auto& c : low) if ('A' <= c && c <= 'Z') c += 32;
		if (low.find(U"xn--") != Str::npos) plain = false;
		if (plain) return low;
		UErrorCode u = U_ZERO_ERROR;
		static icu::IDNA* i = icu::IDNA::createUTS46Instance(UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_ASCII, u);
		static icu::IDNA* o = icu::IDNA::createUTS46Instance(UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO | UIDNA_NONTRANSITIONAL_TO_ASCII, u);
		icu::UnicodeString a, b, x; for (char32_t c : d) a.append(static_cast<UChar32>(c));
		auto mask = ~(UIDNA_ERROR_LEADING_HYPHEN | UIDNA_ERROR_TRAILING_HYPHEN | UIDNA_ERROR_HYPHEN_3_4 | UIDNA_ERROR_EMPTY_LABEL | UIDNA_ERROR_LABEL_TOO_LONG | UIDNA_ERROR_DOMAIN_NAME_TOO_LONG);
		icu::IDNAInfo n, m; i->nameToASCII(a, b, n, u); o->nameToASCII(a, x, m, u);
		if (((n.getErrors() & mask) != 0) != ((m.getErrors() & mask) != 0)) suspicious = true; // CONTEXTO is a library choice
		if (U_FAILURE(u) || (n.getErrors() & mask) || b.isEmpty()) return {};
		Str r; for (int32_t k = 0; k < b.length(); k = b.moveIndex32(k, 1)) r.push_back(static_cast<char32_t>(b.char32At(k)));
		return r;
	}
	// value of an IPv4 part, NO when it is not a number; saturates
	inline std::optional<uint64_t> v4num(Str s)
	{
		uint32_t R = 10;
		if (s.size() >= 2 && s[0] == '0' && (s[1] | 0x20) == 'x') { s.erase(0, 2); R = 16; }
		else if (s.size() >= 2 && s[0] == '0') { s.erase(0, 1); R = 8; }
		uint64_t v = 0;
		for (char32_t c : s) { int h = hexv(c); if (h < 0 || h >= static_cast<int>(R)) return {}; v = std::min<uint64_t>(v * R + static_cast<uint64_t>(h), 1ull << 40); }
		return v;
	}
	inline std::vector<Str> split(Str const& s, char32_t d) { std::vector<Str> v(1); for (char32_t c : s) if (c == d) v.emplace_back(); else v.back() += c; return v; }
	inline Host v4(Str const& in) // Opaque: not an IPv4 address, Fail: malformed one
	{
		Host no; no.k = Host::Opaque; no.s = in;
		auto p = split(in, U'.'); if (p.back().empty() && p.size() > 1) p.pop_back();
		if (p.size() > 4) return no;
		std::vector<uint64_t> n;
		for (auto& x : p) { if (x.empty()) return no; auto v = v4num(x); if (!v) return no; n.push_back(*v); }
		for (size_t i = 0; i + 1 < n.size(); ++i) if (n[i] > 255) return {};
		if (n.back() >= 1ull << (8 * (5 - n.size()))) return {};
		uint64_t r = n.back(); for (size_t i = 0; i + 1 < n.size(); ++i) r += n[i] << (8 * (3 - i));
		Host h; h.k = Host::V4; h.v4 = static_cast<uint32_t>(r); return h;
	}
	// IPv6 by grammar: split at "::" (at most one), groups of 1-4 hex digits, optional trailing dotted IPv4
	inline bool groups(Str const& s, std::vector<uint16_t>& out, bool v4ok)
	{
		if (s.empty()) return true;
		auto p = split(s, U':');
		for (size_t i = 0; i < p.size(); ++i)
		{
			if (p[i].find(U'.') != Str::npos)
			{
				if (i + 1 != p.size() || !v4ok) return false;
				auto q = split(p[i], U'.'); if (q.size() != 4) return false;
				uint32_t b[4];
				for (int k = 0; k < 4; ++k)
				{
					if (q[k].empty() || q[k].size() > 3 || (q[k].size() > 1 && q[k][0] == '0')) return false;
					b[k] = 0; for (char32_t c : q[k]) { if (!digit(c)) return false; b[k] = b[k] * 10 + (c - '0'); } if (b[k] > 255) return false;
				}
				out.push_back(static_cast<uint16_t>(b[0] << 8 | b[1])); out.push_back(static_cast<uint16_t>(b[2] << 8 | b[3]));
				continue;
			}
			if (p[i].empty() || p[i].size() > 4) return false;
			uint32_t v = 0; for (char32_t c : p[i]) { int h = hexv(c); if (h < 0) return false; v = v * 16 + static_cast<uint32_t>(h); }
			out.push_back(static_cast<uint16_t>(v));
		}
		return true;
	}
	inline Host v6(Str const& s)
	{
		std::vector<uint16_t> a, b; Host h; size_t z = s.find(U"::");
		if (z == Str::npos) { if (!groups(s, a, true) || a.size() != 8) return {}; }
		else
		{
			Str l = s.substr(0, z), r = s.substr(z + 2);
			if (!groups(l, a, false) || !groups(r, b, true) || a.size() + b.size() > 7) return {};
			a.resize(8 - b.size()); a.insert(a.end(), b.begin(), b.end());
		}
		h.k = Host::V6; for (int i = 0; i < 8; ++i) h.v6[i] = a[i]; return h;
	}
	inline Host opaque(Str const& s) { for (char32_t c : s) if (forbidden(c) && c != '%') return {}; Host h; h.k = Host::Opaque; h.s = pencode(s, c0); return h; }
	inline Host host(Str const& s, bool notSpecial)
	{
		if (!s.empty() && s[0] == '[') { if (s.back() != ']') return {}; return v6(s.substr(1, s.size() - 2)); }
		if (notSpecial) return opaque(s);
		std::string u = pdecode(encref::encode(E::UTF_8, s, true).out);
		auto dec = encref::decode(E::UTF_8, encref::Bytes(u.begin(), u.end()));
		bool sus = false; auto a = idna(dec.out, sus); if (sus) throw Ambiguous{};
		if (!a) return {};
		for (char32_t c : *a) if (forbidden(c) || c < 0x20 || c == 0x7F) return {};
		Host h = v4(*a); if (h.k != Host::Opaque) return h;
		h.k = Host::Domain; return h;
	}
	inline std::string num(uint32_t v, int base = 10) { char b[16]; snprintf(b, sizeof b, base == 10 ? "%u" : "%x", v); return b; }
	inline Str show(Host const& h)
	{
		if (h.k == Host::V4) return ascii(num(h.v4 >> 24) + "." + num(h.v4 >> 16 & 255) + "." + num(h.v4 >> 8 & 255) + "." + num(h.v4 & 255));
		if (h.k == Host::V6)
		{
			int bs = -1, bl = 1; for (int i = 0; i < 8; ++i) { int l = 0; while (i + l < 8 && h.v6[i + l] == 0) ++l; if (l > bl) { bl = l; bs = i; } }
			std::string o = "[";
			if (bs < 0) for (int i = 0; i < 8; ++i) o += (i ? ":" : "") + num(h.v6[i], 16);
			else { for (int i = 0; i < bs; ++i) o += (i ? ":" : "") + num(h.v6[i], 16); o += "::"; for (int i = bs + bl; i < 8; ++i) o += (i > bs + bl ? ":" : "") + num(h.v6[i], 16); }
			return ascii(o + "]");
		}
		return h.s;
	}

	// ---- URL records -----------------------------------------------------------------------------
	struct Url
	{
		Str scheme, user, pass; std::optional<Host> host; std::optional<uint32_t> port; std::vector<Str> path; std::optional<Str> query, frag; bool cbb = false;
		bool operator==(Url const&) const = default;
	};
	inline bool special(Str const& s) { return s == U"ftp" || s == U"file" || s == U"http" || s == U"https" || s == U"ws" || s == U"wss"; }
	inline int defport(Str const& s) { return s == U"ftp" ? 21 : s == U"http" || s == U"ws" ? 80 : s == U"https" || s == U"wss" ? 443 : -1; }
	inline bool drive(Str const& s) { return s.size() == 2 && alpha(s[0]) && (s[1] == ':' || s[1] == '|'); }
	inline bool ndrive(Str const& s) { return s.size() == 2 && alpha(s[0]) && s[1] == ':'; }
	inline bool sdrive(Str const& s, size_t i) { return i + 2 <= s.size() && drive(s.substr(i, 2)) && (i + 2 == s.size() || has("/\\?#", s[i + 2])); }
	inline void shorten(Url& u) { if (u.path.empty()) return; if (u.scheme == U"file" && u.path.size() == 1 && ndrive(u.path[0])) return; u.path.pop_back(); }
	inline Str lower(Str s) { for (auto& c : s) if ('A' <= c && c <= 'Z') c += 32; return s; }
	inline bool dot1(Str const& s) { Str l = lower(s); return l == U"." || l == U"%2e"; }
	inline bool dot2(Str const& s) { Str l = lower(s); return l == U".." || l == U".%2e" || l == U"%2e." || l == U"%2e%2e"; }
	inline Host empty_host() { Host h; h.k = Host::Opaque; return h; }
	enum class St { None, SchemeStart, Scheme, NoScheme, SpecialRelOrAuth, PathOrAuth, Relative, RelativeSlash, SpecialAuthSlashes, SpecialAuthIgnore, Authority, Host, Hostname, Port, File, FileSlash, FileHost, PathStart, Path, Cbb, Query, Fragment };

	// basic URL parser: false = failure or early return
	inline bool parse(Str in, Url& u, Url const* base, E e, St ov)
	{
		if (ov == St::None)
		{
			auto ws = [](char32_t c) { return c <= 0x20; };
			while (!in.empty() && ws(in.back())) in.pop_back();
			size_t k = 0; while (k < in.size() && ws(in[k])) ++k; in.erase(0, k);
		}
		in.erase(std::remove_if(in.begin(), in.end(), [](char32_t c) { return c == 9 || c == 10 || c == 13; }), in.end());
		bool over = ov != St::None; St st = over ? ov : St::SchemeStart;
		if (e == E::replacement || e == E::UTF_16BE || e == E::UTF_16LE) e = E::UTF_8;
		Str buf; bool at = false, br = false, pw = false; long p = 0, n = static_cast<long>(in.size());
		constexpr char32_t END = 0xFFFFFFFF;
		for (;; ++p)
		{
			char32_t c = p < n ? in[static_cast<size_t>(p)] : END;
			auto rest = [&](long k) -> char32_t { return p + k < n ? in[static_cast<size_t>(p + k)] : END; };
			auto sp = [&] { return special(u.scheme); };
			auto endauth = [&] { return c == END || c == '/' || c == '?' || c == '#' || (sp() && c == '\\'); };
			switch (st)
			{
			case St::SchemeStart:
				if (c != END && alpha(c)) { buf += lower(Str(1, c)); st = St::Scheme; }
				else if (!over) { st = St::NoScheme; --p; } else return false;
				break;
			case St::Scheme:
				if (c != END && (alpha(c) || digit(c) || c == '+' || c == '-' || c == '.')) buf += lower(Str(1, c));
				else if (c == ':')
				{
					if (over)
					{
						if (sp() != special(buf)) return false;
						if ((!u.user.empty() || !u.pass.empty() || u.port) && buf == U"file") return false;
						if (u.scheme == U"file" && (!u.host || u.host->empty())) return false;
						u.scheme = buf; if (u.port && static_cast<int>(*u.port) == defport(u.scheme)) u.port.reset();
						return false;
					}
					u.scheme = buf; buf.clear();
					if (u.scheme == U"file") st = St::File;
					else if (sp() && base && base->scheme == u.scheme) st = St::SpecialRelOrAuth;
					else if (sp()) st = St::SpecialAuthSlashes;
					else if (rest(1) == '/') { st = St::PathOrAuth; ++p; }
					else { u.cbb = true; u.path.push_back(U""); st = St::Cbb; }
				}
				else if (!over) { buf.clear(); st = St::NoScheme; p = -1; }
				else return false;
				break;
			case St::NoScheme:
				if (!base || (base->cbb && c != '#')) return false;
				if (base->cbb) { u.scheme = base->scheme; u.path = base->path; u.query = base->query; u.frag = U""; u.cbb = true; st = St::Fragment; }
				else if (base->scheme != U"file") { st = St::Relative; --p; }
				else { st = St::File; --p; }
				break;
			case St::SpecialRelOrAuth:
				if (c == '/' && rest(1) == '/') { st = St::SpecialAuthIgnore; ++p; } else { st = St::Relative; --p; }
				break;
			case St::PathOrAuth:
				if (c == '/') st = St::Authority; else { st = St::Path; --p; }
				break;
			case St::Relative:
				u.scheme = base->scheme;
				if (c == '/' || (sp() && c == '\\')) { st = St::RelativeSlash; break; }
				u.user = base->user; u.pass = base->pass; u.host = base->host; u.port = base->port; u.path = base->path; u.query = base->query;
				if (c == '?') { u.query = U""; st = St::Query; }
				else if (c == '#') { u.frag = U""; st = St::Fragment; }
				else if (c != END) { u.query.reset(); if (!u.path.empty()) u.path.pop_back(); st = St::Path; --p; }
				break;
			case St::RelativeSlash:
				if (sp() && (c == '/' || c == '\\')) st = St::SpecialAuthIgnore;
				else if (c == '/') st = St::Authority;
				else { u.user = base->user; u.pass = base->pass; u.host = base->host; u.port = base->port; st = St::Path; --p; }
				break;
			case St::SpecialAuthSlashes:
				st = St::SpecialAuthIgnore; if (c == '/' && rest(1) == '/') ++p; else --p;
				break;
			case St::SpecialAuthIgnore:
				if (c != '/' && c != '\\') { st = St::Authority; --p; }
				break;
			case St::Authority:
				if (c == '@')
				{
					if (at) buf = U"%40" + buf;
					at = true;
					for (char32_t x : buf) { if (x == ':' && !pw) { pw = true; continue; } (pw ? u.pass : u.user) += pencode(Str(1, x), user_set); }
					buf.clear();
				}
				else if (endauth())
				{
					if (at && buf.empty()) return false;
					p -= static_cast<long>(buf.size()) + 1; buf.clear(); st = St::Host;
				}
				else buf += c;
				break;
			case St::Host: case St::Hostname:
				if (over && u.scheme == U"file") { --p; st = St::FileHost; }
				else if (c == ':' && !br)
				{
					if (buf.empty()) return false;
					Host h = host(buf, !sp()); if (h.k == Host::Fail) return false;
					u.host = h; buf.clear(); st = St::Port; if (ov == St::Hostname) return false;
				}
				else if (endauth())
				{
					--p;
					if (sp() && buf.empty()) return false;
					if (over && buf.empty() && (!u.user.empty() || !u.pass.empty() || u.port)) return false;
					Host h = host(buf, !sp()); if (h.k == Host::Fail) return false;
					u.host = h; buf.clear(); st = St::PathStart; if (over) return false;
				}
				else { if (c == '[') br = true; if (c == ']') br = false; buf += c; }
				break;
			case St::Port:
				if (c != END && digit(c)) buf += c;
				else if (endauth() || over)
				{
					if (!buf.empty())
					{
						uint64_t v = 0; for (char32_t x : buf) v = std::min<uint64_t>(v * 10 + (x - '0'), 1u << 20);
						if (v > 65535) return false;
						if (static_cast<int>(v) == defport(u.scheme)) u.port.reset(); else u.port = static_cast<uint32_t>(v);
						buf.clear();
					}
					if (over) return false;
					st = St::PathStart; --p;
				}
				else return false;
				break;
			case St::File:
				u.scheme = U"file"; u.host = empty_host();
				if (c == '/' || c == '\\') st = St::FileSlash;
				else if (base && base->scheme == U"file")
				{
					u.host = base->host; u.path = base->path; u.query = base->query;
					if (c == '?') { u.query = U""; st = St::Query; }
					else if (c == '#') { u.frag = U""; st = St::Fragment; }
					else if (c != END) { u.query.reset(); if (!sdrive(in, static_cast<size_t>(p))) shorten(u); else u.path.clear(); st = St::Path; --p; }
				}
				else { st = St::Path; --p; }
				break;
			case St::FileSlash:
				if (c == '/' || c == '\\') st = St::FileHost;
				else
				{
					if (base && base->scheme == U"file")
					{
						u.host = base->host;
						if (!sdrive(in, static_cast<size_t>(p)) && !base->path.empty() && ndrive(base->path[0])) u.path.push_back(base->path[0]);
					}
					st = St::Path; --p;
				}
				break;
			case St::FileHost:
				if (c == END || has("/\\?#", c))
				{
					--p;
					if (!over && drive(buf)) st = St::Path;
					else if (buf.empty()) { u.host = empty_host(); if (over) return false; st = St::PathStart; }
					else
					{
						Host h = host(buf, !sp()); if (h.k == Host::Fail) return false;
						if (h.k == Host::Domain && h.s == U"localhost") h = empty_host();
						u.host = h; if (over) return false;
						buf.clear(); st = St::PathStart;
					}
				}
				else buf += c;
				break;
			case St::PathStart:
				if (sp()) { st = St::Path; if (c != '/' && c != '\\') --p; }
				else if (!over && c == '?') { u.query = U""; st = St::Query; }
				else if (!over && c == '#') { u.frag = U""; st = St::Fragment; }
				else if (c != END) { st = St::Path; if (c != '/') --p; }
				break;
			case St::Path:
			{
				bool slash = c == '/' || (sp() && c == '\\');
				if (c == END || slash || (!over && (c == '?' || c == '#')))
				{
					if (dot2(buf)) { shorten(u); if (!slash) u.path.push_back(U""); }
					else if (dot1(buf)) { if (!slash) u.path.push_back(U""); }
					else { if (u.scheme == U"file" && u.path.empty() && drive(buf)) buf[1] = ':'; u.path.push_back(buf); }
					buf.clear();
					if (c == '?') { u.query = U""; st = St::Query; }
					if (c == '#') { u.frag = U""; st = St::Fragment; }
				}
				else buf += pencode(Str(1, c), path_set);
				break;
			}
			case St::Cbb:
				if (c == '?') { u.query = U""; st = St::Query; }
				else if (c == '#') { u.frag = U""; st = St::Fragment; }
				else if (c != END) u.path[0] += pencode(Str(1, c), c0);
				break;
			case St::Query:
				if (!sp() || u.scheme == U"ws" || u.scheme == U"wss") e = E::UTF_8;
				if ((!over && c == '#') || c == END)
				{
					*u.query += pencode(e, buf, sp() ? squery_set : query_set); buf.clear();
					if (c == '#') { u.frag = U""; st = St::Fragment; }
				}
				else buf += c;
				break;
			case St::Fragment:
				if (c != END) *u.frag += pencode(Str(1, c), fragment_set);
				break;
			case St::None: break;
			}
			if (p >= n) break;
		}
		return true;
	}
	inline Str pathstr(Url const& u) { if (u.cbb) return u.path[0]; Str o; for (auto& s : u.path) { o += U'/'; o += s; } return o; }
	inline Str href(Url const& u, bool nofrag = false)
	{
		Str o = u.scheme + U":";
		if (u.host)
		{
			o += U"//";
			if (!u.user.empty() || !u.pass.empty()) { o += u.user; if (!u.pass.empty()) o += U":" + u.pass; o += U"@"; }
			o += show(*u.host); if (u.port) o += U":" + ascii(num(*u.port));
		}
		else if (!u.cbb && u.path.size() > 1 && u.path[0].empty()) o += U"/.";
		o += pathstr(u);
		if (u.query) o += U"?" + *u.query;
		if (!nofrag && u.frag) o += U"#" + *u.frag;
		return o;
	}
	inline bool nocred(Url const& u) { return !u.host || u.host->empty() || u.cbb || u.scheme == U"file"; }
	// URL API
	inline void set(Url& u, int what, Str v)
	{
		auto run = [&](Str const& s, St st) { parse(s, u, nullptr, E::UTF_8, st); };
		switch (what)
		{
		case 0: run(v + U":", St::SchemeStart); break;
		case 1: if (!nocred(u)) u.user = pencode(v, user_set); break;
		case 2: if (!nocred(u)) u.pass = pencode(v, user_set); break;
		case 3: if (!u.cbb) run(v, St::Host); break;
		case 4: if (!u.cbb) run(v, St::Hostname); break;
		case 5: if (!nocred(u)) { if (v.empty()) u.port.reset(); else run(v, St::Port); } break;
		case 6: if (!u.cbb) { u.path.clear(); run(v, St::PathStart); } break;
		case 7: if (v.empty()) u.query.reset(); else { if (v[0] == '?') v.erase(0, 1); u.query = U""; run(v, St::Query); } break;
		case 8: if (v.empty()) u.frag.reset(); else { if (v[0] == '#') v.erase(0, 1); u.frag = U""; run(v, St::Fragment); } break;
		}
	}
}

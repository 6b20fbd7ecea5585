// url.cpp - URL parsing, serialising, hosts, percent coding, the URL class
#include "pbt.hpp"
#include "url_ref.hpp"
#include <wordring/whatwg/url/api.hpp>

using namespace pbt;
namespace ww = wordring::whatwg;
using uref::Str; using uref::Url; using uref::E; using uref::St;

namespace
{
	Str A(char const* s) { return uref::ascii(s); }

	// ---- generators -----------------------------------------------------------------------------
	char32_t uchar(Gen& g)
	{
		switch (g.weighted({ 6, 3, 5, 1, 1, 1 }))
		{
		case 0: return g.pick({ 'a', 'b', 'Z', '0', '9', 'x', 'e', '.' });
		case 1: return g.in(0x20, 0x7E);
		case 2: return static_cast<char32_t>(g.pick({ '/', '\\', ':', '@', '?', '#', '[', ']', '%', '.', '|', '\'', '"', '<', '>', '`', '{', '}', '^', ' ', '&', '=', '+', ';', ',', '~', '$', '!' }));
		case 3: return g.below(0x21);
		case 4: return g.pick({ 0x7Fu, 0x80u, 0xA0u, 0xE9u, 0xDFu, 0xADu, 0x3042u, 0x3002u, 0xFF0Eu, 0xFF21u, 0x200Du, 0xFFFDu, 0xFFFFu, 0x1F600u, 0x10FFFFu, 0xFEFFu, 0x2603u });
		default: { uint32_t c = g.below(0x110000 - 0x800); return c < 0xD800 ? c : c + 0x800; }
		}
	}
	Str junk(Gen& g, uint32_t max) { Str s; uint32_t n = g.wide(0, max, 300, 1000); for (uint32_t i = 0; i < n; ++i) s.push_back(uchar(g)); return s; }
	Str pcts(Gen& g) { char b[8]; uint32_t v = g.chance(1, 3) ? static_cast<uint32_t>(g.pick({ 0x2E, 0x2F, 0x25, 0x41, 0x30, 0x00, 0xE3, 0x81, 0x82, 0xC3, 0xA9, 0x5B, 0x3A })) : g.below(256); snprintf(b, sizeof b, g.chance(1, 2) ? "%%%02x" : "%%%02X", v); return A(b); }
	Str v4part(Gen& g, uint64_t v)
	{
		char b[40];
		switch (g.weighted({ 5, 2, 2, 1 }))
		{
		case 0: snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(v)); break;
		case 1: snprintf(b, sizeof b, g.chance(1, 2) ? "0x%llx" : "0X%llX", static_cast<unsigned long long>(v)); break;
		case 2: snprintf(b, sizeof b, "0%llo", static_cast<unsigned long long>(v)); break;
		default: snprintf(b, sizeof b, "00%llo", static_cast<unsigned long long>(v)); break;
		}
		return A(b);
	}
	Str v4text(Gen& g)
	{
		Str s; uint32_t n = g.weighted({ 1, 2, 2, 2, 8, 1 }); if (n == 0) n = 4;
		for (uint32_t i = 0; i < n; ++i)
		{
			if (i) s += U'.';
			uint64_t lim = i + 1 == n && n <= 4 ? 1ull << (8 * (5 - n)) : 256;
			switch (g.weighted({ 8, 3, 2, 2, 1, 1, 1 }))
			{
			case 0: s += v4part(g, g.u64() % std::min<uint64_t>(lim, 256)); break;
			case 1: s += v4part(g, g.u64() % lim); break;
			case 2: s += v4part(g, lim - 1 + g.below(3) - (lim > 2 ? g.below(2) : 0)); break;
			case 3: s += v4part(g, g.pick({ uint64_t(0), uint64_t(7), uint64_t(8), uint64_t(255), uint64_t(256), uint64_t(4294967295u), uint64_t(4294967296u), uint64_t(4294967297u), ~uint64_t(0) })); break;
			case 4: s += g.pick({ A("0x"), A("08"), A("09"), A("0x1g"), A("1a"), A("018"), A("0xFFFFFFFFFFFFFFFFFF"), A("99999999999999999999999"), A("0"), A("00"), A("+1"), A("-1"), A("1e1") }); break;
			case 5: break;
			default: s += uchar(g); break;
			}
		}
		if (g.chance(1, 8)) s += U'.';
		if (g.chance(1, 20)) s += U'.';
		return s;
	}
	std::array<uint16_t, 8> v6value(Gen& g) { std::array<uint16_t, 8> a{}; uint32_t mode = g.below(3); for (auto& x : a) x = g.chance(mode + 1, 4) ? 0 : static_cast<uint16_t>(g.chance(1, 3) ? g.pick({ 1u, 0xFu, 0x10u, 0xFFu, 0x100u, 0xFFFu, 0x1000u, 0xFFFFu }) : g.below(0x10000)); return a; }
	Str v6text(Gen& g)
	{
		auto a = v6value(g); Str s; char b[24];
		int from = -1, to = -1; // compress a run of zeros, or (invalid or short) something else
		if (g.chance(2, 3)) { from = static_cast<int>(g.below(9)); to = from; while (to < 8 && (a[to] == 0 || g.chance(1, 12))) ++to; if (g.chance(1, 10)) to = static_cast<int>(g.in(static_cast<uint32_t>(from), 8)); }
		bool dotted = g.chance(1, 4); int n = dotted ? 6 : 8; if (g.chance(1, 15)) n += g.chance(1, 2) ? 1 : -1;
		bool sep = false;
		for (int i = 0; i < n; ++i)
		{
			if (i == from) { s += U"::"; sep = false; if (to > i) { i = to - 1; continue; } }
			if (sep) s += U':';
			if (i < 8) { snprintf(b, sizeof b, g.chance(1, 5) ? "%04x" : g.chance(1, 3) ? "%X" : "%x", a[i]); s += A(b); }
			else s += U'1';
			sep = true;
		}
		if (from >= n) { s += U"::"; sep = false; }
		if (dotted) { if (sep) s += U':'; for (int i = 0; i < 4; ++i) { if (i) s += U'.'; snprintf(b, sizeof b, "%u", g.chance(1, 15) ? g.pick({ 256u, 999u, 300u }) : g.chance(1, 3) ? g.pick({ 0u, 9u, 10u, 99u, 100u, 255u }) : g.below(256)); s += A(b); } }
		uint32_t k = g.weighted({ 6, 2, 1 });
		for (uint32_t i = 0; i < k; ++i)
		{
			uint32_t p = g.below(static_cast<uint32_t>(s.size()) + 1);
			if (g.chance(1, 2) && p < s.size()) s.erase(p, 1);
			else s.insert(p, 1, static_cast<char32_t>(g.pick({ ':', '.', '0', '1', 'g', 'F', '%', '/', '5' })));
		}
		return s;
	}
	Str label(Gen& g)
	{
		switch (g.weighted({ 6, 3, 2, 1, 1, 1 }))
		{
		case 0: return g.pick({ A("example"), A("com"), A("a"), A("WWW"), A("localhost"), A("LocalHost"), A("x-y"), A("-a-"), A("a_b"), A("0"), A("1"), A("0x1"), A("b9"), A("ab--c") });
		case 1: return g.pick({ Str(U"\u3042\u3044"), Str(U"fa\u00DF"), Str(U"B\u00FCcher"), Str(U"\u65E5\u672C\u8A9E"), Str(U"xn--l8jegik"), Str(U"xn--bcher-kva"), Str(U"XN--Fa-hia"), Str(U"\uFF21\uFF22"), Str(U"\u00AD"), Str(U"a\u3002b"), Str(U"\u0627\u0628"), Str(U"xn--"), Str(U"xn--a"), Str(U"\uFF05\uFF14\uFF11"), Str(U"\u2603"), Str(U"\u30FB\u3042"), Str(U"\u212A"), Str(U"e\u0301"), Str(U"%E3%81%82") });
		case 2: { Str s; uint32_t n = g.len(1, 70); for (uint32_t i = 0; i < n; ++i) s += static_cast<char32_t>(g.pick({ 'a', 'B', '1', '-', 'z' })); return s; }
		case 3: return Str();
		case 4: return pcts(g);
		default: return Str(1, uchar(g));
		}
	}
	Str hosttext(Gen& g)
	{
		switch (g.weighted({ 8, 4, 3, 1, 1, 2 }))
		{
		case 0: { Str s = label(g); uint32_t n = g.below(3); for (uint32_t i = 0; i < n; ++i) s += U"." + label(g); if (g.chance(1, 10)) s += U'.'; return s; }
		case 1: return v4text(g);
		case 2: return U"[" + v6text(g) + (g.chance(1, 15) ? U"" : U"]");
		case 3: return Str();
		case 4: return junk(g, 6);
		default: return g.pick({ A("localhost"), A("example.com"), A("C:"), A("c|"), A("h"), A("%41"), A("%2e"), A("1.2.3.4.5"), A("127.1"), A("0x7f.1") });
		}
	}
	Str porttext(Gen& g)
	{
		char b[24];
		switch (g.weighted({ 3, 3, 3, 1, 1 }))
		{
		case 0: return g.pick({ A("80"), A("443"), A("21"), A("0"), A("65535"), A("65536"), A("65534"), A("00080"), A("0000000443"), A("99999"), A("100000"), A("4294967376"), A("18446744073709551696"), A("") });
		case 1: snprintf(b, sizeof b, "%u", g.below(65536)); return A(b);
		case 2: snprintf(b, sizeof b, "%u", g.below(70000)); return A(b);
		case 3: return g.pick({ A("8a"), A("-1"), A("+8"), A("80 "), A(" 80"), A("8.0"), A("80/x"), A("80?x"), A("80\\x"), A("80#x") });
		default: return junk(g, 4);
		}
	}
	Str segment(Gen& g)
	{
		switch (g.weighted({ 5, 5, 2, 2, 2 }))
		{
		case 0: return g.pick({ A("a"), A("bc"), A("x.y"), A("index.html"), A("~u") });
		case 1: return g.pick({ A("."), A(".."), A("%2e"), A("%2E"), A(".%2e"), A("%2E."), A("%2e%2E"), A("..."), A("%2e%2e%2e"), A(". "), A("..;") });
		case 2: return Str();
		case 3: return g.pick({ A("C:"), A("c|"), A("C|"), A("1:"), A("cc:"), A("C:x"), Str(U"\u00E9:") });
		default: return junk(g, 5) + (g.chance(1, 2) ? pcts(g) : Str());
		}
	}
	Str pathtext(Gen& g, uint32_t max)
	{
		Str s; uint32_t n = g.wide(0, max, 120, 400);
		for (uint32_t i = 0; i < n; ++i) { if (i || g.chance(2, 3)) s += g.chance(1, 6) ? U'\\' : U'/'; s += segment(g); }
		if (g.chance(1, 4)) s += U'/';
		return s;
	}
	Str urltext(Gen& g)
	{
		Str s;
		bool scheme = g.chance(3, 4);
		if (scheme)
		{
			switch (g.weighted({ 10, 4, 3, 1 }))
			{
			case 0: s += g.pick({ A("http"), A("https"), A("file"), A("ws"), A("wss"), A("ftp") }); break;
			case 1: s += g.pick({ A("a"), A("mailto"), A("non-special"), A("x+y.z-1"), A("javascript"), A("data"), A("blob"), A("filex"), A("htt") }); break;
			case 2: s += g.pick({ A("HTTP"), A("hTtPs"), A("FILE"), A("A"), A("Ws") }); break;
			default: s += g.pick({ A("1a"), A(""), A("h t"), A("-a"), A("a_b"), A("+") }); break;
			}
			s += U':';
		}
		bool auth = g.chance(2, 3);
		if (auth)
		{
			s += g.weighted({ 8, 1 }) == 0 ? A("//") : g.pick({ A("///"), A("\\\\"), A("/\\"), A("\\/"), A("////"), A("/"), A("\\") });
			if (g.chance(1, 4)) { uint32_t n = g.in(1, 2); for (uint32_t i = 0; i < n; ++i) { s += g.chance(2, 3) ? g.pick({ A("u"), A("user"), A("") }) : junk(g, 5); if (g.chance(1, 2)) { s += U':'; s += g.chance(2, 3) ? g.pick({ A("p"), A("p:w"), A("") }) : junk(g, 5); } s += U'@'; } }
			s += hosttext(g);
			if (g.chance(1, 3)) s += U":" + porttext(g);
		}
		s += pathtext(g, 7);
		if (g.chance(1, 3)) s += U"?" + (g.chance(1, 4) ? Str() : junk(g, 10));
		if (g.chance(1, 4)) s += U"#" + (g.chance(1, 4) ? Str() : junk(g, 8));
		uint32_t k = g.weighted({ 7, 2, 1 });
		for (uint32_t i = 0; i < k; ++i)
		{
			uint32_t p = g.below(static_cast<uint32_t>(s.size()) + 1);
			switch (g.below(5))
			{
			case 0: if (p < s.size()) s.erase(p, 1); break;
			case 1: s.insert(p, 1, static_cast<char32_t>(g.pick({ 9u, 10u, 13u }))); break;
			case 2: s.insert(g.chance(1, 2) ? 0 : s.size(), 1, static_cast<char32_t>(g.below(0x22))); break;
			case 3: if (p < s.size()) s[p] = uchar(g); break;
			default: s.insert(p, 1, uchar(g)); break;
			}
		}
		return s;
	}

	// ---- comparing ------------------------------------------------------------------------------
	std::string dump(Url const& u)
	{
		std::string s = "{scheme " + show(u.scheme) + " user " + show(u.user) + " pass " + show(u.pass) + " host ";
		if (!u.host) s += "null"; else { static char const* n[] = { "failure", "domain", "IPv4", "IPv6", "opaque" }; s += n[u.host->k]; s += ' ' + show(uref::show(*u.host)); }
		s += " port " + (u.port ? std::to_string(*u.port) : "null") + " path [";
		for (auto& p : u.path) s += show(p) + ' ';
		s += "] query " + (u.query ? show(*u.query) : "null") + " fragment " + (u.frag ? show(*u.frag) : "null") + (u.cbb ? " cannot be a base}" : "}");
		return s;
	}
	uref::Host conv(ww::host_base const& h)
	{
		uref::Host r;
		switch (h.type())
		{
		case ww::host_type_name::Domain: r.k = uref::Host::Domain; r.s = h.get<ww::domain_base>().m_value; break;
		case ww::host_type_name::Ipv4Address: r.k = uref::Host::V4; r.v4 = h.get<ww::ipv4_address_base>().m_value; break;
		case ww::host_type_name::Ipv6Address: r.k = uref::Host::V6; for (uint32_t i = 0; i < 8; ++i) r.v6[i] = h.get<ww::ipv6_address_base>()[i]; break;
		case ww::host_type_name::OpaqueHost: r.k = uref::Host::Opaque; r.s = h.get<ww::opaque_host_base>().m_value; break;
		case ww::host_type_name::EmptyHost: r.k = uref::Host::Opaque; break;
		default: break;
		}
		return r;
	}
	Url conv(ww::url_record_base const& u)
	{
		Url r; r.scheme = u.m_scheme; r.user = u.m_username; r.pass = u.m_password;
		if (u.m_host) r.host = conv(*u.m_host);
		if (u.m_port) r.port = *u.m_port;
		for (auto& p : u.m_path) r.path.push_back(p);
		if (u.m_query) r.query = *u.m_query;
		if (u.m_fragment) r.frag = *u.m_fragment;
		r.cbb = u.m_cannot_be_base_url;
		return r;
	}
	using Rec = std::optional<ww::url_record_base>;
	std::optional<Url> rparse(Str const& s, Url const* base = nullptr, E e = E::UTF_8) { Url u; try { if (!uref::parse(s, u, base, e, St::None)) return {}; } catch (uref::Ambiguous) { throw Discard{}; } return u; }
	void same(Rec const& got, std::optional<Url> const& want, std::string const& what)
	{
		if (!want) { check(!got, what, " did not fail but gave ", got ? dump(conv(*got)) : ""); return; }
		check(got.has_value(), what, " failed, expected ", dump(*want));
		Url g = conv(*got);
		check(g == *want, what, " gave ", dump(g), " expected ", dump(*want));
	}
	std::string cls(std::optional<Url> const& u)
	{
		if (!u) return "failure";
		std::string s = uref::special(u->scheme) ? u->scheme == U"file" ? "file" : "special" : u->cbb ? "cannot be a base" : "not special";
		static char const* n[] = { "?", "domain", "IPv4", "IPv6", "opaque" };
		s += u->host ? std::string(", ") + (u->host->empty() ? "empty" : n[u->host->k]) : ", no host";
		return s;
	}
	struct Pair { std::optional<Url> r; Rec l; };
	// a base URL both sides agree on (a disagreement is a failure of its own)
	Pair base_of(Gen& g)
	{
		Pair p; Str b = g.chance(1, 2) ? g.pick({ A("http://u:p@h:81/a/b/c?q#f"), A("file:///C:/x/y"), A("file://host/a/b"), A("a:/x/y/z"), A("a://h/x/y"), A("mailto:x"), A("https://ex.com"), A("a:"), A("file:///"), A("ws://h/a/../b"), A("a:/"), A("data:x,y?z"), A("a:///p//q") }) : urltext(g);
		p.r = rparse(b); ww::url_record_base const* none = nullptr; p.l = ww::pase_url(b, none, E::UTF_8); same(p.l, p.r, "parsing " + show(b));
		g.note("base ", show(b));
		return p;
	}

	// ---- U01 ------------------------------------------------------------------------------------
	void u01(Gen& g)
	{
		Pair b; bool wb = g.chance(1, 2); if (wb) { b = base_of(g); if (!b.r) wb = false; }
		Str s = urltext(g);
		E e = g.chance(1, 3) ? g.pick(encref::all()) : E::UTF_8;
		g.note("input ", show(s), " encoding ", static_cast<int>(e));
		auto want = rparse(s, wb ? &*b.r : nullptr, e);
		Rec got = ww::pase_url(s, wb ? &*b.l : nullptr, e);
		g.label(cls(want)); g.nontrivial(s.size() >= 4);
		same(got, want, "parsing " + show(s) + (wb ? " against " + show(uref::href(*b.r)) : ""));
		if (!want) return;
		// spaces around and tabs or newlines inside do not matter
		if (g.chance(1, 3))
		{
			Str t; for (char32_t c : s) { if (g.chance(1, 6)) t += static_cast<char32_t>(g.pick({ 9u, 10u, 13u })); t += c; }
			Str pre, post; for (uint32_t i = g.below(3); i; --i) pre += static_cast<char32_t>(g.below(0x21)); for (uint32_t i = g.below(3); i; --i) post += static_cast<char32_t>(g.below(0x21));
			t = pre + t + post; same(ww::pase_url(t, wb ? &*b.l : nullptr, e), want, "parsing " + show(t));
		}
	}
	// ---- U02 ------------------------------------------------------------------------------------
	void u02(Gen& g)
	{
		Pair b; bool wb = g.chance(1, 3); if (wb) { b = base_of(g); if (!b.r) wb = false; }
		Str s = urltext(g); g.note("input ", show(s));
		Rec u = ww::pase_url(s, wb ? &*b.l : nullptr, E::UTF_8);
		g.nontrivial(u.has_value() && s.size() >= 4); g.label(u ? "parsed" : "failure");
		if (!u) return;
		Url r = conv(*u); Str h = ww::serialize_url(*u, false);
		check(h == uref::href(r), dump(r), " serialises as ", show(h), " expected ", show(uref::href(r)));
		check(ww::serialize_url(*u, true) == uref::href(r, true), dump(r), " without fragment serialises as ", show(ww::serialize_url(*u, true)));
		for (char32_t c : h) check(0x20 <= c && c < 0x7F, "serialisation ", show(h), " is not printable ASCII");
		Pair b2 = base_of(g); bool w2 = b2.r && g.chance(1, 2);
		Rec v = ww::pase_url(h, w2 ? &*b2.l : nullptr, E::UTF_8);
		check(v.has_value(), show(s), " serialises as ", show(h), " which does not parse");
		check(conv(*v) == r, show(s), " serialises as ", show(h), " which parses as ", dump(conv(*v)), " expected ", dump(r));
		check(ww::serialize_url(*v, false) == h, "serialising ", show(h), " again gives ", show(ww::serialize_url(*v, false)));
		check(ww::equals(*u, *v, false) && ww::equals(*v, *u, true), show(h), " does not equal its reparse");
		// equality is equality of serialisations
		Rec w = b2.l; if (g.chance(1, 2)) { w = u; switch (g.below(6)) { case 0: w->m_fragment = Str(U"f"); break; case 1: w->m_query = Str(); break; case 2: w->m_port = static_cast<uint16_t>(g.below(3)); break; case 3: w->m_username += U'u'; break; case 4: if (!w->m_path.empty()) w->m_path.back() += U'x'; break; default: w->m_fragment.reset(); } }
		if (w) for (bool x : { false, true }) check(ww::equals(*u, *w, x) == (uref::href(r, x) == uref::href(conv(*w), x)), "comparing ", dump(r), " and ", dump(conv(*w)), x ? " without fragments" : "");
	}
	// ---- U03 ------------------------------------------------------------------------------------
	void u03(Gen& g)
	{
		static char const* n[] = { "failure", "domain", "IPv4", "IPv6", "opaque" };
		auto out = [&](uref::Host const& h) { return std::string(n[h.k]) + " " + show(uref::show(h)); };
		auto cmp = [&](char const* what, Str const& s, ww::host_base const& got, std::error_code const& ec, uref::Host const& want)
		{
			uref::Host h = conv(got); g.label(std::string(what) + ": " + n[want.k]);
			check(h == want, what, " ", show(s), " gives ", out(h), " expected ", out(want));
			if (want.k == uref::Host::Fail) { check(bool(ec), what, " ", show(s), " failed without an error code"); check(!got, "a failed host tests as true"); return; }
			check(static_cast<bool>(got) && !!got, "a parsed host tests as false");
			Str t = ww::serialize_host(got); check(t == uref::show(want), what, " ", show(s), " serialises as ", show(t), " expected ", show(uref::show(want)));
			check(got == ww::host_base(got), "a host does not equal its copy");
		};
		std::error_code ec;
		switch (g.weighted({ 4, 4, 4, 5, 2, 2, 2 }))
		{
		case 0: { Str s = v4text(g); g.note("IPv4 ", show(s)); g.nontrivial(); auto h = ww::parse_ipv4(s, ec); auto w = uref::v4(s); if (s.empty()) throw Discard{}; cmp("IPv4", s, h, ec, w); break; }
		case 1: { Str s = v6text(g); g.note("IPv6 ", show(s)); g.nontrivial(); auto h = ww::parse_ipv6(s, ec); cmp("IPv6", s, h, ec, uref::v6(s)); break; }
		case 2:
		{
			uref::Host r; if (g.chance(1, 3)) { r.k = uref::Host::V4; r.v4 = static_cast<uint32_t>(g.u64()); if (g.chance(1, 2)) r.v4 &= g.pick({ 0xFFu, 0xFF00FFu, 0xFF0000FFu, 0xFFFFFF00u }); } else { r.k = uref::Host::V6; r.v6 = v6value(g); }
			ww::host_base h; if (r.k == uref::Host::V4) h = ww::host_base(ww::ipv4_address_base{ r.v4 }); else { ww::ipv6_address_base a{}; for (uint32_t i = 0; i < 8; ++i) a[i] = r.v6[i]; h = ww::host_base(a); }
			Str want = uref::show(r), t = ww::serialize_host(h); g.note("address ", show(want)); g.nontrivial();
			check(t == want, "address serialises as ", show(t), " expected ", show(want));
			ww::host_base b = ww::parse_host(t, g.chance(1, 2) && r.k == uref::Host::V6, ec);
			check(conv(b) == r, show(t), " parses back as ", out(conv(b)));
			check(b == h, "address does not equal its reparse");
			if (r.k == uref::Host::V4) check(ww::is_valid_ipv4_address_string(t), show(t), " is not a valid IPv4 address string");
			break;
		}
		case 3:
		{
			Str s = hosttext(g); bool ns = g.chance(1, 3); if (s.empty() && !ns) throw Discard{};
			if (g.chance(1, 5)) { Str p; for (auto x : encref::encode(E::UTF_8, s, true).out) p += g.chance(1, 3) ? A(uref::pct(static_cast<uint8_t>(x)).c_str()) : static_cast<uint8_t>(x) < 0x80 ? Str(1, static_cast<char32_t>(x)) : A(uref::pct(static_cast<uint8_t>(x)).c_str()); s = p; }
			g.note("host ", show(s), ns ? " not special" : ""); g.nontrivial(s.size() > 1);
			uref::Host w; try { w = uref::host(s, ns); } catch (uref::Ambiguous) { throw Discard{}; }
			auto h = ww::parse_host(s, ns, ec); cmp(ns ? "opaque host" : "host", s, h, ec, w);
			if (w.k != uref::Host::Fail) { Str t = ww::serialize_host(h); if (!t.empty()) { std::error_code e2; check(conv(ww::parse_host(t, ns, e2)) == w, "host ", show(s), " serialises as ", show(t), " which parses differently"); } }
			break;
		}
		case 4: { Str s = junk(g, 8); g.note("opaque ", show(s)); g.nontrivial(s.size() > 1); auto h = ww::parse_opaque_host(s, ec); cmp("opaque host", s, h, ec, uref::opaque(s)); break; }
		case 5:
		{
			Str s = g.chance(1, 2) ? v4text(g) : [&] { Str t; for (int i = 0; i < 4; ++i) { if (i) t += U'.'; t += A(std::to_string(g.chance(1, 10) ? g.in(250, 1100) : g.below(256)).c_str()); } if (g.chance(1, 4)) t.insert(g.below(static_cast<uint32_t>(t.size()) + 1), 1, uchar(g)); return t; }();
			auto p = uref::split(s, U'.'); bool w = p.size() == 4; for (auto& x : p) { if (x.empty() || x.size() > 3 || (x.size() > 1 && x[0] == '0')) { w = false; break; } uint32_t v = 0; for (char32_t c : x) { if (!uref::digit(c)) w = false; v = v * 10 + (c - '0'); } if (v > 255) w = false; }
			g.note("valid IPv4 string? ", show(s)); g.nontrivial(); g.label(w ? "valid IPv4 string" : "not a valid IPv4 string");
			check(ww::is_valid_ipv4_address_string(s) == w, show(s), w ? " is" : " is not", " a valid IPv4 address string");
			break;
		}
		default:
		{
			// names of lower-case letters of one script are their own Unicode form
			static std::u32string const pool[] = { U"abcxyz019", U"\u3042\u3044\u3046\u3048\u304A\u65E5\u672C\u8A9E", U"\u00E9\u00E8\u00FC\u00F6ab", U"\u03B1\u03B2\u03B3", U"\u0430\u0431\u0432", U"\u1100\uAC00\uB098" };
			Str s; uint32_t k = g.in(1, 3); for (uint32_t i = 0; i < k; ++i) { if (i) s += U'.'; auto const& p = pool[g.below(5)]; uint32_t m = g.in(1, 12); s += p[g.below(3)]; for (uint32_t j = 1; j < m; ++j) s += p[g.below(static_cast<uint32_t>(p.size()))]; }
			g.note("domain ", show(s)); g.nontrivial(); g.label("domain to ASCII and back");
			for (bool strict : { false, true })
			{
				Str a = ww::domain_to_ascii(s, strict, ec); check(!ec, show(s), " to ASCII failed");
				for (char32_t c : a) check(c < 0x80, show(s), " to ASCII gives ", show(a));
				Str b = ww::domain_to_unicode(a, ec); check(!ec && b == s, show(s), " to ASCII ", show(a), " and back gives ", show(b));
			}
			break;
		}
		}
	}
	// ---- U04 ------------------------------------------------------------------------------------
	struct SetPair { char const* name; bool (*lib)(char32_t); uref::Set ref; };
	SetPair const sets[] = {
		{ "C0 control", ww::is_c0_control_percent_encode_set, uref::c0 }, { "fragment", ww::is_fragment_percent_encode_set, uref::fragment_set }, { "query", ww::is_query_percent_encode_set, uref::query_set },
		{ "special query", ww::is_special_query_percent_encode_set, uref::squery_set }, { "path", ww::is_path_percent_encode_set, uref::path_set }, { "userinfo", ww::is_userinfo_percent_encode_set, uref::user_set },
		{ "component", ww::is_component_percent_encode_set, uref::component_set }, { "form", ww::application_x_www_form_urlencoded_percent_encode_set, uref::form_set } };
	void u04_sets()
	{
		for (auto& s : sets) for (uint32_t c = 0; c < 0x110000; ++c) check(s.lib(c) == s.ref(c), s.name, " percent-encode set: code point ", c);
		for (uint32_t i = 0; i < 256; ++i) { std::string o; ww::percent_encode(static_cast<uint8_t>(i), std::back_inserter(o)); check(o == uref::pct(static_cast<uint8_t>(i)), "percent-encoding byte ", i, " gives ", o); }
	}
	void u04(Gen& g)
	{
		switch (g.below(4))
		{
		case 0: case 1:
		{
			E e = g.chance(1, 4) ? E::UTF_8 : g.chance(1, 3) ? E::ISO_2022_JP : g.pick(encref::all()); if (!encref::can_encode(e)) throw Discard{};
			Str s; uint32_t n = g.len(0, 24); for (uint32_t i = 0; i < n; ++i) s += g.chance(1, 2) ? uchar(g) : static_cast<char32_t>(g.pick({ 0xA5u, 0x203Eu, 0x3042u, 0x4E00u, 0xE9u, 0x20ACu, 0xAC00u, 0x2603u, 0x1F4A9u, 0x20u, 0x26u, 0x5Cu, 0x7Eu }));
			auto& p = sets[g.below(8)]; bool plus = g.chance(1, 4);
			g.note("encoding ", static_cast<int>(e), " set ", p.name, plus ? " space as plus " : " ", show(s)); g.nontrivial(s.size() > 1);
			Str got = ww::percent_encode_after_encoding(e, s, p.lib, plus), want = uref::pencode(e, s, p.ref, plus);
			check(got == want, show(s), " percent-encodes to ", show(got), " expected ", show(want));
			if (e == E::UTF_8 && !plus)
			{
				check(ww::utf8_percent_encode(s, p.lib) == want, show(s), " UTF-8 percent-encodes differently");
				Str t; for (char32_t c : s) t += ww::utf8_percent_encode(c, p.lib); check(t == want, show(s), " UTF-8 percent-encodes differently by code point");
				// decoding undoes it when % itself is encoded
				if (p.ref('%')) { std::string b; ww::string_percent_decode(got.begin(), got.end(), std::back_inserter(b)); check(b == encref::encode(E::UTF_8, s, true).out, show(s), " does not survive percent coding: ", hex(b)); }
			}
			break;
		}
		case 2:
		{
			std::string s; uint32_t n = g.len(0, 24); for (uint32_t i = 0; i < n; ++i) if (g.chance(1, 3)) { for (char32_t c : pcts(g)) s.push_back(static_cast<char>(c)); } else s.push_back(static_cast<char>(g.chance(1, 2) ? g.pick({ '%', '4', '1', 'f', 'F', 'g', ' ', '+' }) : static_cast<char>(g.below(256))));
			g.note("decode ", show(s)); g.nontrivial(s.size() > 2);
			std::string o; ww::percent_decode(s.begin(), s.end(), std::back_inserter(o)); check(o == uref::pdecode(s), show(s), " percent-decodes to ", show(o), " expected ", show(uref::pdecode(s)));
			std::string all; for (unsigned char c : s) ww::percent_encode(c, std::back_inserter(all)); std::string back; ww::percent_decode(all.begin(), all.end(), std::back_inserter(back)); check(back == s, "percent-encoding every byte of ", show(s), " decodes to ", show(back));
			bool w = s.size() >= 3 && s[0] == '%' && uref::hexv(static_cast<uint8_t>(s[1])) >= 0 && uref::hexv(static_cast<uint8_t>(s[2])) >= 0;
			check(ww::starts_with_percent_encoded_byte(s.begin(), s.end()) == w && ww::is_percent_encoded_byte(s.begin(), s.end()) == (w && s.size() == 3), "percent-encoded byte test of ", show(s));
			break;
		}
		default:
		{
			Str s; uint32_t n = g.len(0, 16); for (uint32_t i = 0; i < n; ++i) { if (g.chance(1, 3)) s += pcts(g); else s += uchar(g); }
			g.note("decode text ", show(s)); g.nontrivial(s.size() > 2);
			std::string o; ww::string_percent_decode(s.begin(), s.end(), std::back_inserter(o)); auto w = uref::pdecode(encref::encode(E::UTF_8, s, true).out);
			check(o == w, show(s), " percent-decodes to ", show(o), " expected ", show(w));
			uint32_t v = g.chance(1, 2) ? g.below(0x110000) : g.below(0x10000); Str d; ww::serialize_integer(v, std::back_inserter(d)); check(d == A(std::to_string(v).c_str()), "integer ", v, " serialises as ", show(d));
		}
		}
	}
	// ---- U05 ------------------------------------------------------------------------------------
	template <class S> S to(Str const& s)
	{
		using C = typename S::value_type; S o;
		if constexpr (sizeof(C) == 4) for (char32_t c : s) o.push_back(static_cast<C>(c));
		else if constexpr (sizeof(C) == 2) { for (char32_t c : s) if (c < 0x10000) o.push_back(static_cast<C>(c)); else { o.push_back(static_cast<C>(0xD800 + ((c - 0x10000) >> 10))); o.push_back(static_cast<C>(0xDC00 + ((c - 0x10000) & 0x3FF))); } }
		else for (char c : encref::encode(E::UTF_8, s, true).out) o.push_back(static_cast<C>(c));
		return o;
	}
	template <class S> void history(Gen& g)
	{
		using U = ww::basic_url<S>;
		Str s = g.chance(1, 2) ? g.pick({ A("http://u:p@h:81/a/b/c?q#f"), A("file:///C:/x/y"), A("file://host/a/b"), A("a:/x/y/z"), A("a://h:9/x/y"), A("mailto:x"), A("https://ex.com"), A("a://u@h"), A("ws://1.2.3.4/"), A("http://[::1]:8/"), A("a:///p") }) : urltext(g);
		std::optional<Url> rb; Str b; bool wb = g.chance(1, 4);
		if (wb) { b = urltext(g); rb = rparse(b); }
		auto want = wb && !rb ? std::nullopt : rparse(s, rb ? &*rb : nullptr);
		g.note("new URL(", show(s), wb ? ", " + show(b) : "", ")");
		std::optional<U> u; bool threw = false;
		try { if (wb) u.emplace(to<S>(s), to<S>(b)); else u.emplace(to<S>(s)); } catch (std::error_code const& e) { threw = true; check(bool(e), "construction failed with an empty error code"); }
		check(threw == !want.has_value(), "constructing from ", show(s), threw ? " failed" : " did not fail");
		if (!want) { g.label("construction fails"); g.nontrivial(s.size() > 3); return; }
		Url r = *want;
		auto agree = [&](std::string const& when)
		{
			auto eq = [&](S const& got, Str const& w, char const* what) { check(got == to<S>(w), when, ": ", what, " is ", show(got), " expected ", show(w)); };
			Str host; if (r.host) host = uref::show(*r.host);
			eq(u->href(), uref::href(r), "href"); eq(to_string(*u), uref::href(r), "to_string"); eq(ww::to_string(*u, true), uref::href(r, true), "to_string without fragment");
			eq(u->protocol(), r.scheme + U":", "protocol"); eq(u->username(), r.user, "username"); eq(u->password(), r.pass, "password");
			eq(u->host(), host + (r.host && r.port ? U":" + uref::ascii(uref::num(*r.port)) : U""), "host"); eq(u->hostname(), host, "hostname"); eq(u->port(), r.port ? uref::ascii(uref::num(*r.port)) : U"", "port");
			eq(u->pathname(), uref::pathstr(r), "pathname"); eq(u->search(), r.query && !r.query->empty() ? U"?" + *r.query : U"", "search"); eq(u->hash(), r.frag && !r.frag->empty() ? U"#" + *r.frag : U"", "hash");
		};
		agree("after construction");
		uint32_t n = g.len(1, 14); g.nontrivial(n >= 2);
		for (uint32_t i = 0; i < n; ++i)
		{
			uint32_t op = g.below(10); Str v; static char const* name[] = { "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "href" };
			switch (op)
			{
			case 0: v = g.chance(4, 5) ? g.pick({ A("http"), A("https"), A("ws"), A("wss"), A("ftp"), A("file"), A("a"), A("b"), A("HTTPS"), A("x+1"), A("https:"), A("http://x"), A("FiLe:") }) : junk(g, 4); break;
			case 1: case 2: v = junk(g, 6); break;
			case 3: case 4: v = g.chance(1, 8) ? Str() : hosttext(g); if (g.chance(1, 4)) v += U":" + porttext(g); if (g.chance(1, 6)) v += g.pick({ A("/x"), A("?x"), A("#x"), A("\\x"), A("@y") }); break;
			case 5: v = porttext(g); break;
			case 6: v = pathtext(g, 5); if (g.chance(1, 4)) v += junk(g, 4); break;
			case 7: v = g.chance(1, 6) ? Str() : (g.chance(1, 2) ? Str(U"?") : Str()) + junk(g, 8); break;
			case 8: v = g.chance(1, 6) ? Str() : (g.chance(1, 2) ? Str(U"#") : Str()) + junk(g, 8); break;
			default: v = urltext(g); break;
			}
			if (g.chance(1, 10))
			{
				// a copy is an object of its own
				uint32_t way = g.below(4); g.note("copy, way ", way); g.label("copy");
				U c(*u);
				if (way == 0) { c.search(to<S>(A("?copy"))); c.hash(to<S>(A("#copy"))); c.username(to<S>(A("copy"))); agree("after changing a copy"); }
				else if (way == 1) { u->search(to<S>(A("?changed"))); u->pathname(to<S>(A("/changed"))); u.emplace(c); agree("after taking a copy back"); }
				else if (way == 2) { U d(std::move(*u)); u.emplace(std::move(d)); agree("after moving away and back"); }
				else { u.reset(); u.emplace(c); agree("after destroying the original"); }
			}
			g.note(name[op], " = ", show(v)); g.label(name[op]);
			S x = to<S>(v); std::string when = std::string("after setting ") + name[op] + " to " + show(v);
			if (op == 9)
			{
				auto w = rparse(v); bool t = false; try { u->href(x); } catch (std::error_code const& e) { t = true; }
				check(t == !w.has_value(), when, t ? " an error was thrown" : " no error was thrown"); if (w) r = *w;
			}
			else
			{
				try { uref::set(r, static_cast<int>(op), v); } catch (uref::Ambiguous) { throw Discard{}; }
				switch (op) { case 0: u->protocol(x); break; case 1: u->username(x); break; case 2: u->password(x); break; case 3: u->host(x); break; case 4: u->hostname(x); break; case 5: u->port(x); break; case 6: u->pathname(x); break; case 7: u->search(x); break; case 8: u->hash(x); break; }
			}
			agree(when);
		}
	}
	void u05(Gen& g) { switch (g.below(4)) { case 0: history<std::string>(g); break; case 1: history<std::u8string>(g); break; case 2: history<std::u16string>(g); break; default: history<std::u32string>(g); } }

	Reg r1({ "U01", "an input counts when it has at least 4 code points", 900000, 6000000, u01, 20 });
	Reg r2({ "U02", "an input counts when it parses and has at least 4 code points", 600000, 4000000, u02, 20 });
	Reg r3({ "U03", "an address or host text counts when it has at least 2 code points", 1500000, 12000000, u03, 20 });
	Reg r4({ "U04", "a text counts when it has at least 2 code points or 3 bytes", 2000000, 20000000, u04, 20, { { "every code point in every percent-encode set, every byte", u04_sets } } });
	Reg r5({ "U05", "a history counts when it has at least 2 assignments, or construction fails on at least 4 code points", 300000, 2500000, u05, 20 });
}
PBT_MAIN

// enc.cpp - character encodings, labels, hooks, streaming decoder, string infrastructure
#include "pbt.hpp"
#include "enc_ref.hpp"
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/infra/infra.hpp>
#include <list>

using namespace pbt;
using namespace encref;
namespace we = wordring::whatwg::encoding;
namespace ww = wordring::whatwg;
using we::io_queue; using we::io_item; using we::error_mode_name;

namespace
{
	std::string ename(E e) { std::string s; for (char32_t c : std::u32string(we::get_encoding_label(e))) s.push_back(static_cast<char>(c)); return s; }
	std::string shex(Bytes const& b) { return hex(std::string(b.begin(), b.end())); }

	// a code point, biased to what legacy encodings can express
	uint32_t scalar(Gen& g)
	{
		switch (g.weighted({ 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1 }))
		{
		case 0: return g.below(0x80);
		case 1: return g.in(0x3040, 0x30FF);
		case 2: return g.in(0x4E00, 0x9FA5);
		case 3: return g.in(0xA0, 0x45F);
		case 4: return g.in(0xAC00, 0xD7A3);
		case 5: return g.in(0xFF00, 0xFFEF);
		case 6: return g.in(0x2000, 0x26FF);
		case 7: return g.pick({ 0x80u, 0x9Fu, 0xA5u, 0x203Eu, 0x2212u, 0xFF0Du, 0xFF61u, 0xFF9Fu, 0xE5E5u, 0xE7C7u, 0x20ACu, 0x1E3Fu, 0x3000u, 0xFFFDu, 0xFEFFu, 0xF780u, 0xF7FFu, 0xE000u, 0xF8FFu, 0x2550u, 0x255Eu, 0x2561u, 0x256Au, 0x5341u, 0x5345u, 0xEu, 0xFu, 0x1Bu, 0x5Cu, 0x7Eu, 0xFFFFu, 0x10000u, 0x10FFFFu, 0xD7FFu, 0x2000Bu, 0x2A6D6u, 0x200CCu });
		case 8: return g.in(0x20000, 0x2FA1D);
		case 9: { uint32_t c = g.below(0x10FFFF + 1 - 0x800); return c < 0xD800 ? c : c + 0x800; }
		default: return g.in(0xE000, 0xF8FF);
		}
	}
	Cps text(Gen& g, uint32_t max) { Cps s; uint32_t n = g.wide(0, max, 2500, 400); for (uint32_t i = 0; i < n; ++i) s.push_back(scalar(g)); return s; }

	Bytes bytes(Gen& g, E e, uint32_t max)
	{
		Bytes b; uint32_t n = g.wide(0, max, 2500, 400);
		static uint8_t const edge[] = { 0, 0x0E, 0x0F, 0x1B, 0x20, 0x21, 0x24, 0x28, 0x2F, 0x30, 0x39, 0x3A, 0x3F, 0x40, 0x41, 0x42, 0x49, 0x4A, 0x5C, 0x5F, 0x60, 0x7E, 0x7F, 0x80, 0x81, 0x8E, 0x8F, 0x9F, 0xA0, 0xA1, 0xA4, 0xBB, 0xBF, 0xC0, 0xC1, 0xC2, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFC, 0xFD, 0xFE, 0xFF };
		for (uint32_t i = 0; i < n; ++i)
		{
			switch (g.weighted({ 5, 4, 3, 4, 2, 2 }))
			{
			case 0: b.push_back(static_cast<uint8_t>(g.pick(edge))); break;
			case 1: b.push_back(static_cast<uint8_t>(g.below(256))); break;
			case 2: b.push_back(static_cast<uint8_t>(g.in(0x20, 0x7E))); break;
			case 3: { Cps s(1, scalar(g)); if (e == E::UTF_16BE || e == E::UTF_16LE) { uint32_t c = s[0]; std::vector<uint32_t> u; if (c >= 0x10000) { u.push_back(0xD800 + ((c - 0x10000) >> 10)); u.push_back(0xDC00 + ((c - 0x10000) & 0x3FF)); } else u.push_back(c); for (auto x : u) { uint8_t h = static_cast<uint8_t>(x >> 8), l = static_cast<uint8_t>(x); if (e == E::UTF_16BE) { b.push_back(h); b.push_back(l); } else { b.push_back(l); b.push_back(h); } } } else if (can_encode(e)) { std::string x = encode(e, s, true).out; b.insert(b.end(), x.begin(), x.end()); } break; }
			case 4: if (e == E::ISO_2022_JP) { b.push_back(0x1B); b.push_back(g.pick<uint8_t>({ 0x28, 0x24 })); b.push_back(g.pick<uint8_t>({ 0x42, 0x4A, 0x49, 0x40 })); } else if (e == E::gb18030 || e == E::GBK) { b.push_back(static_cast<uint8_t>(g.in(0x81, 0xFE))); b.push_back(static_cast<uint8_t>(g.in(0x30, 0x39))); b.push_back(static_cast<uint8_t>(g.in(0x81, 0xFE))); b.push_back(static_cast<uint8_t>(g.in(0x30, 0x39))); } else b.push_back(static_cast<uint8_t>(g.in(0x80, 0xFF))); break;
			case 5: if (!b.empty()) b.pop_back(); break; // truncate what came before
			}
		}
		return b;
	}

	struct Got { Cps out; bool eoq = false; size_t index = 99; };
	template <class Q> Cps drain(Q& q, bool& eoq) { Cps s; eoq = false; while (true) { auto r = q.read(); if (r.m_wait) break; if (r->m_eoq) { eoq = true; break; } s.push_back(static_cast<char32_t>(r->m_value)); } return s; }
	std::string drainb(io_queue<char>& q, bool& eoq) { std::string s; eoq = false; while (true) { auto r = q.read(); if (r.m_wait) break; if (r->m_eoq) { eoq = true; break; } s.push_back(r->m_value); } return s; }

	Got lib_decode(E e, Bytes const& b, error_mode_name mode, std::vector<size_t> const& cuts = {})
	{
		Got r; auto c = we::get_encoding_decoder(e); io_queue<char> in; io_queue<char32_t> out; size_t at = 0;
		for (size_t k : cuts)
		{
			for (; at < k; ++at) in.push(static_cast<char>(b[at]));
			auto v = we::process_queue(c, in, out, mode);
			if (v.index() != 1) { r.index = v.index(); r.out = drain(out, r.eoq); return r; }
		}
		for (; at < b.size(); ++at) in.push(static_cast<char>(b[at]));
		in.push(io_item<char>{ 0, true });
		auto v = we::process_queue(c, in, out, mode);
		r.index = v.index(); r.out = drain(out, r.eoq);
		return r;
	}
	void decode_matches(E e, Bytes const& b, std::vector<size_t> const& cuts, bool fatal)
	{
		Dec d = decode(e, b);
		Got t = lib_decode(e, b, fatal ? error_mode_name::Fatal : error_mode_name::Replacement, cuts);
		if (!fatal || d.errors.empty())
		{
			check(t.index == 0, ename(e), ": decoding ", shex(b), " ended with result ", t.index);
			check(t.out == d.out, ename(e), ": ", shex(b), " decodes to ", show(t.out), " expected ", show(d.out));
			check(t.eoq, ename(e), ": output not terminated");
		}
		else
		{
			check(t.index == 8, ename(e), ": fatal decoding of ", shex(b), " did not report an error");
			check(t.out == d.out.substr(0, d.errors[0]), ename(e), ": fatal decoding of ", shex(b), " produced ", show(t.out), " before the error");
		}
	}
	void e01(Gen& g)
	{
		E e = g.chance(3, 4) ? g.pick({ E::UTF_8, E::GBK, E::gb18030, E::Big5, E::EUC_JP, E::ISO_2022_JP, E::Shift_JIS, E::EUC_KR, E::UTF_16BE, E::UTF_16LE }) : g.pick(all());
		if (g.chance(1, 40))
		{
			// every continuation of one lead byte (and of one three-byte lead)
			Bytes b; if (e == E::EUC_JP && g.chance(1, 2)) b.push_back(0x8F);
			if ((e == E::gb18030 || e == E::GBK) && g.chance(1, 2)) { b.push_back(static_cast<uint8_t>(g.in(0x81, 0xFE))); b.push_back(static_cast<uint8_t>(g.in(0x30, 0x39))); }
			if (e == E::ISO_2022_JP) { b.push_back(0x1B); b.push_back(0x24); b.push_back(0x42); }
			b.push_back(static_cast<uint8_t>(g.below(256))); b.push_back(0);
			g.note(ename(e), " sweep over the last byte after ", shex(Bytes(b.begin(), b.end() - 1)));
			for (uint32_t t = 0; t < 256; ++t) { b.back() = static_cast<uint8_t>(t); decode_matches(e, b, {}, false); }
			g.nontrivial(); g.label("sweep " + ename(e));
			return;
		}
		Bytes b = bytes(g, e, 60); bool fatal = g.chance(1, 4);
		std::vector<size_t> cuts;
		if (!fatal || g.chance(1, 2)) { uint32_t k = g.below(4); for (uint32_t i = 0; i < k; ++i) cuts.push_back(g.below(static_cast<uint32_t>(b.size()) + 1)); std::sort(cuts.begin(), cuts.end()); }
		g.note(ename(e), fatal ? " fatal " : " replacement ", shex(b)); for (auto k : cuts) g.note("  cut at ", k);
		g.nontrivial(std::count_if(b.begin(), b.end(), [](uint8_t c) { return c >= 0x80 || c == 0x1B; }) >= 2); g.label(ename(e)); if (!cuts.empty()) g.label("chunked");
		decode_matches(e, b, cuts, fatal);
	}
	void e01_table()
	{
		// every one- and two-byte sequence of the multi-byte encodings
		for (E e : { E::gb18030, E::Big5, E::EUC_JP, E::Shift_JIS, E::EUC_KR })
			for (uint32_t l = 0x80; l < 256; ++l) { decode_matches(e, { static_cast<uint8_t>(l) }, {}, false); for (uint32_t t = 0; t < 256; ++t) decode_matches(e, { static_cast<uint8_t>(l), static_cast<uint8_t>(t) }, {}, false); }
		for (E e : all()) { Bytes b; for (uint32_t i = 0; i < 256; ++i) decode_matches(e, { static_cast<uint8_t>(i) }, {}, false); }
		for (uint32_t l = 0xA1; l < 0xFF; ++l) for (uint32_t t = 0xA1; t < 0xFF; ++t) decode_matches(E::EUC_JP, { 0x8F, static_cast<uint8_t>(l), static_cast<uint8_t>(t) }, {}, false);
		for (uint32_t l = 0x21; l < 0x7F; ++l) { Bytes b{ 0x1B, 0x24, 0x42 }; for (uint32_t t = 0x21; t < 0x7F; ++t) { b.push_back(static_cast<uint8_t>(l)); b.push_back(static_cast<uint8_t>(t)); } decode_matches(E::ISO_2022_JP, b, {}, false); }
	}

	// ---- E02: encoders --------------------------------------------------------------------------
	void encode_matches(E e, Cps const& s, bool html, std::vector<size_t> const& cuts = {})
	{
		Enc x = encode(e, s, html);
		io_queue<char> out; size_t idx; bool eoq;
		if (html)
		{
			if (cuts.empty()) { auto in = we::to_io_queue_convert(s.begin(), s.end()); idx = we::encode(in, e, out).index(); }
			else
			{
				auto c = we::get_encoder(e); io_queue<char32_t> in; size_t at = 0;
				for (size_t k : cuts) { for (; at < k; ++at) in.push(s[at]); auto v = we::process_queue(c, in, out, error_mode_name::Html); check(v.index() == 1, "encoding stopped at a chunk end"); }
				for (; at < s.size(); ++at) in.push(s[at]);
				in.push(io_item<char32_t>{ 0, true }); idx = we::process_queue(c, in, out, error_mode_name::Html).index();
			}
			std::string t = drainb(out, eoq);
			check(idx == 0 && eoq, ename(e), ": encoding ", show(s), " did not finish");
			check(t == x.out, ename(e), ": ", show(s), " encodes to ", hex(t), " expected ", hex(x.out));
		}
		else
		{
			auto in = we::to_io_queue_convert(s.begin(), s.end()); auto c = we::get_encoder(e); auto v = we::encode_or_fail(in, c, out);
			std::string t = drainb(out, eoq);
			check(eoq, ename(e), ": output not terminated");
			if (x.err == NO) check(v.index() == 0, ename(e), ": encode or fail of ", show(s), " failed");
			else { check(v.index() == 8, ename(e), ": encode or fail of ", show(s), " did not fail"); check(std::get<8>(v).code_point == x.err, ename(e), ": wrong code point in the error"); }
			check(t == x.out, ename(e), ": ", show(s), " encodes to ", hex(t), " expected ", hex(x.out));
		}
		// what was encoded without errors decodes to the same text, except for the documented one-way mappings
		if (x.errors == 0 && e != E::ISO_2022_JP)
		{
			Cps n; for (char32_t c : s)
			{
				if (e == E::Shift_JIS || e == E::EUC_JP) c = c == 0xA5 ? 0x5C : c == 0x203E ? 0x7E : c == 0x2212 ? 0xFF0D : c;
				n.push_back(c);
			}
			Got r = lib_decode(e, Bytes(x.out.begin(), x.out.end()), error_mode_name::Fatal);
			check(r.index == 0 && r.out == n, ename(e), ": round trip of ", show(s), " gives ", show(r.out));
		}
	}
	void e02(Gen& g)
	{
		E e; do e = g.chance(3, 4) ? g.pick({ E::UTF_8, E::GBK, E::gb18030, E::Big5, E::EUC_JP, E::ISO_2022_JP, E::Shift_JIS, E::EUC_KR }) : g.pick(all()); while (!can_encode(e) && !g.replay);
		if (!can_encode(e)) throw Discard{};
		if (g.chance(1, 25))
		{
			uint32_t blk = g.chance(4, 5) ? g.below(0x100) : g.below(0x1100); if (0xD8 <= blk && blk <= 0xDF) blk -= 0x10;
			g.note(ename(e), " every code point of block ", blk); g.nontrivial(); g.label("block " + ename(e));
			for (uint32_t i = 0; i < 256; ++i) encode_matches(e, Cps(1, blk * 256 + i), true);
			return;
		}
		Cps s = text(g, 40); bool html = g.chance(2, 3); std::vector<size_t> cuts;
		if (html && g.chance(1, 2)) { uint32_t k = g.below(4); for (uint32_t i = 0; i < k; ++i) cuts.push_back(g.below(static_cast<uint32_t>(s.size()) + 1)); std::sort(cuts.begin(), cuts.end()); }
		g.note(ename(e), html ? " html " : " or fail ", show(s));
		g.nontrivial(std::count_if(s.begin(), s.end(), [](char32_t c) { return c >= 0x80; }) >= 2); g.label(ename(e));
		encode_matches(e, s, html, cuts);
	}

	void e02_table()
	{
		for (E e : all()) if (can_encode(e))
			for (uint32_t blk = 0; blk < (e == E::gb18030 || e == E::UTF_8 ? 0x1100u : 0x100u); ++blk)
			{
				if (0xD8 <= blk && blk <= 0xDF) continue;
				Cps s; for (uint32_t i = 0; i < 256; ++i) s.push_back(blk * 256 + i);
				try { encode_matches(e, s, true); }
				catch (pbt::Fail const&) { for (char32_t c : s) encode_matches(e, Cps(1, c), true); throw; }
			}
	}

	// ---- E03: labels ----------------------------------------------------------------------------
	void e03(Gen& g)
	{
		std::string s; E want = static_cast<E>(0);
		auto& l = g.pick(ref_labels);
		s = l.label;
		for (auto& c : s) if (g.chance(1, 3)) c = static_cast<char>(toupper(c));
		bool edit = g.chance(1, 2);
		if (edit) for (uint32_t edits = g.weighted({ 0, 6, 2, 1 }); edits-- > 0 && !s.empty();)
		{
			uint32_t p = g.below(static_cast<uint32_t>(s.size()));
			auto& o = g.pick(ref_labels); std::string os = o.label;
			auto sub = [&](char from, char to) { for (auto& c : s) if (c == from) c = to; };
			auto del = [&](char x) { s.erase(std::remove(s.begin(), s.end(), x), s.end()); };
			switch (g.below(14))
			{
			case 0: s.erase(p, 1); break;
			case 1: s.insert(s.begin() + p, g.pick<char>({ ' ', '-', '_', '1', 'x', '8', '\v', '\0', '\t', ':', '"' })); break;
			case 2: s[p] = static_cast<char>(g.in(0x20, 0x7E)); break;
			case 3: s += g.pick<char>({ '0', '5', '-', '\v', '\0' }); break;
			case 4: case 5: s = g.pick<std::string>({ "x-", "x", "X-", "cs", "iso-", "iso", "iso_", "iso-ir-", "ibm", "ibm-", "cp", "cp-", "windows-", "win-", "us-", "mac-", "x-mac-", "unicode-", "l", "_", "\"", "'", "charset=", "utf-" }) + s; break;
			case 6: case 7: s += g.pick<std::string>({ "-e", "-i", "e", "i", "le", "be", "-le", "-be", "_1987", ":1987", ":1988", "-0", "-1", "-jp", "-2004", "\"", "'", ";", ",", "-bom", "n", "-u", "-r" }); break;
			case 8: if (g.chance(1, 2)) sub('-', '_'); else sub('_', '-'); break;
			case 9: if (g.chance(1, 2)) del('-'); else del('_'); break;
			case 10: s = s.substr(0, p) + os.substr(g.below(static_cast<uint32_t>(os.size()) + 1)); break;
			case 11: s = g.chance(1, 2) ? s.substr(p) : s.substr(0, p); break;
			case 12: for (size_t i = 0; i < s.size(); ++i) if ('0' <= s[i] && s[i] <= '9' && g.chance(1, 2)) s[i] = static_cast<char>('0' + g.below(10)); break;
			default: s += g.pick<std::string>({ "", " ", ",", "-", ";" }) + os; break;
			}
		}
		std::string pad = "\t\n\f\r ";
		uint32_t a = g.below(4), b = g.below(4); std::string t;
		for (uint32_t i = 0; i < a; ++i) t.push_back(pad[g.below(5)]);
		t += s;
		for (uint32_t i = 0; i < b; ++i) t.push_back(pad[g.below(5)]);
		if (g.chance(1, 30)) { t.clear(); uint32_t n = g.below(4); for (uint32_t i = 0; i < n; ++i) t.push_back(pad[g.below(5)]); }
		// oracle: strip, lower, look up
		std::string k = t; while (!k.empty() && pad.find(k.back()) != std::string::npos) k.pop_back(); while (!k.empty() && pad.find(k.front()) != std::string::npos) k.erase(0, 1);
		for (auto& c : k) if ('A' <= c && c <= 'Z') c += 32;
		for (auto& x : ref_labels) if (k == x.label) want = x.name;
		std::u32string u(t.begin(), t.end()); std::u16string u16(t.begin(), t.end());
		if (!u.empty() && g.chance(1, 8))
		{
			// no label has a code point outside ASCII, and only ASCII white space is ignored
			uint32_t p = g.below(static_cast<uint32_t>(u.size())); char32_t c = u[p];
			char32_t x = static_cast<char32_t>(g.pick({ 0x212Au, 0x130u, 0x17Fu, 0xFF15u, 0x3000u, 0x1F600u, 0xA0u, 0xFEFFu, 0x2028u, 0x85u }));
			if (g.chance(1, 2)) { if (c == U'k' || c == U'K') x = 0x212A; else if (c == U's' || c == U'S') x = 0x17F; else if (c == U'i' || c == U'I') x = g.chance(1, 2) ? 0x131 : 0x130; else if (0x21 <= c && c < 0x7F) x = g.chance(1, 2) ? c + 0xFEE0 : c + g.pick({ 0x80u, 0x100u, 0x10000u }); u[p] = x; }
			else u.insert(u.begin() + g.below(static_cast<uint32_t>(u.size()) + 1), x);
			want = static_cast<E>(0); u16.clear(); ww::encoding_cast(u, std::back_inserter(u16)); t.clear(); ww::encoding_cast(u, std::back_inserter(t));
		}
		g.note("label ", show(u), " expected ", static_cast<uint32_t>(want));
		check(we::get_encoding_name(u) == want, "label ", show(u), " gives ", static_cast<uint32_t>(we::get_encoding_name(u)), " expected ", static_cast<uint32_t>(want));
		check(we::get_encoding_name(t) == want, "char label"); check(we::get_encoding_name(u16) == want, "char16_t label"); check(ww::get_encoding_name(u) == want, "label");
		g.nontrivial(t != l.label); g.label(want == static_cast<E>(0) ? "no encoding" : "encoding");
	}
	void e03_names()
	{
		static char const* names[] = { "", "utf-8", "ibm866", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-6", "iso-8859-7", "iso-8859-8", "iso-8859-8-i", "iso-8859-10", "iso-8859-13", "iso-8859-14", "iso-8859-15", "iso-8859-16", "koi8-r", "koi8-u", "macintosh", "windows-874", "windows-1250", "windows-1251", "windows-1252", "windows-1253", "windows-1254", "windows-1255", "windows-1256", "windows-1257", "windows-1258", "x-mac-cyrillic", "gbk", "gb18030", "big5", "euc-jp", "iso-2022-jp", "shift_jis", "euc-kr", "replacement", "utf-16be", "utf-16le", "x-user-defined" };
		for (E e : all())
		{
			std::u32string l = we::get_encoding_label(e); std::string n = names[static_cast<uint32_t>(e)];
			check(l == std::u32string(n.begin(), n.end()), "name of encoding ", n, " is ", show(l));
			check(we::get_encoding_name(l) == e, "the name ", n, " is not a label of its encoding");
			check(we::get_output_encoding_name(e) == (can_encode(e) ? e : E::UTF_8), "output encoding of ", n);
		}
		for (auto& x : ref_labels) { std::string s = x.label; check(we::get_encoding_name(std::u32string(s.begin(), s.end())) == x.name, "label ", s); }
	}

	// ---- E04: hooks, queue, streaming decoder ---------------------------------------------------
	void queue_case(Gen& g)
	{
		io_queue<char> q; std::deque<io_item<char>> m; uint32_t n = g.wide(1, 40, 800, 300);
		auto eq = [](io_item<char> const& a, io_item<char> const& b) { return a.m_eoq == b.m_eoq && (a.m_eoq || a.m_value == b.m_value); };
		auto ended = [&] { return !m.empty() && m.back().m_eoq; };
		auto push = [&](io_item<char> i) { if (ended()) { if (!i.m_eoq) m.insert(m.end() - 1, i); } else m.push_back(i); };
		for (uint32_t k = 0; k < n; ++k)
		{
			char c = static_cast<char>(g.in('a', 'z'));
			switch (g.weighted({ 4, 3, 2, 2, 3, 1, 1 }))
			{
			case 0: g.note("push ", c); q.push(c); push({ c, false }); break;
			case 1: { g.note("read"); auto r = q.read(); if (m.empty()) check(r.m_wait, "read of an empty queue does not wait"); else { check(!r.m_wait && eq(*r, m.front()), "read"); if (!m.front().m_eoq) m.pop_front(); } break; }
			case 2: { uint32_t w = g.in(1, 4); g.note("read ", w);
				// enough items, or the end of the queue in reach with at most one position past the last item
				size_t items = m.size() - (ended() ? 1 : 0);
				if (m.size() < w) { if (!ended()) { auto r = q.read(w); check(r.m_wait && r->empty(), "read(n) of a short queue does not wait"); } break; }
				auto r = q.read(w); check(!r.m_wait, "read(n) waits");
				std::vector<io_item<char>> x; for (uint32_t i = 0; i < w && i < items; ++i) { x.push_back(m.front()); m.pop_front(); }
				check(r->size() == x.size(), "read(", w, ") gives ", r->size(), " items"); for (size_t i = 0; i < x.size(); ++i) check(eq((*r)[i], x[i]), "read(n) item ", i);
				break; }
			case 3: { uint32_t w = g.in(1, 5); g.note("peek ", w); auto r = q.peek(w);
				if (m.size() < w && !ended()) { check(r.m_wait, "peek of a short queue does not wait"); break; }
				check(!r.m_wait, "peek waits"); size_t items = m.size() - (ended() ? 1 : 0), x = std::min<size_t>(items, w);
				check(r->size() == x, "peek(", w, ") gives ", r->size(), " items expected ", x); for (size_t i = 0; i < x; ++i) check(eq((*r)[i], m[i]), "peek item ", i);
				break; }
			case 4: { uint32_t w = g.below(4); std::string s; for (uint32_t i = 0; i < w; ++i) s.push_back(static_cast<char>(g.in('A', 'Z'))); g.note(g.verbose ? "prepend " : "", s);
				if (w == 1 && g.chance(1, 2)) q.prepend(s[0]); else q.prepend(s.begin(), s.end());
				for (auto i = s.rbegin(); i != s.rend(); ++i) m.push_front({ *i, false });
				break; }
			case 5: g.note("push end"); q.push(io_item<char>{ 0, true }); push({ 0, true }); break;
			case 6: { uint32_t w = g.below(4); std::string s; for (uint32_t i = 0; i < w; ++i) s.push_back(static_cast<char>(g.in('0', '9'))); g.note("push ", s); q.push(s.begin(), s.end()); for (char x : s) push({ x, false }); break; }
			}
		}
		std::string s, x; we::from_io_queue_convert(q, std::back_inserter(s)); for (auto& i : m) if (i.m_eoq) break; else x.push_back(i.m_value);
		check(s == x, "queue holds ", s, " expected ", x);
		g.nontrivial(n >= 5); g.label("queue");
	}
	void hook_case(Gen& g)
	{
		Bytes b; uint32_t k = g.below(6);
		static Bytes const boms[] = { {}, { 0xEF, 0xBB, 0xBF }, { 0xFE, 0xFF }, { 0xFF, 0xFE }, { 0xEF, 0xBB }, { 0xFE } };
		b = boms[k]; E e = g.chance(1, 2) ? g.pick({ E::UTF_8, E::UTF_16BE, E::UTF_16LE, E::Shift_JIS, E::gb18030, E::windows_1252 }) : g.pick(all());
		E in = k == 1 ? E::UTF_8 : k == 2 ? E::UTF_16BE : k == 3 ? E::UTF_16LE : e;
		Bytes r = bytes(g, g.chance(3, 4) ? in : E::UTF_8, 20); b.insert(b.end(), r.begin(), r.end());
		bool end = g.chance(5, 6);
		auto mk = [&] { io_queue<char> q; for (uint8_t c : b) q.push(static_cast<char>(c)); if (end) q.push(io_item<char>{ 0, true }); return q; };
		auto starts = [&](Bytes const& p) { return p.size() <= b.size() && std::equal(p.begin(), p.end(), b.begin()); };
		E bom = starts(boms[1]) ? E::UTF_8 : starts(boms[2]) ? E::UTF_16BE : starts(boms[3]) ? E::UTF_16LE : static_cast<E>(0);
		g.note("bytes ", shex(b), end ? " then end" : ""); g.nontrivial(b.size() >= 2); g.label(bom == static_cast<E>(0) ? "no BOM" : "BOM");
		{ auto q = mk(); auto x = we::bom_sniff(q); if (!end && b.size() < 3) check(x.m_wait, "BOM sniffing of a short open queue does not wait"); else check(!x.m_wait && *x == bom, "BOM sniffing of ", shex(b), " gives ", static_cast<uint32_t>(*x), " expected ", static_cast<uint32_t>(bom));
			std::string s; we::from_io_queue_convert(q, std::back_inserter(s)); check(s == std::string(b.begin(), b.end()), "BOM sniffing consumed input"); }
		if (!end) return;
		auto rest = [&](size_t n) { return Bytes(b.begin() + n, b.end()); };
		bool eoq;
		{ auto q = mk(); io_queue<char32_t> o; auto v = we::decode(q, e, o); E u = bom == static_cast<E>(0) ? e : bom; Dec d = decode(u, rest(bom == static_cast<E>(0) ? 0 : bom == E::UTF_8 ? 3 : 2)); Cps t = drain(o, eoq);
			check(v.index() == 0 && eoq && t == d.out, "decode as ", ename(e), " of ", shex(b), " gives ", show(t), " expected ", show(d.out)); }
		{ auto q = mk(); io_queue<char32_t> o; auto v = we::utf8_decode(q, o); Dec d = decode(E::UTF_8, rest(bom == E::UTF_8 ? 3 : 0)); Cps t = drain(o, eoq);
			check(v.index() == 0 && eoq && t == d.out, "UTF-8 decode of ", shex(b), " gives ", show(t)); }
		Dec d = decode(E::UTF_8, b);
		{ auto q = mk(); io_queue<char32_t> o; auto v = we::utf8_decode_without_bom(q, o); Cps t = drain(o, eoq); check(v.index() == 0 && eoq && t == d.out, "UTF-8 decode without BOM of ", shex(b), " gives ", show(t)); }
		{ auto q = mk(); io_queue<char32_t> o; auto v = we::utf8_decode_without_bom_or_fail(q, o); Cps t = drain(o, eoq); if (d.errors.empty()) check(v.index() == 0 && eoq && t == d.out, "UTF-8 decode or fail of ", shex(b)); else check(v.index() == 8, "UTF-8 decode or fail of ", shex(b), " did not fail"); }
		{ Cps s; for (char32_t c : d.out) s.push_back(c); auto q = we::to_io_queue_convert(s.begin(), s.end()); io_queue<char> o; auto v = we::utf8_encode(q, o); std::string t = drainb(o, eoq); check(v.index() == 0 && eoq && t == encode(E::UTF_8, s, true).out, "UTF-8 encode of ", show(s)); }
	}
	void decoder_api_case(Gen& g)
	{
		E e; do e = g.chance(1, 2) ? g.pick({ E::UTF_8, E::UTF_16BE, E::UTF_16LE, E::ISO_2022_JP, E::gb18030, E::Shift_JIS }) : g.pick(all()); while (e == E::replacement && !g.replay);
		if (e == E::replacement) throw Discard{};
		bool fatal = g.chance(1, 3), ignore = g.chance(1, 3);
		auto td = g.chance(1, 2) ? we::text_decoder(e, fatal, ignore) : we::text_decoder(we::get_encoding_label(e), fatal, ignore);
		check(td.fatal() == fatal && td.ignore_bom() == ignore && td.encoding() == we::get_encoding_label(e), "decoder attributes");
		uint32_t rounds = g.in(1, 3);
		for (uint32_t r = 0; r < rounds; ++r)
		{
			Bytes b; if (g.chance(1, 3)) { if (e == E::UTF_8) b = { 0xEF, 0xBB, 0xBF }; if (e == E::UTF_16BE) b = { 0xFE, 0xFF }; if (e == E::UTF_16LE) b = { 0xFF, 0xFE }; if (g.chance(1, 4)) { Bytes c = b; b.insert(b.end(), c.begin(), c.end()); } }
			Bytes x = bytes(g, e, 24); b.insert(b.end(), x.begin(), x.end());
			if (fatal && g.chance(1, 2)) { b.clear(); if (e != E::UTF_16BE && e != E::UTF_16LE) { auto s = encode(e, text(g, 8), true).out; b.assign(s.begin(), s.end()); } }
			Dec d = decode(e, b); Cps want = d.out;
			if (!ignore && (e == E::UTF_8 || e == E::UTF_16BE || e == E::UTF_16LE) && !want.empty() && want[0] == 0xFEFF) want.erase(0, 1);
			g.note(ename(e), fatal ? " fatal" : "", ignore ? " ignore-bom" : "", " ", shex(b));
			Cps got; bool thrown = false; size_t at = 0; uint32_t parts = g.below(4);
			try
			{
				for (uint32_t i = 0; i < parts; ++i) { size_t to = at + g.below(static_cast<uint32_t>(b.size() - at) + 1); std::string s(b.begin() + at, b.begin() + to); g.note("  chunk to ", to); got += td.decode(s.begin(), s.end(), true); at = to; }
				std::string s(b.begin() + at, b.end()); if (s.empty() && g.chance(1, 2)) got += td.decode(); else got += td.decode(s.begin(), s.end());
			}
			catch (std::range_error const&) { thrown = true; }
			check(thrown == (fatal && !d.errors.empty()), thrown ? "decoding reported an error" : "decoding did not report an error");
			if (thrown) return; // the state after an error is not specified
			check(got == want, "streaming decoder of ", ename(e), ": ", shex(b), " gives ", show(got), " expected ", show(want));
		}
		g.nontrivial(); g.label("streaming decoder");
	}
	void e04(Gen& g) { switch (g.below(3)) { case 0: queue_case(g); break; case 1: hook_case(g); break; default: decoder_api_case(g); } }

	// ---- E05: conversions between UTF-8, UTF-16 and UTF-32 strings --------------------------------
	template <class S> S to(Cps const& s)
	{
		S r; using C = typename S::value_type;
		for (char32_t c : s)
			if constexpr (sizeof(C) == 4) r.push_back(static_cast<C>(c));
			else if constexpr (sizeof(C) == 2) { if (c < 0x10000) r.push_back(static_cast<C>(c)); else { r.push_back(static_cast<C>(0xD7C0 + (c >> 10))); r.push_back(static_cast<C>(0xDC00 + (c & 0x3FF))); } }
			else for (char b : encode(E::UTF_8, Cps(1, c), true).out) r.push_back(static_cast<C>(b));
		return r;
	}
	template <class A, class B> void cast_pair(Cps const& s)
	{
		A a = to<A>(s); B b = to<B>(s);
		check(ww::encoding_cast<B>(a) == b, "conversion of ", show(s), " from ", sizeof(typename A::value_type), " to ", sizeof(typename B::value_type), " byte units");
		B r; ww::encoding_cast(a.begin(), a.end(), std::back_inserter(r)); check(r == b, "range conversion");
		B r2; ww::encoding_cast(a, std::back_inserter(r2)); check(r2 == b, "container conversion");
		if (s.find(U'\0') == Cps::npos) { B r3; ww::encoding_cast(a.c_str(), std::back_inserter(r3)); check(r3 == b, "C string conversion"); }
		std::basic_string_view<typename A::value_type> v(a); B r4; ww::encoding_cast(v, std::back_inserter(r4)); check(r4 == b, "view conversion");
	}
	template <class A> void cast_from(Cps const& s)
	{
		cast_pair<A, std::u32string>(s); cast_pair<A, std::u16string>(s); cast_pair<A, std::u8string>(s); cast_pair<A, std::string>(s);
		A a = to<A>(s); auto it = a.begin(); Cps back;
		while (it != a.end()) { char32_t c = 0; auto nx = ww::to_code_point(it, a.end(), c); check(nx > it, "no progress"); back.push_back(c); A one; ww::to_string(c, std::back_inserter(one)); check(one == A(it, nx), "code point ", static_cast<uint32_t>(c), " is written differently from how it was read"); it = nx; }
		check(back == s, "reading code points of ", show(s), " gives ", show(back));
	}
	void e05_all()
	{
		for (uint32_t blk = 0; blk < 0x110000; blk += 64)
		{
			if (0xD800 <= blk && blk <= 0xDFFF) continue;
			Cps s; for (uint32_t i = 0; i < 64; ++i) s.push_back(blk + i);
			auto b8 = to<std::u8string>(s); auto b16 = to<std::u16string>(s);
			auto one = [&](bool ok, char const* what) { check(ok, what, " of code points ", blk, " to ", blk + 63); };
			one(ww::encoding_cast<std::u8string>(s) == b8, "UTF-32 to UTF-8"); one(ww::encoding_cast<std::u16string>(s) == b16, "UTF-32 to UTF-16");
			one(ww::encoding_cast<std::u32string>(b8) == s, "UTF-8 to UTF-32"); one(ww::encoding_cast<std::u16string>(b8) == b16, "UTF-8 to UTF-16");
			one(ww::encoding_cast<std::u32string>(b16) == s, "UTF-16 to UTF-32"); one(ww::encoding_cast<std::u8string>(b16) == b8, "UTF-16 to UTF-8");
		}
	}
	void e05(Gen& g)
	{
		Cps s = text(g, 24);
		if (g.chance(1, 3)) for (auto& c : s) c = static_cast<char32_t>(g.pick({ 0x0u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xD7FFu, 0xE000u, 0xFFFDu, 0xFFFFu, 0x10000u, 0x3FFFFu, 0x40000u, 0xFFFFFu, 0x100000u, 0x10FFFFu }));
		g.note(show(s)); g.nontrivial(std::count_if(s.begin(), s.end(), [](char32_t c) { return c >= 0x80; }) >= 2);
		cast_from<std::string>(s); cast_from<std::u8string>(s); cast_from<std::u16string>(s); cast_from<std::u32string>(s);
	}

	// ---- I01: string infrastructure --------------------------------------------------------------
	template <class S> void infra(Gen& g, Cps const& s)
	{
		auto ws = [](char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; };
		auto low = [](Cps x) { for (auto& c : x) if (U'A' <= c && c <= U'Z') c += 32; return x; };
		S a = to<S>(s); using C = typename S::value_type;
		auto same = [&](S const& got, Cps const& want, char const* what) { check(got == to<S>(want), what, " of ", show(s), ": got ", show(got)); };
		{ S r; ww::to_ascii_lowercase(a.begin(), a.end(), std::back_inserter(r)); same(r, low(s), "ASCII lower case"); }
		{ S r; ww::to_ascii_uppercase(a.begin(), a.end(), std::back_inserter(r)); Cps w = s; for (auto& c : w) if (U'a' <= c && c <= U'z') c -= 32; same(r, w, "ASCII upper case"); }
		{ S r; ww::strip_newlines(a.begin(), a.end(), std::back_inserter(r)); Cps w; for (auto c : s) if (c != 10 && c != 13) w.push_back(c); same(r, w, "stripping newlines"); }
		{ S r; ww::normalize_newlines(a.begin(), a.end(), std::back_inserter(r)); Cps w; for (size_t i = 0; i < s.size(); ++i) if (s[i] == 13) { w.push_back(10); if (i + 1 < s.size() && s[i + 1] == 10) ++i; } else w.push_back(s[i]); same(r, w, "normalising newlines"); }
		{ S r; ww::strip_leading_and_trailing_ascii_whitespace(a.begin(), a.end(), std::back_inserter(r)); Cps w = s; while (!w.empty() && ws(w.back())) w.pop_back(); while (!w.empty() && ws(w.front())) w.erase(0, 1); same(r, w, "stripping white space"); }
		{ S r; ww::strip_and_collapse_ascii_whitespace(a.begin(), a.end(), std::back_inserter(r)); Cps w; for (auto c : s) if (!ws(c)) w.push_back(c); else if (!w.empty() && w.back() != 32) w.push_back(32); if (!w.empty() && w.back() == 32) w.pop_back(); same(r, w, "collapsing white space"); }
		{ bool t = true; for (auto c : s) if (c > 0x7F) t = false; check(ww::is_ascii_string(a.begin(), a.end()) == t, "is_ascii_string of ", show(s)); }
		{ Cps x = s; for (auto& c : x) if (g.chance(1, 3)) { if (U'a' <= c && c <= U'z') c -= 32; else if (U'A' <= c && c <= U'Z') c += 32; } if (g.chance(1, 4) && !x.empty()) { if (g.chance(1, 2)) x.pop_back(); else x[g.below(static_cast<uint32_t>(x.size()))] = scalar(g); }
			S b = to<S>(x); bool w = low(s) == low(x); check(ww::is_ascii_case_insensitive_match(a.begin(), a.end(), b.begin(), b.end()) == w, "case-insensitive match of ", show(s), " and ", show(x)); 
			std::u32string b32 = x; check(ww::is_ascii_case_insensitive_match(a.begin(), a.end(), b32.begin(), b32.end()) == w, "case-insensitive match across widths"); }
		auto split = [&](auto pred) { std::vector<Cps> v(1); for (auto c : s) if (pred(c)) v.emplace_back(); else v.back().push_back(c); return v; };
		auto samev = [&](std::vector<S> const& got, std::vector<Cps> const& want, char const* what) { check(got.size() == want.size(), what, " of ", show(s), " gives ", got.size(), " pieces expected ", want.size()); for (size_t i = 0; i < want.size(); ++i) check(got[i] == to<S>(want[i]), what, " of ", show(s), " piece ", i, " is ", show(got[i])); };
		{ char32_t d = s.empty() || g.chance(1, 4) ? U',' : s[g.below(static_cast<uint32_t>(s.size()))]; std::vector<S> v; ww::strictly_split_on_particular_delimiter(a.begin(), a.end(), std::back_inserter(v), d); samev(v, split([d](char32_t c) { return c == d; }), "strict split"); }
		{ std::vector<S> v; ww::split_on_ascii_whitespace(a.begin(), a.end(), std::back_inserter(v)); auto w = split(ws); w.erase(std::remove_if(w.begin(), w.end(), [](Cps const& x) { return x.empty(); }), w.end()); samev(v, w, "white space split"); }
		{ std::vector<S> v; ww::split_on_commas(a.begin(), a.end(), std::back_inserter(v)); auto w = split([](char32_t c) { return c == U','; }); if (w.back().empty()) w.pop_back(); for (auto& x : w) { while (!x.empty() && ws(x.back())) x.pop_back(); while (!x.empty() && ws(x.front())) x.erase(0, 1); } samev(v, w, "comma split"); }
		{ S r; auto it = ww::collect_sequence_of_code_points(a.begin(), a.end(), std::back_inserter(r), [](char32_t c) { return c < 0x3000 && c != U','; }); size_t n = 0; while (n < s.size() && s[n] < 0x3000 && s[n] != U',') ++n; same(r, s.substr(0, n), "collecting code points"); check(S(a.begin(), it) == to<S>(s.substr(0, n)), "position after collecting"); }
		{ auto it = ww::skip_ascii_whitespace(a.begin(), a.end()); size_t n = 0; while (n < s.size() && ws(s[n])) ++n; check(S(it, a.end()) == to<S>(s.substr(n)), "skipping white space of ", show(s)); }
	}
	// code point classes
	void classes(uint32_t c)
	{
		auto is = [&](bool got, bool want, char const* w) { check(got == want, w, " of code point ", c); };
		is(ww::is_surrogate(c), 0xD800 <= c && c <= 0xDFFF, "surrogate"); is(ww::is_scalar_value(c), !(0xD800 <= c && c <= 0xDFFF), "scalar value");
		is(ww::is_noncharacter(c), (0xFDD0 <= c && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE, "noncharacter"); is(ww::is_ascii_code_point(c), c < 0x80, "ASCII");
		is(ww::is_ascii_tab_or_newline(c), c == 9 || c == 10 || c == 13, "tab or newline"); is(ww::is_ascii_white_space(c), c == 9 || c == 10 || c == 12 || c == 13 || c == 32, "white space");
		is(ww::is_c0_control(c), c < 32, "C0 control"); is(ww::is_c0_control_or_space(c), c <= 32, "C0 control or space"); is(ww::is_control(c), c < 32 || (0x7F <= c && c <= 0x9F), "control");
		bool dg = '0' <= c && c <= '9', ua = 'A' <= c && c <= 'Z', la = 'a' <= c && c <= 'z';
		is(ww::is_ascii_digit(c), dg, "digit"); is(ww::is_ascii_upper_hex_digit(c), dg || ('A' <= c && c <= 'F'), "upper hex"); is(ww::is_ascii_lower_hex_digit(c), dg || ('a' <= c && c <= 'f'), "lower hex");
		is(ww::is_ascii_hex_digit(c), dg || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f'), "hex"); is(ww::is_ascii_upper_alpha(c), ua, "upper"); is(ww::is_ascii_lower_alpha(c), la, "lower"); is(ww::is_ascii_alpha(c), ua || la, "alpha"); is(ww::is_ascii_alphanumeric(c), ua || la || dg, "alphanumeric");
	}
	void i01(Gen& g)
	{
		Cps s; uint32_t n = g.wide(0, 24, 1500, 400);
		for (uint32_t i = 0; i < n; ++i) s.push_back(g.chance(2, 3) ? static_cast<char32_t>(g.pick({ 9u, 10u, 12u, 13u, 32u, 11u, 0u, 44u, 65u, 90u, 97u, 122u, 64u, 91u, 96u, 123u, 0x3042u, 0x1F600u, 0xE9u, 0x85u, 0xA0u, 0x3000u, 0x2028u })) : scalar(g));
		g.note(show(s)); g.nontrivial(s.size() >= 3);
		switch (g.below(4)) { case 0: infra<std::string>(g, s); break; case 1: infra<std::u8string>(g, s); break; case 2: infra<std::u16string>(g, s); break; default: infra<std::u32string>(g, s); }
		// bytes
		std::string b; uint32_t k = g.below(12); for (uint32_t i = 0; i < k; ++i) b.push_back(static_cast<char>(g.chance(1, 2) ? g.in(0x40, 0x7B) : g.below(256)));
		std::string lo = b, up = b; for (auto& c : lo) if ('A' <= c && c <= 'Z') c += 32; for (auto& c : up) if ('a' <= c && c <= 'z') c -= 32;
		{ std::string r; ww::to_byte_lowercase(b.begin(), b.end(), std::back_inserter(r)); check(r == lo, "byte lower case of ", show(b)); }
		{ std::string r; ww::to_byte_uppercase(b.begin(), b.end(), std::back_inserter(r)); check(r == up, "byte upper case of ", show(b)); }
		{ std::string x = g.chance(1, 2) ? up : lo; if (g.chance(1, 3) && !x.empty()) x[g.below(static_cast<uint32_t>(x.size()))] ^= 0x20; std::string lx = x; for (auto& c : lx) if ('A' <= c && c <= 'Z') c += 32; check(ww::is_byte_case_insensitive_match(b.begin(), b.end(), x.begin(), x.end()) == (lo == lx), "byte match of ", show(b), " and ", show(x)); }
		{ std::u32string r, w; ww::isomorphic_decode(b.begin(), b.end(), std::back_inserter(r)); for (unsigned char c : b) w.push_back(c); check(r == w, "isomorphic decode of ", show(b)); std::string y; ww::isomorphic_encode(r.begin(), r.end(), std::back_inserter(y)); check(y == b, "isomorphic encode of ", show(b)); }
		// code point classes
		uint32_t c = g.chance(1, 2) ? g.below(0x110000) : g.chance(1, 2) ? g.below(0xA1) : (g.below(0x11) << 16 | g.in(0xFFFC, 0xFFFF));
		if (g.chance(1, 4)) c = g.pick({ 0xD7FFu, 0xD800u, 0xDFFFu, 0xE000u, 0xFDCFu, 0xFDD0u, 0xFDEFu, 0xFDF0u });
		classes(c);
	}
	void i01_classes() { for (uint32_t c = 0; c < 0x110000; ++c) classes(c); }

	Reg r1({ "E01", "a byte sequence counts when it has at least two bytes outside ASCII or an escape; a sweep over all continuations of a lead byte counts", 900000, 8000000, e01, 20, { { "every one- and two-byte sequence of the multi-byte encodings, every three-byte EUC-JP sequence and every ISO-2022-JP pair", e01_table } } });
	Reg r2({ "E02", "a text counts when it has at least two code points outside ASCII; a sweep over a block of 256 code points counts", 600000, 5000000, e02, 20, { { "every code point of the BMP through every encoder, and of all planes through gb18030 and UTF-8", e02_table } } });
	Reg r3({ "E03", "a label counts when it differs from a listed label (case, white space or an edit)", 2500000, 20000000, e03, 20, { { "names and all labels", e03_names } } });
	Reg r4({ "E04", "a case counts when it has at least 5 queue operations, 2 bytes of input, or a streamed decode", 1200000, 12000000, e04, 20 });
	Reg r5({ "E05", "a text counts when it has at least two code points outside ASCII", 600000, 6000000, e05, 20, { { "every scalar value in every pair of forms", e05_all } } });
	Reg r6({ "I01", "a text counts when it has at least 3 code points", 1000000, 8000000, i01, 20, { { "the class predicates on every code point", i01_classes } } });
}
PBT_MAIN

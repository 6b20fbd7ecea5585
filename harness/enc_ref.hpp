// reference implementation of the WHATWG encodings, written from the standard, over whole buffers
#pragma once
#include "pbt.hpp"
#include <wordring/whatwg/encoding/encoding.hpp>
#include <unordered_map>

namespace encref
{
	using wordring::whatwg::encoding::encoding_name;
	using E = encoding_name;
#include "enc_tables.inc"
#include "enc_labels.inc"
	using Bytes = std::vector<uint8_t>;
	using Cps = std::u32string;
	constexpr uint32_t NO = ~0u;

	inline uint32_t const* single(E e)
	{
		switch (e)
		{
		case E::IBM866: return ref_ibm866; case E::ISO_8859_2: return ref_iso_8859_2; case E::ISO_8859_3: return ref_iso_8859_3;
		case E::ISO_8859_4: return ref_iso_8859_4; case E::ISO_8859_5: return ref_iso_8859_5; case E::ISO_8859_6: return ref_iso_8859_6;
		case E::ISO_8859_7: return ref_iso_8859_7; case E::ISO_8859_8: case E::ISO_8859_8_I: return ref_iso_8859_8;
		case E::ISO_8859_10: return ref_iso_8859_10; case E::ISO_8859_13: return ref_iso_8859_13; case E::ISO_8859_14: return ref_iso_8859_14;
		case E::ISO_8859_15: return ref_iso_8859_15; case E::ISO_8859_16: return ref_iso_8859_16; case E::KOI8_R: return ref_koi8_r;
		case E::KOI8_U: return ref_koi8_u; case E::macintosh: return ref_macintosh; case E::windows_874: return ref_windows_874;
		case E::windows_1250: return ref_windows_1250; case E::windows_1251: return ref_windows_1251; case E::windows_1252: return ref_windows_1252;
		case E::windows_1253: return ref_windows_1253; case E::windows_1254: return ref_windows_1254; case E::windows_1255: return ref_windows_1255;
		case E::windows_1256: return ref_windows_1256; case E::windows_1257: return ref_windows_1257; case E::windows_1258: return ref_windows_1258;
		case E::x_mac_cyrillic: return ref_x_mac_cyrillic;
		default: return nullptr;
		}
	}
	template <size_t N> uint32_t at(uint32_t const (&t)[N], uint32_t p) { return p < N ? t[p] : NO; }
	inline uint32_t gb_cp(uint32_t p)
	{
		if ((39419 < p && p < 189000) || 1237575 < p) return NO;
		if (p == 7457) return 0xE7C7;
		uint32_t i = 0; while (i + 1 < std::size(ref_gb_ranges) && ref_gb_ranges[i + 1][0] <= p) ++i;
		return ref_gb_ranges[i][1] + (p - ref_gb_ranges[i][0]);
	}
	inline uint32_t gb_ptr(uint32_t c)
	{
		if (c == 0xE7C7) return 7457;
		uint32_t best = 0; // the range with the largest code point offset not above c
		for (uint32_t i = 0; i < std::size(ref_gb_ranges); ++i) if (ref_gb_ranges[i][1] <= c && ref_gb_ranges[best][1] <= ref_gb_ranges[i][1]) best = i;
		return ref_gb_ranges[best][0] + (c - ref_gb_ranges[best][1]);
	}

	// result of decoding: code points with 0xFFFD for each error; errors: positions (in the output) of errors
	struct Dec { Cps out; std::vector<size_t> errors; };
	constexpr int EOQ = -1;

	class Decoder
	{
	public:
		Decoder(E e, Bytes const& b) : e_(e), q_(b.begin(), b.end()) {}
		Dec run()
		{
			while (!done_)
			{
				int b = EOQ;
				if (!q_.empty()) { b = q_.front(); q_.pop_front(); }
				step(b);
			}
			return std::move(d_);
		}
	private:
		E e_; std::deque<uint8_t> q_; Dec d_; bool done_ = false;
		uint32_t lead_ = 0, second_ = 0, third_ = 0; bool flag_ = false;
		int lb_ = -1; uint32_t ls_ = 0;
		uint32_t need_ = 0, seen_ = 0, cp_ = 0, lo_ = 0x80, hi_ = 0xBF;
		enum S { ascii, roman, kata, leadb, trail, esc0, esc1 } st_ = ascii, ost_ = ascii; bool outf_ = false;

		void emit(uint32_t c) { d_.out.push_back(c); }
		void error() { d_.errors.push_back(d_.out.size()); d_.out.push_back(0xFFFD); }
		void fin() { done_ = true; }
		void pre(int b) { if (b != EOQ) q_.push_front(static_cast<uint8_t>(b)); }
		static bool in(int b, int lo, int hi) { return lo <= b && b <= hi; }

		void step(int b)
		{
			switch (e_)
			{
			case E::UTF_8: return utf8(b);
			case E::GBK: case E::gb18030: return gb(b);
			case E::Big5: return big5(b);
			case E::EUC_JP: return eucjp(b);
			case E::ISO_2022_JP: return iso2022(b);
			case E::Shift_JIS: return sjis(b);
			case E::EUC_KR: return euckr(b);
			case E::replacement: if (b == EOQ || flag_) return fin(); flag_ = true; return error();
			case E::UTF_16BE: case E::UTF_16LE: return utf16(b);
			case E::x_user_defined: if (b == EOQ) return fin(); return emit(b < 0x80 ? b : 0xF780 + b - 0x80);
			default: break;
			}
			if (b == EOQ) return fin();
			if (b < 0x80) return emit(b);
			uint32_t c = single(e_)[b - 0x80];
			if (c == NO) return error();
			emit(c);
		}
		void utf8(int b)
		{
			if (b == EOQ && need_) { need_ = 0; return error(); }
			if (b == EOQ) return fin();
			if (need_ == 0)
			{
				if (b < 0x80) return emit(b);
				if (in(b, 0xC2, 0xDF)) { need_ = 1; cp_ = b & 0x1F; }
				else if (in(b, 0xE0, 0xEF)) { if (b == 0xE0) lo_ = 0xA0; if (b == 0xED) hi_ = 0x9F; need_ = 2; cp_ = b & 0xF; }
				else if (in(b, 0xF0, 0xF4)) { if (b == 0xF0) lo_ = 0x90; if (b == 0xF4) hi_ = 0x8F; need_ = 3; cp_ = b & 7; }
				else return error();
				return;
			}
			if (!in(b, lo_, hi_)) { cp_ = need_ = seen_ = 0; lo_ = 0x80; hi_ = 0xBF; pre(b); return error(); }
			lo_ = 0x80; hi_ = 0xBF;
			cp_ = cp_ << 6 | (b & 0x3F);
			if (++seen_ != need_) return;
			uint32_t c = cp_; cp_ = need_ = seen_ = 0; emit(c);
		}
		void gb(int b)
		{
			if (b == EOQ && !lead_ && !second_ && !third_) return fin();
			if (b == EOQ) { lead_ = second_ = third_ = 0; return error(); }
			if (third_)
			{
				if (!in(b, 0x30, 0x39)) { pre(b); pre(third_); pre(second_); lead_ = second_ = third_ = 0; return error(); }
				uint32_t c = gb_cp((lead_ - 0x81) * 12600 + (second_ - 0x30) * 1260 + (third_ - 0x81) * 10 + b - 0x30);
				lead_ = second_ = third_ = 0;
				if (c == NO) return error();
				return emit(c);
			}
			if (second_)
			{
				if (in(b, 0x81, 0xFE)) { third_ = b; return; }
				pre(b); pre(second_); lead_ = second_ = 0; return error();
			}
			if (lead_)
			{
				if (in(b, 0x30, 0x39)) { second_ = b; return; }
				uint32_t l = lead_, p = NO; lead_ = 0;
				if (in(b, 0x40, 0x7E) || in(b, 0x80, 0xFE)) p = (l - 0x81) * 190 + (b - (b < 0x7F ? 0x40 : 0x41));
				return two(p == NO ? NO : at(ref_gb18030, p), b);
			}
			if (b < 0x80) return emit(b);
			if (b == 0x80) return emit(0x20AC);
			if (in(b, 0x81, 0xFE)) { lead_ = b; return; }
			error();
		}
		void two(uint32_t c, int b) { if (c != NO) return emit(c); if (b < 0x80) pre(b); error(); }
		bool tail(int b) { if (b != EOQ) return false; if (lead_) { lead_ = 0; error(); } else fin(); return true; }
		void big5(int b)
		{
			if (tail(b)) return;
			if (lead_)
			{
				uint32_t l = lead_, p = NO; lead_ = 0;
				if (in(b, 0x40, 0x7E) || in(b, 0xA1, 0xFE)) p = (l - 0x81) * 157 + (b - (b < 0x7F ? 0x40 : 0x62));
				if (p == 1133 || p == 1135 || p == 1164 || p == 1166) { emit(p < 1150 ? 0xCA : 0xEA); return emit(p == 1133 || p == 1164 ? 0x304 : 0x30C); }
				return two(p == NO ? NO : at(ref_big5, p), b);
			}
			if (b < 0x80) return emit(b);
			if (in(b, 0x81, 0xFE)) { lead_ = b; return; }
			error();
		}
		void eucjp(int b)
		{
			if (tail(b)) return;
			if (lead_ == 0x8E && in(b, 0xA1, 0xDF)) { lead_ = 0; return emit(0xFF61 - 0xA1 + b); }
			if (lead_ == 0x8F && in(b, 0xA1, 0xFE)) { flag_ = true; lead_ = b; return; }
			if (lead_)
			{
				uint32_t l = lead_, c = NO; lead_ = 0;
				if (in(l, 0xA1, 0xFE) && in(b, 0xA1, 0xFE)) { uint32_t p = (l - 0xA1) * 94 + b - 0xA1; c = flag_ ? at(ref_jis0212, p) : at(ref_jis0208, p); }
				flag_ = false;
				return two(c, b);
			}
			if (b < 0x80) return emit(b);
			if (b == 0x8E || b == 0x8F || in(b, 0xA1, 0xFE)) { lead_ = b; return; }
			error();
		}
		void sjis(int b)
		{
			if (tail(b)) return;
			if (lead_)
			{
				uint32_t l = lead_, p = NO; lead_ = 0;
				if (in(b, 0x40, 0x7E) || in(b, 0x80, 0xFC)) p = (l - (l < 0xA0 ? 0x81 : 0xC1)) * 188 + b - (b < 0x7F ? 0x40 : 0x41);
				if (p != NO && 8836 <= p && p <= 10715) return emit(0xE000 - 8836 + p);
				return two(p == NO ? NO : at(ref_jis0208, p), b);
			}
			if (b <= 0x80) return emit(b);
			if (in(b, 0xA1, 0xDF)) return emit(0xFF61 - 0xA1 + b);
			if (in(b, 0x81, 0x9F) || in(b, 0xE0, 0xFC)) { lead_ = b; return; }
			error();
		}
		void euckr(int b)
		{
			if (tail(b)) return;
			if (lead_)
			{
				uint32_t l = lead_, c = NO; lead_ = 0;
				if (in(b, 0x41, 0xFE)) c = at(ref_euc_kr, (l - 0x81) * 190 + b - 0x41);
				return two(c, b);
			}
			if (b < 0x80) return emit(b);
			if (in(b, 0x81, 0xFE)) { lead_ = b; return; }
			error();
		}
		void utf16(int b)
		{
			if (b == EOQ) { if (lb_ >= 0 || ls_) { lb_ = -1; ls_ = 0; return error(); } return fin(); }
			if (lb_ < 0) { lb_ = b; return; }
			uint32_t u = e_ == E::UTF_16BE ? lb_ << 8 | b : b << 8 | lb_;
			int first = lb_; lb_ = -1;
			if (ls_)
			{
				uint32_t l = ls_; ls_ = 0;
				if (0xDC00 <= u && u <= 0xDFFF) return emit(0x10000 + (l - 0xD800) * 0x400 + (u - 0xDC00));
				pre(b); pre(first); return error();
			}
			if (0xD800 <= u && u <= 0xDBFF) { ls_ = u; return; }
			if (0xDC00 <= u && u <= 0xDFFF) return error();
			emit(u);
		}
		void iso2022(int b)
		{
			switch (st_)
			{
			case ascii: case roman:
				if (b == 0x1B) { st_ = esc0; return; }
				if (st_ == roman && b == 0x5C) { outf_ = false; return emit(0xA5); }
				if (st_ == roman && b == 0x7E) { outf_ = false; return emit(0x203E); }
				if (in(b, 0, 0x7F) && b != 0xE && b != 0xF) { outf_ = false; return emit(b); }
				if (b == EOQ) return fin();
				outf_ = false; return error();
			case kata:
				if (b == 0x1B) { st_ = esc0; return; }
				if (in(b, 0x21, 0x5F)) { outf_ = false; return emit(0xFF61 - 0x21 + b); }
				if (b == EOQ) return fin();
				outf_ = false; return error();
			case leadb:
				if (b == 0x1B) { st_ = esc0; return; }
				if (in(b, 0x21, 0x7E)) { outf_ = false; lead_ = b; st_ = trail; return; }
				if (b == EOQ) return fin();
				outf_ = false; return error();
			case trail:
				if (b == 0x1B) { st_ = esc0; return error(); }
				if (in(b, 0x21, 0x7E)) { st_ = leadb; uint32_t c = at(ref_jis0208, (lead_ - 0x21) * 94 + b - 0x21); if (c == NO) return error(); return emit(c); }
				st_ = leadb; return error(); // end of queue: it is read again
			case esc0:
				if (b == 0x24 || b == 0x28) { lead_ = b; st_ = esc1; return; }
				pre(b); outf_ = false; st_ = ost_; return error();
			case esc1:
			{
				uint32_t l = lead_; lead_ = 0; int s = -1;
				if (l == 0x28 && b == 0x42) s = ascii;
				if (l == 0x28 && b == 0x4A) s = roman;
				if (l == 0x28 && b == 0x49) s = kata;
				if (l == 0x24 && (b == 0x40 || b == 0x42)) s = leadb;
				if (s >= 0) { st_ = ost_ = static_cast<S>(s); bool o = outf_; outf_ = true; if (o) error(); return; }
				pre(b); pre(l); outf_ = false; st_ = ost_; return error();
			}
			}
		}
	};
	inline Dec decode(E e, Bytes const& b) { return Decoder(e, b).run(); }

	// ---- encoders -------------------------------------------------------------------------------
	using Rev = std::unordered_map<uint32_t, uint32_t>;
	template <size_t N> Rev rev(uint32_t const (&t)[N], uint32_t from = 0, uint32_t xlo = 1, uint32_t xhi = 0, std::set<uint32_t> last = {})
	{
		Rev r;
		for (uint32_t p = from; p < N; ++p) if (t[p] != NO && !(xlo <= p && p <= xhi)) { if (last.count(t[p])) r[t[p]] = p; else r.emplace(t[p], p); }
		return r;
	}
	inline Rev const& r_jis0208() { static Rev r = rev(ref_jis0208); return r; }
	inline Rev const& r_sjis() { static Rev r = rev(ref_jis0208, 0, 8272, 8835); return r; }
	inline Rev const& r_gb() { static Rev r = rev(ref_gb18030); return r; }
	inline Rev const& r_kr() { static Rev r = rev(ref_euc_kr); return r; }
	inline Rev const& r_big5() { static Rev r = rev(ref_big5, (0xA1 - 0x81) * 157, 1, 0, { 0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345 }); return r; }
	inline Rev const& r_single(E e)
	{
		static std::map<E, Rev> m;
		auto it = m.find(e);
		if (it == m.end()) { Rev r; auto t = single(e); for (uint32_t i = 0; i < 128; ++i) if (t[i] != NO) r.emplace(t[i], i + 0x80); it = m.emplace(e, std::move(r)).first; }
		return it->second;
	}
	inline uint32_t find(Rev const& r, uint32_t c) { auto it = r.find(c); return it == r.end() ? NO : it->second; }

	// html: numeric references for what cannot be encoded; otherwise stop at the first one (bytes so far, code point in err)
	struct Enc { std::string out; uint32_t err = NO; uint32_t errors = 0; std::vector<std::pair<size_t, uint32_t>> refs; };
	inline Enc encode(E e, Cps const& in, bool html)
	{
		Enc r; int st = 0; // ISO-2022-JP: 0 ASCII, 1 Roman, 2 jis0208
		auto put = [&](auto... b) { (r.out.push_back(static_cast<char>(b)), ...); };
		auto error = [&](uint32_t c) { ++r.errors; if (html) { r.refs.push_back({ r.out.size(), c }); r.out += "&#" + std::to_string(c) + ";"; return true; } r.err = c; return false; };
		for (size_t i = 0; i < in.size(); ++i)
		{
			uint32_t c = in[i];
			if (e == E::ISO_2022_JP)
			{
				if (st != 2 && (c == 0xE || c == 0xF || c == 0x1B)) { if (!error(0xFFFD)) return r; continue; }
				if (st == 0 && c < 0x80) { put(c); continue; }
				if (st == 1 && ((c < 0x80 && c != 0x5C && c != 0x7E) || c == 0xA5 || c == 0x203E)) { put(c < 0x80 ? c : c == 0xA5 ? 0x5C : 0x7E); continue; }
				if (c < 0x80 && st != 0) { st = 0; put(0x1B, 0x28, 0x42); --i; continue; }
				if ((c == 0xA5 || c == 0x203E) && st != 1) { st = 1; put(0x1B, 0x28, 0x4A); --i; continue; }
				uint32_t d = c == 0x2212 ? 0xFF0D : 0xFF61 <= c && c <= 0xFF9F ? ref_iso_2022_jp_katakana[c - 0xFF61] : c;
				uint32_t p = find(r_jis0208(), d);
				if (p == NO) { if (st == 2) { st = 0; put(0x1B, 0x28, 0x42); --i; continue; } if (!error(d)) return r; continue; }
				if (st != 2) { st = 2; put(0x1B, 0x24, 0x42); }
				put(p / 94 + 0x21, p % 94 + 0x21);
				continue;
			}
			if (c < 0x80) { put(c); continue; }
			uint32_t p = NO;
			switch (e)
			{
			case E::UTF_8:
				if (c < 0x800) put(0xC0 | c >> 6, 0x80 | (c & 0x3F)); else if (c < 0x10000) put(0xE0 | c >> 12, 0x80 | (c >> 6 & 0x3F), 0x80 | (c & 0x3F));
				else put(0xF0 | c >> 18, 0x80 | (c >> 12 & 0x3F), 0x80 | (c >> 6 & 0x3F), 0x80 | (c & 0x3F));
				continue;
			case E::x_user_defined: if (0xF780 <= c && c <= 0xF7FF) { put(c - 0xF780 + 0x80); continue; } break;
			case E::GBK: case E::gb18030:
				if (c == 0xE5E5) break;
				if (e == E::GBK && c == 0x20AC) { put(0x80); continue; }
				p = find(r_gb(), c);
				if (p != NO) { uint32_t t = p % 190; put(p / 190 + 0x81, t + (t < 0x3F ? 0x40 : 0x41)); continue; }
				if (e == E::GBK) break;
				p = gb_ptr(c); put(p / 12600 + 0x81, p / 1260 % 10 + 0x30, p / 10 % 126 + 0x81, p % 10 + 0x30);
				continue;
			case E::Big5: p = find(r_big5(), c); if (p != NO) { uint32_t t = p % 157; put(p / 157 + 0x81, t + (t < 0x3F ? 0x40 : 0x62)); continue; } break;
			case E::EUC_KR: p = find(r_kr(), c); if (p != NO) { put(p / 190 + 0x81, p % 190 + 0x41); continue; } break;
			case E::EUC_JP: case E::Shift_JIS:
				if (e == E::Shift_JIS && c == 0x80) { put(c); continue; }
				if (c == 0xA5) { put(0x5C); continue; }
				if (c == 0x203E) { put(0x7E); continue; }
				if (0xFF61 <= c && c <= 0xFF9F) { if (e == E::EUC_JP) put(0x8E); put(c - 0xFF61 + 0xA1); continue; }
				if (c == 0x2212) c = 0xFF0D;
				if (e == E::EUC_JP) { p = find(r_jis0208(), c); if (p != NO) { put(p / 94 + 0xA1, p % 94 + 0xA1); continue; } }
				else { p = find(r_sjis(), c); if (p != NO) { uint32_t l = p / 188, t = p % 188; put(l + (l < 0x1F ? 0x81 : 0xC1), t + (t < 0x3F ? 0x40 : 0x41)); continue; } }
				break;
			default: p = find(r_single(e), c); if (p != NO) { put(p); continue; } break;
			}
			if (!error(c)) return r;
		}
		if (st != 0) put(0x1B, 0x28, 0x42);
		return r;
	}
	inline std::vector<E> const& all() { static std::vector<E> v; if (v.empty()) for (uint32_t i = 1; i <= static_cast<uint32_t>(E::x_user_defined); ++i) v.push_back(static_cast<E>(i)); return v; }
	inline bool can_encode(E e) { return e != E::replacement && e != E::UTF_16BE && e != E::UTF_16LE; }
}

// html.cpp - HTML: tokenization, tree construction, serialization, encoding of byte input
#include "pbt.hpp"
#include "html_ref.hpp"
#include "enc_ref.hpp"
#include <list>
#include <deque>
#include <wordring/html/simple_html.hpp>
#include <wordring/tree/tree.hpp>

using namespace pbt;
namespace html = wordring::html;
namespace hp = wordring::whatwg::html::parsing;
using htmlref::U; using htmlref::W; using htmlref::A; using htmlref::Node;

namespace
{
	template <typename S> U u32(S const& s) { return wordring::encoding_cast<U>(s); }

	// ---- the library's tree as reference nodes
	std::string ns_of(wordring::html::ns_name n)
	{
		using N = wordring::html::ns_name;
		switch (n) { case N::HTML: return "html"; case N::MathML: return "math"; case N::SVG: return "svg"; case N::XLink: return "xlink"; case N::XML: return "xml"; case N::XMLNS: return "xmlns"; default: return static_cast<uint32_t>(n) == 0 ? "" : "?"; }
	}
	template <typename It> int conv(It it, std::vector<Node>& n, int parent)
	{
		int me = static_cast<int>(n.size()); n.emplace_back();
		{
			Node& e = n.back(); e.parent = parent;
			if (it->is_document()) e.t = Node::Document;
			else if (it->is_document_type()) { e.t = Node::Doctype; e.name = u32(it->name()); }
			else if (it->is_text()) { e.t = Node::Text; e.data = u32(it->data()); }
			else if (it->is_comment()) { e.t = Node::Comment; e.data = u32(it->data()); }
			else if (it->is_element())
			{
				e.t = Node::Element; e.ns = ns_of(it->namespace_uri_name()); e.name = u32(it->local_name()); for (char32_t c : e.name) e.n8 += c < 0x80 ? static_cast<char>(c) : '?';
				for (auto a = it->begin(); a != it->end(); ++a) e.attrs.push_back({ ns_of(a->namespace_uri_name()), u32(a->prefix()), u32(a->local_name()), u32(a->value()) });
			}
			else fail("a node of unknown kind in the tree");
		}
		for (auto c = it.begin(); c != it.end(); ++c)
		{
			if (c.parent() != it) fail("a child's parent is another node");
			int k = conv(c, n, me); n[me].kids.push_back(k);
		}
		return me;
	}
	std::string text_of(std::vector<Node> const& n) { std::string r; htmlref::dump(n, 0, 0, r); return r; }
	template <typename It> std::string text_of(It it) { std::vector<Node> n; conv(it, n, -1); return text_of(n); }
	std::string mode_of(wordring::html::document_mode_name m)
	{
		using M = wordring::html::document_mode_name;
		return m == M::NoQuirks ? "no-quirks" : m == M::Quirks ? "quirks" : m == M::LimitedQuirks ? "limited-quirks" : "?";
	}

	// ---- generators -----------------------------------------------------------------------------------
	char const* const kThemes[][40] = {
		{ "b", "i", "em", "a", "p", "div", "b", "a", "nobr", "font", "table", "li", "u", nullptr },
		{ "table", "tr", "td", "th", "tbody", "thead", "tfoot", "caption", "col", "colgroup", "b", "div", "p", "form", "input", "select", "a", nullptr },
		{ "select", "option", "optgroup", "input", "table", "tr", "td", "div", "keygen", "textarea", "script", "hr", nullptr },
		{ "template", "table", "tr", "td", "col", "b", "div", "tbody", "caption", "select", "form", "frameset", "body", nullptr },
		{ "svg", "math", "mi", "mo", "annotation-xml", "foreignobject", "desc", "title", "p", "b", "font", "script", "mglyph", "malignmark", "table", "lineargradient", "g", "td", "select", "svg", "math", nullptr },
		{ "frameset", "frame", "noframes", "body", "html", "head", "div", "input", "p", nullptr },
		{ "html", "head", "body", "title", "meta", "link", "base", "noscript", "style", "script", "template", "noframes", "bgsound", "p", nullptr },
		{ "ul", "ol", "li", "dl", "dd", "dt", "p", "address", "div", "button", "b", "section", "table", "td", nullptr },
		{ "ruby", "rb", "rt", "rtc", "rp", "p", "span", "b", "option", "optgroup", nullptr },
		{ "form", "input", "button", "div", "template", "table", "select", "p", "form", nullptr },
		{ "h1", "h2", "h3", "p", "pre", "listing", "div", "hr", "br", "img", "image", "wbr", "xmp", "plaintext", "iframe", "noembed", nullptr },
		{ "applet", "marquee", "object", "b", "p", "a", "table", "td", "div", "button", nullptr },
		{ "x-y", "custom", "b", "div", "main", "nav", "details", "summary", "dialog", "center", "fieldset", "figure", "menu", "param", "source", "track", "area", "embed", "hgroup", "article", nullptr },
		{ "table", "td", "template", "select", "template", "td", "option", "select", nullptr },
		{ "select", "template", "table", "td", "script", "input", "caption", nullptr },
		{ "template", "tr", "td", "col", "tbody", "template", "caption", "colgroup", nullptr },
		{ "b", "b", "b", "i", "p", "div", "b", "a", nullptr },
		{ "svg", "foreignobject", "p", "table", "td", "desc", "title", "b", "a", nullptr },
		{ "a", "table", "td", "a", "b", "tr", "p", nullptr },
		{ "body", "html", "frameset", "template", "head", "p", "noscript", "frame", nullptr } };
	char const* const kAttrs[] = { "id", "class", "type", "color", "href", "encoding", "xlink:href", "xml:lang", "xmlns", "xmlns:xlink", "definitionurl", "viewbox", "a", "b", "face", "size", "xlink:title", "attributename", "charset" };
	char const* const kVals[] = { "", "a", "hidden", "HIDDEN", "text/html", "application/xhtml+xml", "x y", "&amp;", "&lt", "&notit;", "a&b=c", "red", "&quot;", "text" };
	char const* const kRefs[] = { "&amp;", "&amp", "&lt;", "&notin;", "&notit;", "&not", "&#65;", "&#x41;", "&#x80;", "&#0;", "&#xD800;", "&#x110000;", "&#", "&#x", "&", "&x;", "&nGt;", "&acE;", "&NotEqualTilde;", "&#13;", "&#x9f", "&AMP", "&ampx", "&unknown;", "&copy=", "&#99999999999;", "&#10;", "&nbsp;" };

	char const* const kAllNames[] = { "address", "annotation-xml", "applet", "area", "article", "aside", "b", "base", "basefont", "bgsound", "big", "blockquote", "body", "br", "button", "caption", "center", "code", "col", "colgroup", "dd", "desc", "details", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "img", "input", "keygen", "li", "link", "listing", "main", "malignmark", "marquee", "menu", "meta", "mglyph", "mi", "mn", "mo", "ms", "mtext", "nav", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "rb", "rp", "rt", "rtc", "ruby", "s", "script", "section", "select", "small", "source", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "tt", "u", "ul", "var", "wbr", "xmp" };
	char const* const kSvgNames[] = { "altglyph", "altglyphdef", "altglyphitem", "animatecolor", "animatemotion", "animatetransform", "clippath", "feblend", "fecolormatrix", "fecomponenttransfer", "fecomposite", "feconvolvematrix", "fediffuselighting", "fedisplacementmap", "fedistantlight", "fedropshadow", "feflood", "fefunca", "fefuncb", "fefuncg", "fefuncr", "fegaussianblur", "feimage", "femerge", "femergenode", "femorphology", "feoffset", "fepointlight", "fespecularlighting", "fespotlight", "fetile", "feturbulence", "foreignobject", "glyphref", "lineargradient", "radialgradient", "textpath" };
	char const* const kForeignAttrs[] = { "attributename", "attributetype", "basefrequency", "baseprofile", "calcmode", "clippathunits", "diffuseconstant", "edgemode", "filterunits", "glyphref", "gradienttransform", "gradientunits", "kernelmatrix", "kernelunitlength", "keypoints", "keysplines", "keytimes", "lengthadjust", "limitingconeangle", "markerheight", "markerunits", "markerwidth", "maskcontentunits", "maskunits", "numoctaves", "pathlength", "patterncontentunits", "patterntransform", "patternunits", "pointsatx", "pointsaty", "pointsatz", "preservealpha", "preserveaspectratio", "primitiveunits", "refx", "refy", "repeatcount", "repeatdur", "requiredextensions", "requiredfeatures", "specularconstant", "specularexponent", "spreadmethod", "startoffset", "stddeviation", "stitchtiles", "surfacescale", "systemlanguage", "tablevalues", "targetx", "targety", "textlength", "viewbox", "viewtarget", "xchannelselector", "ychannelselector", "zoomandpan", "xlink:actuate", "xlink:arcrole", "xlink:href", "xlink:role", "xlink:show", "xlink:title", "xlink:type", "xml:lang", "xml:space", "xml:base", "xmlns", "xmlns:xlink", "xmlns:foo", "definitionurl" };
	U cased(Gen& g, U s) { if (g.chance(1, 10)) for (auto& c : s) if (U'a' <= c && c <= U'z' && g.chance(1, 2)) c -= 32; return s; }
	U reference(Gen& g)
	{
		if (g.chance(2, 3)) return W(g.pick(kRefs));
		auto const& e = htmlref::entities[g.below(std::size(htmlref::entities))]; U s = U"&" + W(e.name);
		if (g.chance(1, 3)) { if (s.back() == U';') s.pop_back(); if (g.chance(1, 3)) s.pop_back(); s += g.pick({ U"", U"x", U"=", U";", U" ", U"1", U"&" }); }
		return s;
	}
	U words(Gen& g)
	{
		U s; uint32_t n = g.wide(1, 4, 300, 1500);
		for (uint32_t i = 0; i < n; ++i)
			switch (g.weighted({ 10, 5, 1, 3, 2, 1, 1 }))
			{
			case 0: s += g.pick({ U'a', U'b', U'x', U'1' }); break;
			case 1: s += g.pick({ U' ', U'\n', U'\t', U'\f', U'\r', U' ' }); break;
			case 2: s += U'\0'; break;
			case 3: s += reference(g); break;
			case 4: s += g.pick({ char32_t(0xE9), char32_t(0x3042), char32_t(0x1F600), char32_t(0xA0), char32_t(0xFFFF), char32_t(0x85) }); break;
			case 5: s += U"\r\n"; break;
			default: s += g.pick({ U"<", U"</", U">", U"<3", U"]]>", U"-->", U"\"", U"'", U"=", U"/" }); break;
			}
		return s;
	}
	U attributes(Gen& g)
	{
		U s; uint32_t n = g.weighted({ 12, 5, 2, 1 }); if (g.chance(1, 1000)) n = g.in(4, 60);
		for (uint32_t i = 0; i < n; ++i)
		{
			s += g.pick({ U" ", U" ", U" ", U"\n", U"/", U"  " }); s += cased(g, W(g.chance(1, 4) ? g.pick(kForeignAttrs) : g.pick(kAttrs)));
			if (g.chance(1, 5)) continue;
			s += g.pick({ U"=", U"=", U"=", U" = ", U"=\n" }); U v = W(g.pick(kVals));
			switch (g.below(3)) { case 0: s += U'"' + v + U'"'; break; case 1: s += U'\'' + v + U'\''; break; default: s += v; }
		}
		return s;
	}
	U comment(Gen& g) { return W(g.pick({ "<!--c-->", "<!---->", "<!-->", "<!--->", "<!--a--b-->", "<!--x--!>", "<!--x--!-->", "<!--<!--x-->", "<!--<!-->", "<!--a-", "<!--a--", "<!-", "<!x>", "<?pi?>", "</ x>", "</>", "<![CDATA[x]]>", "<![CDATA[a]]b]]]>", "<![CDATA[", "<!--\n-->", "<!--<!->-->", "<!--a<b-->" })); }
	U doctype(Gen& g)
	{
		switch (g.weighted({ 5, 4, 2 }))
		{
		case 0: return W(g.pick({ "<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE>", "<!DOCTYPE html SYSTEM \"about:legacy-compat\">", "<!DOCTYPE html PUBLIC \"\" \"\">", "<!DOCTYPE x>", "<!DOCTYPE html x>", "<!DOCTYPEhtml>", "<!DOCTYPE html PUBLIC>", "<!DOCTYPE html PUBLIC \"a>", "<!DOCTYPE html SYSTEM 'b'x>", "<!DOCTYPE html PUBLIC \"html\">", "<!DOCTYPE html SYSTEM \"http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd\">", "<!DOCTYPE html PUBLIC \"-//W3O//DTD W3 HTML Strict 3.0//EN//\">", "<!DOCTYPE html PUBLIC '-/W3C/DTD HTML 4.0 Transitional/EN'>" }));
		case 1: return U"<!DOCTYPE HTML PUBLIC \"" + W(g.pick({ "-//W3C//DTD HTML 4.01 Transitional//EN", "-//W3C//DTD HTML 4.01 Frameset//EN", "-//W3C//DTD XHTML 1.0 Transitional//EN", "-//w3c//dtd xhtml 1.0 frameset//EN", "-//W3C//DTD HTML 4.01//EN", "-//W3C//DTD HTML 3.2 Final//EN", "-//IETF//DTD HTML//EN", "-//W3C//DTD HTML 4.0 Transitional//", "-//AS//DTD HTML 3.0 asWedit + extensions//", "-//Spyglass//DTD HTML 2.0 Extended//X", "-//W3C//DTD HTML 4.0 Strict//EN", "-//WebTechs//DTD Mozilla HTML//EN", "-//Netscape Comm. Corp.//DTD Strict HTML//", "+//Silmaril//dtd html Pro v0r11 19970101//EN" })) + W(g.pick({ "\">", "\" \"\">", "\" \"http://www.w3.org/TR/html4/loose.dtd\">", "\"'s'>", "\" x>" }));
		default: { U s = U"<!DOCTYPE" ; uint32_t n = g.len(0, 6); for (uint32_t i = 0; i < n; ++i) s += g.pick({ U" ", U"html", U"PUBLIC", U"system", U"\"a\"", U"'b'", U"\"", U"'", U"x", U"\n", U"\"\"", U"h\0"}); if (g.chance(7, 8)) s += U">"; return s; }
		}
	}
	U markup(Gen& g, uint32_t max)
	{
		U s; auto const& th = kThemes[g.below(std::size(kThemes))]; auto const& th2 = kThemes[g.below(std::size(kThemes))];
		size_t c1 = 0, c2 = 0; while (th[c1]) ++c1; while (th2[c2]) ++c2;
		std::vector<U> open; uint32_t n = g.wide(1, max, 250, 400);
		if (g.chance(1, 2)) s += doctype(g);
		for (uint32_t i = 0; i < n; ++i)
		{
			U name;
			switch (g.weighted({ 30, 6, 2, std::strcmp(th[0], "svg") ? 0u : 3u })) { case 0: name = W(th[g.below(c1)]); break; case 1: name = W(th2[g.below(c2)]); break; case 2: name = W(g.pick(kAllNames)); break; default: name = W(g.pick(kSvgNames)); }
			if (g.chance(1, 400)) { uint32_t k = g.in(5, 120); U t = cased(g, name), a = g.chance(1, 2) ? U() : attributes(g); for (uint32_t j = 0; j < k; ++j) s += U"<" + t + a + U">"; g.label("repeated tag"); continue; }
			switch (g.weighted({ 40, 22, 14, 3, 1, 2 }))
			{
			case 0:
				s += U"<" + cased(g, name) + attributes(g) + (g.chance(1, 15) ? U"/" : U"") + (g.chance(1, 60) ? U"" : U">"); open.push_back(name);
				if (name == U"script" || name == U"style" || name == U"title" || name == U"textarea" || name == U"xmp" || name == U"noframes" || name == U"iframe" || name == U"noembed")
				{
					if (g.chance(1, 2)) s += g.pick({ U"x", U"<b>", U"&amp;", U"<!--", U"<!--<script>", U"-->", U"\n\n", U"\0", U"</", U"</x>", U"<!--<script></script>", U"<!-- --" });
					if (g.chance(5, 6)) s += U"</" + cased(g, name) + U">";
				}
				break;
			case 1: if (!open.empty() && g.chance(2, 3)) { uint32_t k = g.below(std::min<size_t>(open.size(), 4)); name = open[open.size() - 1 - k]; open.erase(open.end() - 1 - k); } s += U"</" + cased(g, name) + (g.chance(1, 20) ? attributes(g) : U"") + (g.chance(1, 60) ? U"" : U">"); break;
			case 2: s += words(g); break;
			case 3: s += comment(g); break;
			case 4: s += doctype(g); break;
			default: s += g.pick({ U" ", U"\n", U"x", U"\t" }); break;
			}
		}
		return s;
	}
	U soup(Gen& g, uint32_t max)
	{
		U s; uint32_t n = g.wide(1, max, 600, 400);
		for (uint32_t i = 0; i < n; ++i)
			switch (g.weighted({ 12, 6, 4, 3, 2, 2, 2, 1 }))
			{
			case 0: s += U"<>/!-?&;#=\"' \t\n\f\r[]x"[g.below(20)]; break;
			case 1: s += g.pick({ U"<", U"</", U"<a", U"<!--", U"-->", U"--!>", U"<!", U"<!-", U"<?", U"]]>", U"</script", U"<script", U"</title>", U"<!DOCTYPE ", U"<![CDATA[", U"</title", U"</b ", U"<b ", U"a=\"", U"a='", U"a=", U"=\"" }); break;
			case 2: s += g.pick({ U'a', U'b', U'A', U'Z', U'0', U'9', U'\0', char32_t(0xE9), char32_t(0x10FFFF), char32_t(0xFFFD), U'`', U'{', U'@', U'[', char32_t(0x130), char32_t(0x212A) }); break;
			case 3: s += reference(g); break;
			case 4: s += comment(g); break;
			case 5: s += doctype(g); break;
			case 6: s += U"<" + W(g.pick({ "a", "b", "script", "x-y" })) + attributes(g) + g.pick({ U">", U"/>", U" ", U"" }); break;
			default: s += words(g); break;
			}
		return s;
	}
	void mutate(Gen& g, U& s)
	{
		uint32_t k = g.in(1, 3);
		for (uint32_t i = 0; i < k && !s.empty(); ++i)
		{
			uint32_t p = g.below(s.size());
			switch (g.below(4)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, U"<>/!-&;= \"'\0\na"[g.below(14)]); break; case 2: s.resize(p); break; default: { U t = s.substr(p, g.in(1, 12)); s.insert(g.below(s.size() + 1), t); } }
		}
	}

	// ---- H01: tokenization ----------------------------------------------------------------------------
	std::string line(htmlref::Token const& t)
	{
		using T = htmlref::Token;
		switch (t.t)
		{
		case T::Char: return "c";
		case T::Eof: return "end of file";
		case T::Comment: return "comment \"" + A(t.data) + "\"";
		case T::Doctype: return "DOCTYPE \"" + A(t.name) + "\" \"" + A(t.pub) + "\" \"" + A(t.sys) + "\"" + (t.quirks ? " quirks" : "");
		case T::End: return "</" + A(t.name) + ">";
		default: { std::string r = "<" + A(t.name); for (auto const& a : t.attrs) r += " " + A(a.name) + "=\"" + A(a.value) + "\""; return r + (t.self ? " /" : "") + ">"; }
		}
	}
	// a token list with adjacent characters joined
	struct Tokens
	{
		std::vector<std::string> v; U text; bool ended = false;
		void flush() { if (!text.empty()) v.push_back("text \"" + A(text) + "\""); text.clear(); }
		void add(htmlref::Token const& t)
		{
			if (ended) fail("a token after the end of the file");
			if (t.t == htmlref::Token::Char) { text += t.c; return; }
			flush(); v.push_back(line(t)); if (t.t == htmlref::Token::Eof) ended = true;
		}
		std::string str() { std::string r; for (auto const& x : v) r += x + "\n"; return r; }
	};
	// the text mode a start tag puts the tokenizer in: 0 data, 1 RCDATA, 2 RAWTEXT, 3 script, 4 PLAINTEXT
	int text_mode(U const& name)
	{
		if (name == U"title" || name == U"textarea") return 1;
		if (name == U"style" || name == U"xmp" || name == U"iframe" || name == U"noembed" || name == U"noframes") return 2;
		if (name == U"script") return 3;
		return name == U"plaintext" ? 4 : 0;
	}
	struct Rec : hp::tokenizer<Rec, html::node_traits<html::u32simple_tree::iterator>>
	{
		using base = hp::tokenizer<Rec, html::node_traits<html::u32simple_tree::iterator>>;
		struct entry { hp::start_tag_token m_token; html::u32simple_tree::iterator m_it; };
		std::deque<entry> m_stack; entry dummy; entry const& adjusted_current_node() const { return dummy; }
		Tokens out; bool switching = true; uint32_t errors = 0;
		void on_report_error(hp::error_name) { ++errors; }
		void mode(int k)
		{
			switch (k) { case 1: m_state = RCDATA_state; break; case 2: m_state = RAWTEXT_state; break; case 3: m_state = script_data_state; break; case 4: m_state = PLAINTEXT_state; break; default: break; }
		}
		void begin(int k, U const& last) { mode(k); m_last_start_tag_name = last; }
		void on_emit_token(hp::character_token& t) { htmlref::Token k; k.t = htmlref::Token::Char; k.c = t.m_data; out.add(k); }
		void on_emit_token(hp::end_of_file_token&) { htmlref::Token k; k.t = htmlref::Token::Eof; out.add(k); }
		void on_emit_token(hp::comment_token& t) { htmlref::Token k; k.t = htmlref::Token::Comment; k.data = t.m_data; out.add(k); }
		void on_emit_token(hp::DOCTYPE_token& t) { htmlref::Token k; k.t = htmlref::Token::Doctype; k.name = t.m_name; k.pub = t.m_public_identifier; k.sys = t.m_system_identifier; k.quirks = t.m_force_quirks_flag; out.add(k); }
		void on_emit_token(hp::end_tag_token& t) { htmlref::Token k; k.t = htmlref::Token::End; k.name = t.m_tag_name; out.add(k); }
		void on_emit_token(hp::start_tag_token& t)
		{
			htmlref::Token k; k.t = htmlref::Token::Start; k.name = t.m_tag_name; k.self = t.m_self_closing_flag;
			for (auto const& a : t) if (!a.m_omitted) k.attrs.push_back({ "", a.m_prefix, a.m_name, a.m_value });
			out.add(k); if (switching) mode(text_mode(k.name));
		}
	};
	struct RefRec
	{
		Tokens out; htmlref::Tokenizer<RefRec> tk; bool switching = true;
		void mode(int k) { using T = htmlref::Tokenizer<RefRec>; switch (k) { case 1: tk.s = T::Rcdata; break; case 2: tk.s = T::Rawtext; break; case 3: tk.s = T::Script; break; case 4: tk.s = T::Plaintext; break; default: break; } }
		explicit RefRec(U const& s) : tk(s, *this) {}
		bool cdata() { return false; }
		void token(htmlref::Token& t) { out.add(t); if (switching && t.t == htmlref::Token::Start) mode(text_mode(t.name)); }
	};
	void h01(Gen& g)
	{
		U in; switch (g.weighted({ 5, 3, 1 })) { case 0: in = soup(g, 24); break; case 1: in = markup(g, 6); break; default: in = doctype(g); if (g.chance(1, 2)) in += soup(g, 4); }
		if (g.chance(1, 4)) mutate(g, in);
		int m = g.weighted({ 6, 2, 2, 4, 1 }); U last; bool sw = g.chance(2, 3);
		if (m) { last = W(g.pick({ "script", "title", "b", "x-y", "" })); if (m == 3 && g.chance(2, 3)) last = U"script"; if (!last.empty() && g.chance(2, 3)) in.insert(g.below(in.size() + 1), U"</" + cased(g, last) + g.pick({ U">", U" ", U"/", U"", U"x>", U"\n>" })); if (m == 3 && g.chance(1, 2)) in.insert(g.below(in.size() + 1), g.pick({ U"<!--", U"-->", U"<!--<script>", U"<script ", U"--", U"</script>", U"<!-" })); }
		g.note("state ", m, " last tag ", A(last), " switching ", sw, " input ", A(in));
		RefRec ref(in); ref.switching = sw; ref.mode(m); ref.tk.last = last; ref.tk.run();
		Rec lib; lib.switching = sw; lib.begin(m, last); for (char32_t c : in) lib.push_code_point(c); lib.push_eof();
		std::string want = ref.out.str(), got = lib.out.str();
		g.nontrivial(ref.tk.visited.size() >= 6 && ref.out.v.size() >= 3);
		for (int v : ref.tk.visited) g.label("state " + std::to_string(v));
		if (got != want) fail("the tokens of \"", A(in), "\" are\n", got, "but the standard gives\n", want);
	}
	Reg r01({ "H01", "the input takes the tokenizer through at least six states and gives at least three tokens", 2500000, 20000000, h01 });

	// ---- H02: tree construction -----------------------------------------------------------------------
	template <typename Tree> struct Lib
	{
		html::simple_parser<Tree> p;
		explicit Lib(U const& s) { for (char32_t c : s) p.push_code_point(c); p.push_eof(); }
		std::string text() { return text_of(p.get_document()); }
		std::string mode() { return mode_of(html::node_traits<typename Tree::iterator>::get_document_mode(p.get_document())); }
	};
	// Known finding: the library recognises CDATA sections in HTML content and not in foreign content (its own tests ask for that).
	bool cdata_swapped()
	{
		static int v = -1;
		if (v < 0)
		{
			char const* k = std::getenv("VERIF_KNOWN"); v = 0;
			if (k && std::strstr(k, "cdata") && Lib<html::u32simple_tree>(U"<svg><![CDATA[x]]>").text().find("<!--[CDATA[x]]-->") != std::string::npos
				&& Lib<html::u32simple_tree>(U"<p><![CDATA[x]]>").text().find("\"x\"") != std::string::npos) v = 1;
		}
		return v;
	}
	void h02(Gen& g)
	{
		U in = g.chance(9, 10) ? markup(g, 14) : soup(g, 20);
		if (g.chance(1, 6)) mutate(g, in);
		g.note("input ", A(in));
		htmlref::Parser ref(in, cdata_swapped()); std::string want = ref.text();
		g.nontrivial(ref.n.size() >= 7);
		for (auto const& e : ref.events) g.label(e);
		Lib<html::u32simple_tree> lib(in);
		std::string got = lib.text();
		if (got != want) fail("the tree of \"", A(in), "\" is\n", got, "but the standard gives\n", want);
		if (lib.mode() != ref.mode) fail("the mode of \"", A(in), "\" is ", lib.mode(), " and not ", ref.mode);
	}
	Reg r02({ "H02", "the document has at least seven nodes", 400000, 5000000, h02 });

	// ---- H03: serialization ---------------------------------------------------------------------------
	U text_value(Gen& g)
	{
		U s; uint32_t n = g.wide(0, 6, 300, 500);
		for (uint32_t i = 0; i < n; ++i) s += g.pick({ U'a', U' ', U'&', U'<', U'>', U'"', U'\'', char32_t(0xA0), char32_t(0xE9), char32_t(0x3042), char32_t(0x1F600), char32_t(0xA1), U'\n', U';', U'-', char32_t(0x10FFFF), char32_t(0x20AC), char32_t(0xFFFD), U'`' });
		if (g.chance(1, 6)) s += g.pick({ U"&amp;", U"&nbsp;", U"</script>", U"-->", U"&lt" });
		return s;
	}
	int grow(Gen& g, std::vector<Node>& n, int parent, uint32_t depth)
	{
		int me = static_cast<int>(n.size()); n.emplace_back(); n[me].parent = parent; n[parent].kids.push_back(me);
		switch (g.weighted({ 12, 6, 2, 1, 1 }))
		{
		case 0:
		{
			Node e; e.t = Node::Element; e.parent = parent; e.ns = g.pick({ "html", "html", "html", "html", "html", "html", "html", "svg", "svg", "math", "", "urn:x" }); if (g.chance(1, e.ns.empty() || e.ns == "urn:x" ? 2 : 30)) e.prefix = g.pick({ U"p", U"svg", U"p-q" });
			static char const* const names[] = { "p", "div", "b", "br", "img", "script", "style", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript", "pre", "textarea", "title", "template", "area", "base", "col", "embed", "hr", "input", "link", "meta", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen", "x-y", "foreignObject", "a", "table", "td", "custom", "image", "menuitem", "command", "linearGradient", "mi" };
			e.n8 = g.pick(names); e.name = W(e.n8.c_str());
			uint32_t k = g.weighted({ 6, 3, 2, 1 });
			for (uint32_t i = 0; i < k; ++i)
			{
				htmlref::Attr a; a.value = text_value(g);
				switch (g.weighted({ 8, 1, 1, 1, 1, 1 })) { case 5: a.ns = g.pick({ "urn:x", "svg", "html" }); if (g.chance(2, 3)) a.prefix = g.pick({ U"p", U"xlink", U"xml" }); a.name = W(g.pick({ "href", "id", "q" })); break; case 0: a.name = W(g.pick({ "id", "class", "href", "data-x", "viewBox", "xmlns", "lang", "x:y" })); break; case 1: a.ns = "xml"; a.prefix = U"xml"; a.name = W(g.pick({ "lang", "space", "q" })); break; case 2: a.ns = "xlink"; a.prefix = U"xlink"; a.name = W(g.pick({ "href", "title" })); break; case 3: a.ns = "xmlns"; a.name = U"xmlns"; break; default: a.ns = "xmlns"; a.prefix = U"xmlns"; a.name = W(g.pick({ "xlink", "foo" })); }
				e.attrs.push_back(a);
			}
			e.kids = n[me].kids; n[me] = e;
			if (depth) { uint32_t c = g.weighted({ 4, 5, 3, 2, 1 }); for (uint32_t i = 0; i < c; ++i) grow(g, n, me, depth - 1); }
			break;
		}
		case 1: n[me].t = Node::Text; n[me].data = text_value(g); break;
		case 2: n[me].t = Node::Comment; n[me].data = text_value(g); break;
		case 3: n[me].t = Node::Doctype; n[me].name = W(g.pick({ "html", "HTML", "x", "" })); break;
		default: n[me].t = Node::Instruction; n[me].name = W(g.pick({ "php", "xml-stylesheet", "" })); n[me].data = text_value(g); break;
		}
		return me;
	}
	wordring::html::ns_name ns_name_of(std::string const& s)
	{
		using N = wordring::html::ns_name;
		return s == "html" ? N::HTML : s == "svg" ? N::SVG : s == "math" ? N::MathML : s == "xml" ? N::XML : s == "xlink" ? N::XLink : s == "xmlns" ? N::XMLNS : static_cast<N>(0);
	}
	template <typename Str, typename Tree> void fill_tree(std::vector<Node> const& n, int x, Tree& t, typename Tree::iterator at)
	{
		auto str = [](U const& u) { return wordring::encoding_cast<Str>(u); };
		for (int k : n[x].kids)
		{
			Node const& e = n[k];
			switch (e.t)
			{
			case Node::Text: t.insert(at.end(), html::simple_text<Str>(str(e.data))); break;
			case Node::Comment: t.insert(at.end(), html::simple_comment<Str>(str(e.data))); break;
			case Node::Instruction: { html::simple_processing_instruction<Str> pi; pi.target(str(e.name)); pi.data(str(e.data)); t.insert(at.end(), pi); break; }
			case Node::Doctype: t.insert(at.end(), html::simple_document_type<Str>(str(e.name), Str(), Str())); break;
			default:
			{
				html::simple_element<Str> el(ns_name_of(e.ns), str(e.prefix), str(e.name)); if (e.ns == "urn:x") el.namespace_uri(str(U"urn:x"));
				for (auto const& a : e.attrs) { html::simple_attr<Str> x(ns_name_of(a.ns), str(a.prefix), str(a.name), str(a.value)); if (a.ns == "urn:x") x.namespace_uri(str(U"urn:x")); el.push_back(x); }
				auto it = t.insert(at.end(), el); fill_tree<Str>(n, k, t, it);
			}
			}
		}
	}
	template <typename Str, typename Tree> void h03_with(Gen& g, std::vector<Node> const& n, bool fragment)
	{
		Tree t; typename Tree::iterator d = fragment ? t.insert(t.end(), html::simple_document_fragment<Str>()) : t.insert(t.end(), html::simple_document<Str>());
		fill_tree<Str>(n, 0, t, d);
		U want = htmlref::serialize(n, 0);
		std::u32string o32; html::to_string(d, std::back_inserter(o32));
		if (o32 != want) fail("the tree serialises as\n", A(o32), "\nbut the standard gives\n", A(want));
		std::u8string o8; html::to_string(d, std::back_inserter(o8)); if (wordring::encoding_cast<U>(o8) != want) fail("the UTF-8 serialisation differs: ", A(wordring::encoding_cast<U>(o8)), " from ", A(want));
		std::u16string o16; html::to_string(d, std::back_inserter(o16)); if (wordring::encoding_cast<U>(o16) != want) fail("the UTF-16 serialisation differs: ", A(wordring::encoding_cast<U>(o16)), " from ", A(want));
		// every element on its own
		size_t i = 0; std::vector<std::pair<typename Tree::iterator, int>> todo{ { d, 0 } };
		while (i < todo.size() && i < 40)
		{
			auto [it, x] = todo[i++]; size_t j = 0;
			for (auto c = it.begin(); c != it.end(); ++c, ++j) todo.push_back({ c, n[x].kids.at(j) });
			if (n[x].t != Node::Element || !g.chance(1, 4)) continue;
			std::u32string s; html::to_string(it, std::back_inserter(s));
			U w = htmlref::serialize(n, x); if (s != w) fail("the content of the ", A(n[x].name), " element serialises as\n", A(s), "\nbut the standard gives\n", A(w));
		}
	}
	// elements that a parser puts back where they were found, whatever they contain
	int tame(Gen& g, std::vector<Node>& n, int parent, uint32_t depth, bool text_before)
	{
		int me = static_cast<int>(n.size()); n.emplace_back(); n[parent].kids.push_back(me); n[me].parent = parent;
		switch (g.weighted({ 10, text_before ? 0u : 6u, 2 }))
		{
		case 1: { U s; while (s.empty()) s = text_value(g); n[me].t = Node::Text; n[me].data = s; break; }
		case 2: { n[me].t = Node::Comment; U s; for (char32_t c : text_value(g)) if (c != U'-' && c != U'>') s += c; n[me].data = s; break; }
		default:
		{
			n[me].t = Node::Element; n[me].ns = "html"; n[me].n8 = g.pick({ "div", "section", "span", "ul", "x-y", "center", "label", "br", "img", "script", "style", "article", "cite", "q" }); n[me].name = W(n[me].n8.c_str());
			uint32_t k = g.weighted({ 6, 3, 2 }); static char const* const names[] = { "id", "class", "href", "data-x", "title" }; uint32_t o = g.below(5);
			for (uint32_t i = 0; i < k; ++i) { htmlref::Attr a; a.name = W(names[(o + i) % 5]); a.value = text_value(g); n[me].attrs.push_back(a); }
			bool raw = n[me].n8 == "script" || n[me].n8 == "style";
			if (raw) { U s; for (char32_t c : text_value(g)) if (c != U'<') s += c; if (!s.empty()) { int t = static_cast<int>(n.size()); n.emplace_back(); n[me].kids.push_back(t); n[t].t = Node::Text; n[t].data = s; n[t].parent = me; } }
			else if (depth && !htmlref::is_void(n[me])) { uint32_t c = g.weighted({ 2, 5, 3, 2, 1 }); bool tb = false; for (uint32_t i = 0; i < c; ++i) { int q = tame(g, n, me, depth - 1, tb); tb = n[q].t == Node::Text; } }
		}
		}
		return me;
	}
	void h03(Gen& g)
	{
		std::vector<Node> n(1); n[0].t = Node::Document;
		if (g.chance(2, 3))
		{
			bool fragment = g.chance(1, 3); uint32_t c = g.in(1, 4);
			uint32_t deep = g.chance(1, 100) ? 9 : 4; for (uint32_t i = 0; i < c; ++i) grow(g, n, 0, deep);
			if (!fragment) for (int k : n[0].kids) if (n[k].t == Node::Text) { n[k].t = Node::Comment; }
			g.note(text_of(n)); g.nontrivial(n.size() >= 5); g.label(fragment ? "fragment" : "document");
			switch (g.below(4))
			{
			case 0: h03_with<std::u8string, html::u8simple_tree>(g, n, fragment); break;
			case 1: h03_with<std::u16string, html::u16simple_tree>(g, n, fragment); break;
			default: h03_with<std::u32string, html::u32simple_tree>(g, n, fragment); break;
			}
			return;
		}
		// a document of tame elements: writing it and parsing what was written gives it back
		auto el = [&](int p, char const* s) { int k = static_cast<int>(n.size()); n.emplace_back(); n[k].t = Node::Element; n[k].ns = "html"; n[k].n8 = s; n[k].name = W(s); n[k].parent = p; n[p].kids.push_back(k); return k; };
		int h = el(0, "html"); el(h, "head"); int b = el(h, "body"); uint32_t c = g.in(1, 5); bool tb = true; // no white space at the start of the body
		for (uint32_t i = 0; i < c; ++i) { int q = tame(g, n, b, 4, tb); tb = n[q].t == Node::Text; }
		g.note(text_of(n)); g.nontrivial(n.size() >= 8); g.label("round trip");
		html::u8simple_tree t; auto d = t.insert(t.end(), html::simple_document<std::u8string>()); fill_tree<std::u8string>(n, 0, t, d);
		std::u32string s; html::to_string(d, std::back_inserter(s));
		html::simple_parser<html::u16simple_tree> p; for (char32_t x : s) p.push_code_point(x); p.push_eof();
		std::string got = text_of(p.get_document()), want = text_of(n);
		if (got != want) fail("the document, written as\n", A(s), "\nand parsed again, is\n", got, "instead of\n", want);
	}
	Reg r03({ "H03", "the tree has at least five nodes (eight in a round trip)", 600000, 6000000, h03 });

	// ---- H04: documents from strings ------------------------------------------------------------------
	using E = wordring::whatwg::encoding::encoding_name; using Conf = hp::encoding_confidence_name;
	E label(U s)
	{
		while (!s.empty() && htmlref::ws(s.back())) s.pop_back(); while (!s.empty() && htmlref::ws(s.front())) s.erase(0, 1);
		for (auto& c : s) c = htmlref::lo(c);
		for (auto const& x : encref::ref_labels) if (s == W(x.label)) return x.name;
		return static_cast<E>(0);
	}
	E extract(U const& in)
	{
		U s; for (char32_t c : in) s += htmlref::lo(c);
		size_t p = 0;
		for (;;)
		{
			p = s.find(U"charset", p); if (p == U::npos) return static_cast<E>(0);
			p += 7; while (p < s.size() && htmlref::ws(s[p])) ++p;
			if (p >= s.size() || s[p] != U'=') continue;
			++p; while (p < s.size() && htmlref::ws(s[p])) ++p;
			break;
		}
		if (p >= s.size()) return static_cast<E>(0);
		if (s[p] == U'"' || s[p] == U'\'') { size_t q = s.find(s[p], p + 1); return q == U::npos ? static_cast<E>(0) : label(s.substr(p + 1, q - p - 1)); }
		size_t q = p; while (q < s.size() && s[q] != U';' && !htmlref::ws(s[q])) ++q;
		return label(s.substr(p, q - p));
	}
	U decode(E e, std::string const& b)
	{
		encref::Bytes v(b.begin(), b.end()); size_t k = 0; auto is = [&](std::initializer_list<uint8_t> m) { return v.size() >= m.size() && std::equal(m.begin(), m.end(), v.begin()); };
		if (e == E::UTF_8 && is({ 0xEF, 0xBB, 0xBF })) k = 3; else if (e == E::UTF_16LE && is({ 0xFF, 0xFE })) k = 2; else if (e == E::UTF_16BE && is({ 0xFE, 0xFF })) k = 2;
		v.erase(v.begin(), v.begin() + static_cast<long>(k)); return encref::decode(e, v).out;
	}
	struct Want { std::string tree; E enc; bool restarted; };
	Want expected(std::string const& bytes, E enc, Conf conf)
	{
		htmlref::Parser p(decode(enc, bytes), false);
		if (conf == Conf::tentative)
			for (auto const& m : p.metas)
			{
				E e = static_cast<E>(0); if (auto const* c = m.attr("charset")) e = label(*c);
				if (e == static_cast<E>(0)) { auto const* h = m.attr("http-equiv"); auto const* c = m.attr("content"); if (h && c) { U l; for (char32_t x : *h) l += htmlref::lo(x); if (l == U"content-type") e = extract(*c); } }
				if (e == static_cast<E>(0)) continue;
				if (enc == E::UTF_16BE || enc == E::UTF_16LE) break;
				if (e == E::UTF_16BE || e == E::UTF_16LE) e = E::UTF_8;
				if (e == E::x_user_defined) e = E::windows_1252;
				if (e == enc) break;
				return { htmlref::Parser(decode(e, bytes), false).text(), e, true };
			}
		return { p.text(), enc, false };
	}
	U some_label(Gen& g)
	{
		if (g.chance(1, 8)) return W(g.pick({ "", "unknown", "utf8", "UTF-7", "x" }));
		U s = W(g.chance(1, 2) ? g.pick({ "utf-8", "shift_jis", "euc-jp", "windows-1252", "utf-16", "utf-16be", "x-user-defined", "iso-2022-jp", "gb18030", "big5", "koi8-r", "replacement", "euc-kr" }) : g.pick(encref::ref_labels).label);
		if (g.chance(1, 4)) for (auto& c : s) if (U'a' <= c && c <= U'z' && g.chance(1, 2)) c -= 32;
		if (g.chance(1, 6)) s = U" " + s + U"\n";
		return s;
	}
	U content_value(Gen& g, bool quote)
	{
		U s; uint32_t n = g.len(1, 6); U q = quote ? U"'" : U"\"";
		for (uint32_t i = 0; i < n; ++i) s += g.weighted({ 3, 2 }) ? U(g.pick({ U"text/html", U";", U" ", U"charset", U"CHARSET", U"=", U"\n", U"charse", U"x" })) : U(g.pick({ U"", U";", U" " })) + g.pick({ U"charset=", U"charset =", U"charset= ", U"Charset=", U"charset" }) + (g.chance(1, 3) ? q : U"") + some_label(g) + (g.chance(1, 3) ? q : U"");
		return s;
	}
	U meta(Gen& g)
	{
		U s = U"<meta";
		bool q = g.chance(1, 2); U d = q ? U"\"" : U"'";
		switch (g.weighted({ 4, 4, 1, 1 }))
		{
		case 0: s += U" " + cased(g, U"charset") + U"=" + d + some_label(g) + d; break;
		case 1: s += U" http-equiv=" + U(g.pick({ U"Content-Type", U"content-type", U"CONTENT-TYPE", U"refresh" })) + U" content=" + d + content_value(g, q) + d; break;
		case 2: s += U" content=" + d + content_value(g, q) + d + U" http-equiv=content-type charset=" + d + some_label(g) + d; break;
		default: s += U" name=charset content=" + d + some_label(g) + d; break;
		}
		return s + g.pick({ U">", U"/>", U" >" });
	}
	void h04(Gen& g)
	{
		if (g.chance(1, 5))
		{
			U v = content_value(g, g.chance(1, 2)); if (g.chance(1, 3)) mutate(g, v);
			g.note("content ", A(v)); E want = extract(v), got = wordring::whatwg::html::extract_character_encoding_from_meta_element(v);
			g.nontrivial(v.find(U"charset") != U::npos); g.label(want == static_cast<E>(0) ? "no encoding in content" : "encoding in content");
			if (got != want) fail("the content \"", A(v), "\" gives encoding ", static_cast<uint32_t>(got), " and not ", static_cast<uint32_t>(want)); return;
		}
		U text;
		if (g.chance(1, 3)) text += U"<!DOCTYPE html>"; if (g.chance(1, 3)) text += U"<head>"; if (g.chance(1, 4)) text += U"<title>" + text_value(g) + U"</title>";
		uint32_t k = g.weighted({ 2, 6, 2, 1 }); for (uint32_t i = 0; i < k; ++i) { text += meta(g); if (g.chance(1, 6)) text += g.pick({ U"<p>", U"<svg>", U"<script>x</script>", U"<template>", U"<!--", U"</head>", U"<table>", U"<select>", U"<noscript>" }); }
		text += g.chance(1, 2) ? markup(g, 5) : text_value(g);
		U clean; for (size_t i = 0; i < text.size(); ++i) { if (text.compare(i, 9, U"<![CDATA[") == 0) i += 8; else clean += text[i]; } // CDATA: see H02
		text = clean;
		uint32_t kind = g.weighted({ 6, 2, 2, 2 });
		if (kind)
		{
			// strings of code points or code units: no encoding is involved
			std::string want = htmlref::Parser(text, false).text(); g.note("input ", A(text)); g.nontrivial(std::count(want.begin(), want.end(), '\n') >= 6);
			std::string got; Conf conf = g.pick({ Conf::tentative, Conf::certain, Conf::irrelevant }); U t = text; for (auto& c : t) if (0xD800 <= c && c < 0xE000) c = U'x';
			if (kind == 1) { g.label("UTF-32 string"); auto d = html::make_document<html::u16simple_tree>(t.begin(), t.end(), E::UTF_8, conf); got = text_of(d.begin()); }
			else if (kind == 2) { g.label("UTF-16 string"); std::u16string s = wordring::encoding_cast<std::u16string>(t); auto d = html::make_document<html::u8simple_tree>(s.begin(), s.end(), E::UTF_8, conf); got = text_of(d.begin()); }
			else
			{
				// one parser, several documents, emptied in between
				g.label("parser reused"); html::basic_simple_parser<html::u32simple_tree, U::const_iterator> p(conf, E::UTF_8);
				U first = markup(g, 6); uint32_t cut = g.below(first.size() + 1); bool eof = g.chance(1, 2); U part = first.substr(0, cut);
				g.note("first ", A(part), eof ? " complete" : " abandoned");
				if (eof) p.parse(part.begin(), part.end()); else for (char32_t c : part) p.push_code_point(c);
				p.clear(conf, E::UTF_8); p.parse(t.begin(), t.end()); auto d = p.get(); got = text_of(d.begin());
			}
			if (got != want) fail("the document of \"", A(text), "\" is\n", got, "but the standard gives\n", want);
			return;
		}
		E src = g.chance(1, 2) ? g.pick(encref::all()) : g.pick({ E::UTF_8, E::Shift_JIS, E::UTF_16LE, E::UTF_16BE, E::windows_1252 });
		std::string bytes;
		if (src == E::UTF_16LE || src == E::UTF_16BE) { std::u16string u = wordring::encoding_cast<std::u16string>(text); for (char16_t c : u) { char hi = static_cast<char>(c >> 8), lo = static_cast<char>(c & 255); if (src == E::UTF_16BE) { bytes += hi; bytes += lo; } else { bytes += lo; bytes += hi; } } }
		else { U body = text; if (!encref::can_encode(src)) src = E::UTF_8; auto e = encref::encode(src, body, true); bytes.assign(e.out.begin(), e.out.end()); }
		if (g.chance(1, 6)) bytes = g.pick({ std::string("\xEF\xBB\xBF"), std::string("\xFF\xFE"), std::string("\xFE\xFF") }) + bytes;
		if (g.chance(1, 6)) { uint32_t m = g.in(1, 3); for (uint32_t i = 0; i < m; ++i) bytes.insert(g.below(bytes.size() + 1), 1, static_cast<char>(g.in(0x80, 0xFF))); }
		E enc = g.chance(1, 2) ? src : g.pick({ E::UTF_8, E::windows_1252, E::Shift_JIS, E::UTF_16LE, E::UTF_16BE, E::EUC_JP }); Conf conf = g.chance(3, 4) ? Conf::tentative : g.pick({ Conf::certain, Conf::irrelevant });
		g.note("bytes ", show(bytes), " as encoding ", static_cast<uint32_t>(enc), " confidence ", static_cast<uint32_t>(conf));
		if (decode(enc, bytes).find(U"<![CDATA[") != U::npos) throw Discard{};
		Want w = expected(bytes, enc, conf); if (decode(w.enc, bytes).find(U"<![CDATA[") != U::npos) throw Discard{}; g.nontrivial(w.restarted || std::count(w.tree.begin(), w.tree.end(), '\n') >= 6); g.label(w.restarted ? "encoding changed" : "encoding kept");
		auto d = html::make_document<html::u32simple_tree>(bytes.begin(), bytes.end(), enc, conf); std::string got = text_of(d.begin());
		if (got != w.tree) fail("the document of the bytes \"", show(bytes), "\" is\n", got, "but the standard gives (", w.restarted ? "read again" : "read", " in encoding ", static_cast<uint32_t>(w.enc), ")\n", w.tree);
	}
	Reg r04({ "H04", "the document changes its encoding, or has at least six nodes", 400000, 4000000, h04 });
}
PBT_MAIN

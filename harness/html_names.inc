// HTML, SVG and MathML element and attribute names and namespaces, with the enumerators named after them
inline Known<html::tag_name> const known_tags[] = {
	{ html::tag_name::A, U"a" },
	{ html::tag_name::Abbr, U"abbr" },
	{ html::tag_name::Abs, U"abs" },
	{ html::tag_name::Address, U"address" },
	{ html::tag_name::AltGlyph, U"altGlyph" },
	{ html::tag_name::AltGlyphDef, U"altGlyphDef" },
	{ html::tag_name::AltGlyphItem, U"altGlyphItem" },
	{ html::tag_name::Altglyph, U"altglyph" },
	{ html::tag_name::Altglyphdef, U"altglyphdef" },
	{ html::tag_name::Altglyphitem, U"altglyphitem" },
	{ html::tag_name::And, U"and" },
	{ html::tag_name::Animate, U"animate" },
	{ html::tag_name::AnimateColor, U"animateColor" },
	{ html::tag_name::AnimateMotion, U"animateMotion" },
	{ html::tag_name::AnimateTransform, U"animateTransform" },
	{ html::tag_name::Animatecolor, U"animatecolor" },
	{ html::tag_name::Animatemotion, U"animatemotion" },
	{ html::tag_name::Animatetransform, U"animatetransform" },
	{ html::tag_name::Annotation, U"annotation" },
	{ html::tag_name::Annotation_xml, U"annotation-xml" },
	{ html::tag_name::Applet, U"applet" },
	{ html::tag_name::Apply, U"apply" },
	{ html::tag_name::Approx, U"approx" },
	{ html::tag_name::Arccos, U"arccos" },
	{ html::tag_name::Arccosh, U"arccosh" },
	{ html::tag_name::Arccot, U"arccot" },
	{ html::tag_name::Arccoth, U"arccoth" },
	{ html::tag_name::Arccsc, U"arccsc" },
	{ html::tag_name::Arccsch, U"arccsch" },
	{ html::tag_name::Arcsec, U"arcsec" },
	{ html::tag_name::Arcsech, U"arcsech" },
	{ html::tag_name::Arcsin, U"arcsin" },
	{ html::tag_name::Arcsinh, U"arcsinh" },
	{ html::tag_name::Arctan, U"arctan" },
	{ html::tag_name::Arctanh, U"arctanh" },
	{ html::tag_name::Area, U"area" },
	{ html::tag_name::Arg, U"arg" },
	{ html::tag_name::Article, U"article" },
	{ html::tag_name::Aside, U"aside" },
	{ html::tag_name::Audio, U"audio" },
	{ html::tag_name::B, U"b" },
	{ html::tag_name::Base, U"base" },
	{ html::tag_name::Basefont, U"basefont" },
	{ html::tag_name::Bdi, U"bdi" },
	{ html::tag_name::Bdo, U"bdo" },
	{ html::tag_name::Bgsound, U"bgsound" },
	{ html::tag_name::Big, U"big" },
	{ html::tag_name::Bind, U"bind" },
	{ html::tag_name::Blockquote, U"blockquote" },
	{ html::tag_name::Body, U"body" },
	{ html::tag_name::Br, U"br" },
	{ html::tag_name::Button, U"button" },
	{ html::tag_name::Bvar, U"bvar" },
	{ html::tag_name::Canvas, U"canvas" },
	{ html::tag_name::Caption, U"caption" },
	{ html::tag_name::Card, U"card" },
	{ html::tag_name::Cartesianproduct, U"cartesianproduct" },
	{ html::tag_name::Cbytes, U"cbytes" },
	{ html::tag_name::Ceiling, U"ceiling" },
	{ html::tag_name::Center, U"center" },
	{ html::tag_name::Cerror, U"cerror" },
	{ html::tag_name::Ci, U"ci" },
	{ html::tag_name::Circle, U"circle" },
	{ html::tag_name::Cite, U"cite" },
	{ html::tag_name::ClipPath, U"clipPath" },
	{ html::tag_name::Clippath, U"clippath" },
	{ html::tag_name::Cn, U"cn" },
	{ html::tag_name::Code, U"code" },
	{ html::tag_name::Codomain, U"codomain" },
	{ html::tag_name::Col, U"col" },
	{ html::tag_name::Colgroup, U"colgroup" },
	{ html::tag_name::Complexes, U"complexes" },
	{ html::tag_name::Compose, U"compose" },
	{ html::tag_name::Condition, U"condition" },
	{ html::tag_name::Conjugate, U"conjugate" },
	{ html::tag_name::Cos, U"cos" },
	{ html::tag_name::Cosh, U"cosh" },
	{ html::tag_name::Cot, U"cot" },
	{ html::tag_name::Coth, U"coth" },
	{ html::tag_name::Cs, U"cs" },
	{ html::tag_name::Csc, U"csc" },
	{ html::tag_name::Csch, U"csch" },
	{ html::tag_name::Csymbol, U"csymbol" },
	{ html::tag_name::Curl, U"curl" },
	{ html::tag_name::Data, U"data" },
	{ html::tag_name::Datalist, U"datalist" },
	{ html::tag_name::Dd, U"dd" },
	{ html::tag_name::Declare, U"declare" },
	{ html::tag_name::Defs, U"defs" },
	{ html::tag_name::Degree, U"degree" },
	{ html::tag_name::Del, U"del" },
	{ html::tag_name::Desc, U"desc" },
	{ html::tag_name::Details, U"details" },
	{ html::tag_name::Determinant, U"determinant" },
	{ html::tag_name::Dfn, U"dfn" },
	{ html::tag_name::Dialog, U"dialog" },
	{ html::tag_name::Diff, U"diff" },
	{ html::tag_name::Dir, U"dir" },
	{ html::tag_name::Discard, U"discard" },
	{ html::tag_name::Div, U"div" },
	{ html::tag_name::Divergence, U"divergence" },
	{ html::tag_name::Divide, U"divide" },
	{ html::tag_name::Dl, U"dl" },
	{ html::tag_name::Domain, U"domain" },
	{ html::tag_name::Domainofapplication, U"domainofapplication" },
	{ html::tag_name::Dt, U"dt" },
	{ html::tag_name::Ellipse, U"ellipse" },
	{ html::tag_name::Em, U"em" },
	{ html::tag_name::Embed, U"embed" },
	{ html::tag_name::Emptyset, U"emptyset" },
	{ html::tag_name::Eq, U"eq" },
	{ html::tag_name::Equivalent, U"equivalent" },
	{ html::tag_name::Eulergamma, U"eulergamma" },
	{ html::tag_name::Exists, U"exists" },
	{ html::tag_name::Exp, U"exp" },
	{ html::tag_name::Exponentiale, U"exponentiale" },
	{ html::tag_name::Factorial, U"factorial" },
	{ html::tag_name::Factorof, U"factorof" },
	{ html::tag_name::False, U"false" },
	{ html::tag_name::FeBlend, U"feBlend" },
	{ html::tag_name::FeColorMatrix, U"feColorMatrix" },
	{ html::tag_name::FeComponentTransfer, U"feComponentTransfer" },
	{ html::tag_name::FeComposite, U"feComposite" },
	{ html::tag_name::FeConvolveMatrix, U"feConvolveMatrix" },
	{ html::tag_name::FeDiffuseLighting, U"feDiffuseLighting" },
	{ html::tag_name::FeDisplacementMap, U"feDisplacementMap" },
	{ html::tag_name::FeDistantLight, U"feDistantLight" },
	{ html::tag_name::FeDropShadow, U"feDropShadow" },
	{ html::tag_name::FeFlood, U"feFlood" },
	{ html::tag_name::FeFuncA, U"feFuncA" },
	{ html::tag_name::FeFuncB, U"feFuncB" },
	{ html::tag_name::FeFuncG, U"feFuncG" },
	{ html::tag_name::FeFuncR, U"feFuncR" },
	{ html::tag_name::FeGaussianBlur, U"feGaussianBlur" },
	{ html::tag_name::FeImage, U"feImage" },
	{ html::tag_name::FeMerge, U"feMerge" },
	{ html::tag_name::FeMergeNode, U"feMergeNode" },
	{ html::tag_name::FeMorphology, U"feMorphology" },
	{ html::tag_name::FeOffset, U"feOffset" },
	{ html::tag_name::FePointLight, U"fePointLight" },
	{ html::tag_name::FeSpecularLighting, U"feSpecularLighting" },
	{ html::tag_name::FeSpotLight, U"feSpotLight" },
	{ html::tag_name::FeTile, U"feTile" },
	{ html::tag_name::FeTurbulence, U"feTurbulence" },
	{ html::tag_name::Feblend, U"feblend" },
	{ html::tag_name::Fecolormatrix, U"fecolormatrix" },
	{ html::tag_name::Fecomponenttransfer, U"fecomponenttransfer" },
	{ html::tag_name::Fecomposite, U"fecomposite" },
	{ html::tag_name::Feconvolvematrix, U"feconvolvematrix" },
	{ html::tag_name::Fediffuselighting, U"fediffuselighting" },
	{ html::tag_name::Fedisplacementmap, U"fedisplacementmap" },
	{ html::tag_name::Fedistantlight, U"fedistantlight" },
	{ html::tag_name::Fedropshadow, U"fedropshadow" },
	{ html::tag_name::Feflood, U"feflood" },
	{ html::tag_name::Fefunca, U"fefunca" },
	{ html::tag_name::Fefuncb, U"fefuncb" },
	{ html::tag_name::Fefuncg, U"fefuncg" },
	{ html::tag_name::Fefuncr, U"fefuncr" },
	{ html::tag_name::Fegaussianblur, U"fegaussianblur" },
	{ html::tag_name::Feimage, U"feimage" },
	{ html::tag_name::Femerge, U"femerge" },
	{ html::tag_name::Femergenode, U"femergenode" },
	{ html::tag_name::Femorphology, U"femorphology" },
	{ html::tag_name::Feoffset, U"feoffset" },
	{ html::tag_name::Fepointlight, U"fepointlight" },
	{ html::tag_name::Fespecularlighting, U"fespecularlighting" },
	{ html::tag_name::Fespotlight, U"fespotlight" },
	{ html::tag_name::Fetile, U"fetile" },
	{ html::tag_name::Feturbulence, U"feturbulence" },
	{ html::tag_name::Fieldset, U"fieldset" },
	{ html::tag_name::Figcaption, U"figcaption" },
	{ html::tag_name::Figure, U"figure" },
	{ html::tag_name::Filter, U"filter" },
	{ html::tag_name::Floor, U"floor" },
	{ html::tag_name::Fn, U"fn" },
	{ html::tag_name::Font, U"font" },
	{ html::tag_name::Footer, U"footer" },
	{ html::tag_name::Forall, U"forall" },
	{ html::tag_name::ForeignObject, U"foreignObject" },
	{ html::tag_name::Foreignobject, U"foreignobject" },
	{ html::tag_name::Form, U"form" },
	{ html::tag_name::Frame, U"frame" },
	{ html::tag_name::Frameset, U"frameset" },
	{ html::tag_name::G, U"g" },
	{ html::tag_name::Gcd, U"gcd" },
	{ html::tag_name::Geq, U"geq" },
	{ html::tag_name::GlyphRef, U"glyphRef" },
	{ html::tag_name::Glyphref, U"glyphref" },
	{ html::tag_name::Grad, U"grad" },
	{ html::tag_name::Gt, U"gt" },
	{ html::tag_name::H1, U"h1" },
	{ html::tag_name::H2, U"h2" },
	{ html::tag_name::H3, U"h3" },
	{ html::tag_name::H4, U"h4" },
	{ html::tag_name::H5, U"h5" },
	{ html::tag_name::H6, U"h6" },
	{ html::tag_name::Head, U"head" },
	{ html::tag_name::Header, U"header" },
	{ html::tag_name::Hgroup, U"hgroup" },
	{ html::tag_name::Hr, U"hr" },
	{ html::tag_name::Html, U"html" },
	{ html::tag_name::I, U"i" },
	{ html::tag_name::Ident, U"ident" },
	{ html::tag_name::Iframe, U"iframe" },
	{ html::tag_name::Image, U"image" },
	{ html::tag_name::Imaginary, U"imaginary" },
	{ html::tag_name::Imaginaryi, U"imaginaryi" },
	{ html::tag_name::Img, U"img" },
	{ html::tag_name::Implies, U"implies" },
	{ html::tag_name::In, U"in" },
	{ html::tag_name::Infinity, U"infinity" },
	{ html::tag_name::Input, U"input" },
	{ html::tag_name::Ins, U"ins" },
	{ html::tag_name::Int, U"int" },
	{ html::tag_name::Integers, U"integers" },
	{ html::tag_name::Intersect, U"intersect" },
	{ html::tag_name::Interval, U"interval" },
	{ html::tag_name::Inverse, U"inverse" },
	{ html::tag_name::Kbd, U"kbd" },
	{ html::tag_name::Keygen, U"keygen" },
	{ html::tag_name::Label, U"label" },
	{ html::tag_name::Lambda, U"lambda" },
	{ html::tag_name::Laplacian, U"laplacian" },
	{ html::tag_name::Lcm, U"lcm" },
	{ html::tag_name::Legend, U"legend" },
	{ html::tag_name::Leq, U"leq" },
	{ html::tag_name::Li, U"li" },
	{ html::tag_name::Limit, U"limit" },
	{ html::tag_name::Line, U"line" },
	{ html::tag_name::LinearGradient, U"linearGradient" },
	{ html::tag_name::Lineargradient, U"lineargradient" },
	{ html::tag_name::Link, U"link" },
	{ html::tag_name::List, U"list" },
	{ html::tag_name::Listing, U"listing" },
	{ html::tag_name::Ln, U"ln" },
	{ html::tag_name::Log, U"log" },
	{ html::tag_name::Logbase, U"logbase" },
	{ html::tag_name::Lowlimit, U"lowlimit" },
	{ html::tag_name::Lt, U"lt" },
	{ html::tag_name::Maction, U"maction" },
	{ html::tag_name::Main, U"main" },
	{ html::tag_name::Maligngroup, U"maligngroup" },
	{ html::tag_name::Malignmark, U"malignmark" },
	{ html::tag_name::Map, U"map" },
	{ html::tag_name::Mark, U"mark" },
	{ html::tag_name::Marker, U"marker" },
	{ html::tag_name::Marquee, U"marquee" },
	{ html::tag_name::Mask, U"mask" },
	{ html::tag_name::Math, U"math" },
	{ html::tag_name::Matrix, U"matrix" },
	{ html::tag_name::Matrixrow, U"matrixrow" },
	{ html::tag_name::Max, U"max" },
	{ html::tag_name::Mean, U"mean" },
	{ html::tag_name::Median, U"median" },
	{ html::tag_name::Menclose, U"menclose" },
	{ html::tag_name::Menu, U"menu" },
	{ html::tag_name::Merror, U"merror" },
	{ html::tag_name::Meta, U"meta" },
	{ html::tag_name::Metadata, U"metadata" },
	{ html::tag_name::Meter, U"meter" },
	{ html::tag_name::Mfenced, U"mfenced" },
	{ html::tag_name::Mfrac, U"mfrac" },
	{ html::tag_name::Mglyph, U"mglyph" },
	{ html::tag_name::Mi, U"mi" },
	{ html::tag_name::Min, U"min" },
	{ html::tag_name::Minus, U"minus" },
	{ html::tag_name::Mlabeledtr, U"mlabeledtr" },
	{ html::tag_name::Mlongdiv, U"mlongdiv" },
	{ html::tag_name::Mmultiscripts, U"mmultiscripts" },
	{ html::tag_name::Mn, U"mn" },
	{ html::tag_name::Mo, U"mo" },
	{ html::tag_name::Mode, U"mode" },
	{ html::tag_name::Moment, U"moment" },
	{ html::tag_name::Momentabout, U"momentabout" },
	{ html::tag_name::Mover, U"mover" },
	{ html::tag_name::Mpadded, U"mpadded" },
	{ html::tag_name::Mpath, U"mpath" },
	{ html::tag_name::Mphantom, U"mphantom" },
	{ html::tag_name::Mprescripts, U"mprescripts" },
	{ html::tag_name::Mroot, U"mroot" },
	{ html::tag_name::Mrow, U"mrow" },
	{ html::tag_name::Ms, U"ms" },
	{ html::tag_name::Mscarries, U"mscarries" },
	{ html::tag_name::Mscarry, U"mscarry" },
	{ html::tag_name::Msgroup, U"msgroup" },
	{ html::tag_name::Msline, U"msline" },
	{ html::tag_name::Mspace, U"mspace" },
	{ html::tag_name::Msqrt, U"msqrt" },
	{ html::tag_name::Msrow, U"msrow" },
	{ html::tag_name::Mstack, U"mstack" },
	{ html::tag_name::Mstyle, U"mstyle" },
	{ html::tag_name::Msub, U"msub" },
	{ html::tag_name::Msubsup, U"msubsup" },
	{ html::tag_name::Msup, U"msup" },
	{ html::tag_name::Mtable, U"mtable" },
	{ html::tag_name::Mtd, U"mtd" },
	{ html::tag_name::Mtext, U"mtext" },
	{ html::tag_name::Mtr, U"mtr" },
	{ html::tag_name::Munder, U"munder" },
	{ html::tag_name::Munderover, U"munderover" },
	{ html::tag_name::Naturalnumbers, U"naturalnumbers" },
	{ html::tag_name::Nav, U"nav" },
	{ html::tag_name::Neq, U"neq" },
	{ html::tag_name::Nobr, U"nobr" },
	{ html::tag_name::Noembed, U"noembed" },
	{ html::tag_name::Noframes, U"noframes" },
	{ html::tag_name::None, U"none" },
	{ html::tag_name::Noscript, U"noscript" },
	{ html::tag_name::Not, U"not" },
	{ html::tag_name::Notanumber, U"notanumber" },
	{ html::tag_name::Notin, U"notin" },
	{ html::tag_name::Notprsubset, U"notprsubset" },
	{ html::tag_name::Notsubset, U"notsubset" },
	{ html::tag_name::Object, U"object" },
	{ html::tag_name::Ol, U"ol" },
	{ html::tag_name::Optgroup, U"optgroup" },
	{ html::tag_name::Option, U"option" },
	{ html::tag_name::Or, U"or" },
	{ html::tag_name::Otherwise, U"otherwise" },
	{ html::tag_name::Outerproduct, U"outerproduct" },
	{ html::tag_name::Output, U"output" },
	{ html::tag_name::P, U"p" },
	{ html::tag_name::Param, U"param" },
	{ html::tag_name::Partialdiff, U"partialdiff" },
	{ html::tag_name::Path, U"path" },
	{ html::tag_name::Pattern, U"pattern" },
	{ html::tag_name::Pi, U"pi" },
	{ html::tag_name::Picture, U"picture" },
	{ html::tag_name::Piece, U"piece" },
	{ html::tag_name::Piecewise, U"piecewise" },
	{ html::tag_name::Plaintext, U"plaintext" },
	{ html::tag_name::Plus, U"plus" },
	{ html::tag_name::Polygon, U"polygon" },
	{ html::tag_name::Polyline, U"polyline" },
	{ html::tag_name::Power, U"power" },
	{ html::tag_name::Pre, U"pre" },
	{ html::tag_name::Primes, U"primes" },
	{ html::tag_name::Product, U"product" },
	{ html::tag_name::Progress, U"progress" },
	{ html::tag_name::Prsubset, U"prsubset" },
	{ html::tag_name::Q, U"q" },
	{ html::tag_name::Quotient, U"quotient" },
	{ html::tag_name::RadialGradient, U"radialGradient" },
	{ html::tag_name::Radialgradient, U"radialgradient" },
	{ html::tag_name::Rationals, U"rationals" },
	{ html::tag_name::Rb, U"rb" },
	{ html::tag_name::Real, U"real" },
	{ html::tag_name::Reals, U"reals" },
	{ html::tag_name::Rect, U"rect" },
	{ html::tag_name::Reln, U"reln" },
	{ html::tag_name::Rem, U"rem" },
	{ html::tag_name::Root, U"root" },
	{ html::tag_name::Rp, U"rp" },
	{ html::tag_name::Rt, U"rt" },
	{ html::tag_name::Rtc, U"rtc" },
	{ html::tag_name::Ruby, U"ruby" },
	{ html::tag_name::S, U"s" },
	{ html::tag_name::Samp, U"samp" },
	{ html::tag_name::Scalarproduct, U"scalarproduct" },
	{ html::tag_name::Script, U"script" },
	{ html::tag_name::Sdev, U"sdev" },
	{ html::tag_name::Sec, U"sec" },
	{ html::tag_name::Sech, U"sech" },
	{ html::tag_name::Section, U"section" },
	{ html::tag_name::Select, U"select" },
	{ html::tag_name::Selector, U"selector" },
	{ html::tag_name::Semantics, U"semantics" },
	{ html::tag_name::Sep, U"sep" },
	{ html::tag_name::Set, U"set" },
	{ html::tag_name::Setdiff, U"setdiff" },
	{ html::tag_name::Share, U"share" },
	{ html::tag_name::Sin, U"sin" },
	{ html::tag_name::Sinh, U"sinh" },
	{ html::tag_name::Slot, U"slot" },
	{ html::tag_name::Small, U"small" },
	{ html::tag_name::Source, U"source" },
	{ html::tag_name::Span, U"span" },
	{ html::tag_name::Stop, U"stop" },
	{ html::tag_name::Strike, U"strike" },
	{ html::tag_name::Strong, U"strong" },
	{ html::tag_name::Style, U"style" },
	{ html::tag_name::Sub, U"sub" },
	{ html::tag_name::Subset, U"subset" },
	{ html::tag_name::Sum, U"sum" },
	{ html::tag_name::Summary, U"summary" },
	{ html::tag_name::Sup, U"sup" },
	{ html::tag_name::Svg, U"svg" },
	{ html::tag_name::Switch, U"switch" },
	{ html::tag_name::Symbol, U"symbol" },
	{ html::tag_name::Table, U"table" },
	{ html::tag_name::Tan, U"tan" },
	{ html::tag_name::Tanh, U"tanh" },
	{ html::tag_name::Tbody, U"tbody" },
	{ html::tag_name::Td, U"td" },
	{ html::tag_name::Template, U"template" },
	{ html::tag_name::Tendsto, U"tendsto" },
	{ html::tag_name::Text, U"text" },
	{ html::tag_name::TextPath, U"textPath" },
	{ html::tag_name::Textarea, U"textarea" },
	{ html::tag_name::Textpath, U"textpath" },
	{ html::tag_name::Tfoot, U"tfoot" },
	{ html::tag_name::Th, U"th" },
	{ html::tag_name::Thead, U"thead" },
	{ html::tag_name::Time, U"time" },
	{ html::tag_name::Times, U"times" },
	{ html::tag_name::Title, U"title" },
	{ html::tag_name::Tr, U"tr" },
	{ html::tag_name::Track, U"track" },
	{ html::tag_name::Transpose, U"transpose" },
	{ html::tag_name::True, U"true" },
	{ html::tag_name::Tspan, U"tspan" },
	{ html::tag_name::Tt, U"tt" },
	{ html::tag_name::U, U"u" },
	{ html::tag_name::Ul, U"ul" },
	{ html::tag_name::Union, U"union" },
	{ html::tag_name::Uplimit, U"uplimit" },
	{ html::tag_name::Use, U"use" },
	{ html::tag_name::Var, U"var" },
	{ html::tag_name::Variance, U"variance" },
	{ html::tag_name::Vector, U"vector" },
	{ html::tag_name::Vectorproduct, U"vectorproduct" },
	{ html::tag_name::Video, U"video" },
	{ html::tag_name::View, U"view" },
	{ html::tag_name::Wbr, U"wbr" },
	{ html::tag_name::Xmp, U"xmp" },
	{ html::tag_name::Xor, U"xor" },
};
inline Known<html::attribute_name> const known_attributes[] = {
	{ html::attribute_name::Abbr, U"abbr" },
	{ html::attribute_name::Accent, U"accent" },
	{ html::attribute_name::Accentunder, U"accentunder" },
	{ html::attribute_name::Accept, U"accept" },
	{ html::attribute_name::Accept_charset, U"accept-charset" },
	{ html::attribute_name::Accesskey, U"accesskey" },
	{ html::attribute_name::Accumulate, U"accumulate" },
	{ html::attribute_name::Action, U"action" },
	{ html::attribute_name::Actiontype, U"actiontype" },
	{ html::attribute_name::Actuate, U"actuate" },
	{ html::attribute_name::Additive, U"additive" },
	{ html::attribute_name::Align, U"align" },
	{ html::attribute_name::Alignment_baseline, U"alignment-baseline" },
	{ html::attribute_name::Alignmentscope, U"alignmentscope" },
	{ html::attribute_name::Allow, U"allow" },
	{ html::attribute_name::Allowfullscreen, U"allowfullscreen" },
	{ html::attribute_name::Allowpaymentrequest, U"allowpaymentrequest" },
	{ html::attribute_name::Alt, U"alt" },
	{ html::attribute_name::Altimg, U"altimg" },
	{ html::attribute_name::Altimg_height, U"altimg-height" },
	{ html::attribute_name::Altimg_valign, U"altimg-valign" },
	{ html::attribute_name::Altimg_width, U"altimg-width" },
	{ html::attribute_name::Alttext, U"alttext" },
	{ html::attribute_name::Amplitude, U"amplitude" },
	{ html::attribute_name::Annotation_xml, U"annotation-xml" },
	{ html::attribute_name::Arcrole, U"arcrole" },
	{ html::attribute_name::Aria_activedescendant, U"aria-activedescendant" },
	{ html::attribute_name::Aria_atomic, U"aria-atomic" },
	{ html::attribute_name::Aria_autocomplete, U"aria-autocomplete" },
	{ html::attribute_name::Aria_busy, U"aria-busy" },
	{ html::attribute_name::Aria_checked, U"aria-checked" },
	{ html::attribute_name::Aria_colcount, U"aria-colcount" },
	{ html::attribute_name::Aria_colindex, U"aria-colindex" },
	{ html::attribute_name::Aria_colspan, U"aria-colspan" },
	{ html::attribute_name::Aria_controls, U"aria-controls" },
	{ html::attribute_name::Aria_current, U"aria-current" },
	{ html::attribute_name::Aria_describedby, U"aria-describedby" },
	{ html::attribute_name::Aria_details, U"aria-details" },
	{ html::attribute_name::Aria_disabled, U"aria-disabled" },
	{ html::attribute_name::Aria_dropeffect, U"aria-dropeffect" },
	{ html::attribute_name::Aria_errormessage, U"aria-errormessage" },
	{ html::attribute_name::Aria_expanded, U"aria-expanded" },
	{ html::attribute_name::Aria_flowto, U"aria-flowto" },
	{ html::attribute_name::Aria_grabbed, U"aria-grabbed" },
	{ html::attribute_name::Aria_haspopup, U"aria-haspopup" },
	{ html::attribute_name::Aria_hidden, U"aria-hidden" },
	{ html::attribute_name::Aria_invalid, U"aria-invalid" },
	{ html::attribute_name::Aria_keyshortcuts, U"aria-keyshortcuts" },
	{ html::attribute_name::Aria_label, U"aria-label" },
	{ html::attribute_name::Aria_labelledby, U"aria-labelledby" },
	{ html::attribute_name::Aria_level, U"aria-level" },
	{ html::attribute_name::Aria_live, U"aria-live" },
	{ html::attribute_name::Aria_modal, U"aria-modal" },
	{ html::attribute_name::Aria_multiline, U"aria-multiline" },
	{ html::attribute_name::Aria_multiselectable, U"aria-multiselectable" },
	{ html::attribute_name::Aria_orientation, U"aria-orientation" },
	{ html::attribute_name::Aria_owns, U"aria-owns" },
	{ html::attribute_name::Aria_placeholder, U"aria-placeholder" },
	{ html::attribute_name::Aria_posinset, U"aria-posinset" },
	{ html::attribute_name::Aria_pressed, U"aria-pressed" },
	{ html::attribute_name::Aria_readonly, U"aria-readonly" },
	{ html::attribute_name::Aria_relevant, U"aria-relevant" },
	{ html::attribute_name::Aria_required, U"aria-required" },
	{ html::attribute_name::Aria_roledescription, U"aria-roledescription" },
	{ html::attribute_name::Aria_rowcount, U"aria-rowcount" },
	{ html::attribute_name::Aria_rowindex, U"aria-rowindex" },
	{ html::attribute_name::Aria_rowspan, U"aria-rowspan" },
	{ html::attribute_name::Aria_selected, U"aria-selected" },
	{ html::attribute_name::Aria_setsize, U"aria-setsize" },
	{ html::attribute_name::Aria_sort, U"aria-sort" },
	{ html::attribute_name::Aria_valuemax, U"aria-valuemax" },
	{ html::attribute_name::Aria_valuemin, U"aria-valuemin" },
	{ html::attribute_name::Aria_valuenow, U"aria-valuenow" },
	{ html::attribute_name::Aria_valuetext, U"aria-valuetext" },
	{ html::attribute_name::As, U"as" },
	{ html::attribute_name::Async, U"async" },
	{ html::attribute_name::AttributeName, U"attributeName" },
	{ html::attribute_name::AttributeType, U"attributeType" },
	{ html::attribute_name::Attributename, U"attributename" },
	{ html::attribute_name::Attributetype, U"attributetype" },
	{ html::attribute_name::Autocapitalize, U"autocapitalize" },
	{ html::attribute_name::Autocomplete, U"autocomplete" },
	{ html::attribute_name::Autofocus, U"autofocus" },
	{ html::attribute_name::Autoplay, U"autoplay" },
	{ html::attribute_name::Azimuth, U"azimuth" },
	{ html::attribute_name::Background, U"background" },
	{ html::attribute_name::Base, U"base" },
	{ html::attribute_name::BaseFrequency, U"baseFrequency" },
	{ html::attribute_name::BaseProfile, U"baseProfile" },
	{ html::attribute_name::Basefrequency, U"basefrequency" },
	{ html::attribute_name::Baseline, U"baseline" },
	{ html::attribute_name::Baseline_shift, U"baseline-shift" },
	{ html::attribute_name::Baseprofile, U"baseprofile" },
	{ html::attribute_name::Begin, U"begin" },
	{ html::attribute_name::Bevelled, U"bevelled" },
	{ html::attribute_name::Bias, U"bias" },
	{ html::attribute_name::By, U"by" },
	{ html::attribute_name::CalcMode, U"calcMode" },
	{ html::attribute_name::Calcmode, U"calcmode" },
	{ html::attribute_name::Cd, U"cd" },
	{ html::attribute_name::Cdgroup, U"cdgroup" },
	{ html::attribute_name::Charalign, U"charalign" },
	{ html::attribute_name::Charset, U"charset" },
	{ html::attribute_name::Charspacing, U"charspacing" },
	{ html::attribute_name::Checked, U"checked" },
	{ html::attribute_name::Cite, U"cite" },
	{ html::attribute_name::Class, U"class" },
	{ html::attribute_name::Clip, U"clip" },
	{ html::attribute_name::Clip_path, U"clip-path" },
	{ html::attribute_name::Clip_rule, U"clip-rule" },
	{ html::attribute_name::ClipPathUnits, U"clipPathUnits" },
	{ html::attribute_name::Clippathunits, U"clippathunits" },
	{ html::attribute_name::Close, U"close" },
	{ html::attribute_name::Closure, U"closure" },
	{ html::attribute_name::Color, U"color" },
	{ html::attribute_name::Color_interpolation, U"color-interpolation" },
	{ html::attribute_name::Color_interpolation_filters, U"color-interpolation-filters" },
	{ html::attribute_name::Cols, U"cols" },
	{ html::attribute_name::Colspan, U"colspan" },
	{ html::attribute_name::Columnalign, U"columnalign" },
	{ html::attribute_name::Columnalignment, U"columnalignment" },
	{ html::attribute_name::Columnlines, U"columnlines" },
	{ html::attribute_name::Columnspacing, U"columnspacing" },
	{ html::attribute_name::Columnspan, U"columnspan" },
	{ html::attribute_name::Columnwidth, U"columnwidth" },
	{ html::attribute_name::Content, U"content" },
	{ html::attribute_name::Contenteditable, U"contenteditable" },
	{ html::attribute_name::Controls, U"controls" },
	{ html::attribute_name::Coords, U"coords" },
	{ html::attribute_name::Crossorigin, U"crossorigin" },
	{ html::attribute_name::Crossout, U"crossout" },
	{ html::attribute_name::Cursor, U"cursor" },
	{ html::attribute_name::Cx, U"cx" },
	{ html::attribute_name::Cy, U"cy" },
	{ html::attribute_name::Data, U"data" },
	{ html::attribute_name::Datetime, U"datetime" },
	{ html::attribute_name::Decimalpoint, U"decimalpoint" },
	{ html::attribute_name::Decoding, U"decoding" },
	{ html::attribute_name::Default, U"default" },
	{ html::attribute_name::Defer, U"defer" },
	{ html::attribute_name::DefinitionURL, U"definitionURL" },
	{ html::attribute_name::Definitionurl, U"definitionurl" },
	{ html::attribute_name::Denomalign, U"denomalign" },
	{ html::attribute_name::Depth, U"depth" },
	{ html::attribute_name::DiffuseConstant, U"diffuseConstant" },
	{ html::attribute_name::Diffuseconstant, U"diffuseconstant" },
	{ html::attribute_name::Dir, U"dir" },
	{ html::attribute_name::Direction, U"direction" },
	{ html::attribute_name::Dirname, U"dirname" },
	{ html::attribute_name::Disabled, U"disabled" },
	{ html::attribute_name::Display, U"display" },
	{ html::attribute_name::Displaystyle, U"displaystyle" },
	{ html::attribute_name::Divisor, U"divisor" },
	{ html::attribute_name::Dominant_baseline, U"dominant-baseline" },
	{ html::attribute_name::Download, U"download" },
	{ html::attribute_name::Draggable, U"draggable" },
	{ html::attribute_name::Dur, U"dur" },
	{ html::attribute_name::Dx, U"dx" },
	{ html::attribute_name::Dy, U"dy" },
	{ html::attribute_name::Edge, U"edge" },
	{ html::attribute_name::EdgeMode, U"edgeMode" },
	{ html::attribute_name::Edgemode, U"edgemode" },
	{ html::attribute_name::Elevation, U"elevation" },
	{ html::attribute_name::Encoding, U"encoding" },
	{ html::attribute_name::Enctype, U"enctype" },
	{ html::attribute_name::End, U"end" },
	{ html::attribute_name::Enterkeyhint, U"enterkeyhint" },
	{ html::attribute_name::Equalcolumns, U"equalcolumns" },
	{ html::attribute_name::Equalrows, U"equalrows" },
	{ html::attribute_name::Exponent, U"exponent" },
	{ html::attribute_name::Fence, U"fence" },
	{ html::attribute_name::Fill, U"fill" },
	{ html::attribute_name::Fill_opacity, U"fill-opacity" },
	{ html::attribute_name::Fill_rule, U"fill-rule" },
	{ html::attribute_name::Filter, U"filter" },
	{ html::attribute_name::FilterUnits, U"filterUnits" },
	{ html::attribute_name::Filterunits, U"filterunits" },
	{ html::attribute_name::Flood_color, U"flood-color" },
	{ html::attribute_name::Flood_opacity, U"flood-opacity" },
	{ html::attribute_name::Font_family, U"font-family" },
	{ html::attribute_name::Font_size, U"font-size" },
	{ html::attribute_name::Font_size_adjust, U"font-size-adjust" },
	{ html::attribute_name::Font_stretch, U"font-stretch" },
	{ html::attribute_name::Font_style, U"font-style" },
	{ html::attribute_name::Font_variant, U"font-variant" },
	{ html::attribute_name::Font_weight, U"font-weight" },
	{ html::attribute_name::Fontfamily, U"fontfamily" },
	{ html::attribute_name::Fontsize, U"fontsize" },
	{ html::attribute_name::Fontstyle, U"fontstyle" },
	{ html::attribute_name::Fontweight, U"fontweight" },
	{ html::attribute_name::For, U"for" },
	{ html::attribute_name::Form, U"form" },
	{ html::attribute_name::Formaction, U"formaction" },
	{ html::attribute_name::Formenctype, U"formenctype" },
	{ html::attribute_name::Formmethod, U"formmethod" },
	{ html::attribute_name::Formnovalidate, U"formnovalidate" },
	{ html::attribute_name::Formtarget, U"formtarget" },
	{ html::attribute_name::Fr, U"fr" },
	{ html::attribute_name::Frame, U"frame" },
	{ html::attribute_name::Framespacing, U"framespacing" },
	{ html::attribute_name::From, U"from" },
	{ html::attribute_name::Fx, U"fx" },
	{ html::attribute_name::Fy, U"fy" },
	{ html::attribute_name::Glyph_orientation_horizontal, U"glyph-orientation-horizontal" },
	{ html::attribute_name::Glyph_orientation_vertical, U"glyph-orientation-vertical" },
	{ html::attribute_name::GlyphRef, U"glyphRef" },
	{ html::attribute_name::Glyphref, U"glyphref" },
	{ html::attribute_name::GradientTransform, U"gradientTransform" },
	{ html::attribute_name::GradientUnits, U"gradientUnits" },
	{ html::attribute_name::Gradienttransform, U"gradienttransform" },
	{ html::attribute_name::Gradientunits, U"gradientunits" },
	{ html::attribute_name::Groupalign, U"groupalign" },
	{ html::attribute_name::Headers, U"headers" },
	{ html::attribute_name::Height, U"height" },
	{ html::attribute_name::Hidden, U"hidden" },
	{ html::attribute_name::High, U"high" },
	{ html::attribute_name::Href, U"href" },
	{ html::attribute_name::Hreflang, U"hreflang" },
	{ html::attribute_name::Http_equiv, U"http-equiv" },
	{ html::attribute_name::Id, U"id" },
	{ html::attribute_name::Image_rendering, U"image-rendering" },
	{ html::attribute_name::Imagesizes, U"imagesizes" },
	{ html::attribute_name::Imagesrcset, U"imagesrcset" },
	{ html::attribute_name::In, U"in" },
	{ html::attribute_name::In2, U"in2" },
	{ html::attribute_name::Indentalign, U"indentalign" },
	{ html::attribute_name::Indentalignfirst, U"indentalignfirst" },
	{ html::attribute_name::Indentalignlast, U"indentalignlast" },
	{ html::attribute_name::Indentshift, U"indentshift" },
	{ html::attribute_name::Indentshiftfirst, U"indentshiftfirst" },
	{ html::attribute_name::Indentshiftlast, U"indentshiftlast" },
	{ html::attribute_name::Indenttarget, U"indenttarget" },
	{ html::attribute_name::Index, U"index" },
	{ html::attribute_name::Infixlinebreakstyle, U"infixlinebreakstyle" },
	{ html::attribute_name::Inputmode, U"inputmode" },
	{ html::attribute_name::Integer, U"integer" },
	{ html::attribute_name::Integrity, U"integrity" },
	{ html::attribute_name::Intercept, U"intercept" },
	{ html::attribute_name::Is, U"is" },
	{ html::attribute_name::Ismap, U"ismap" },
	{ html::attribute_name::Itemid, U"itemid" },
	{ html::attribute_name::Itemprop, U"itemprop" },
	{ html::attribute_name::Itemref, U"itemref" },
	{ html::attribute_name::Itemscope, U"itemscope" },
	{ html::attribute_name::Itemtype, U"itemtype" },
	{ html::attribute_name::K1, U"k1" },
	{ html::attribute_name::K2, U"k2" },
	{ html::attribute_name::K3, U"k3" },
	{ html::attribute_name::K4, U"k4" },
	{ html::attribute_name::KernelMatrix, U"kernelMatrix" },
	{ html::attribute_name::KernelUnitLength, U"kernelUnitLength" },
	{ html::attribute_name::Kernelmatrix, U"kernelmatrix" },
	{ html::attribute_name::Kernelunitlength, U"kernelunitlength" },
	{ html::attribute_name::KeyPoints, U"keyPoints" },
	{ html::attribute_name::KeySplines, U"keySplines" },
	{ html::attribute_name::KeyTimes, U"keyTimes" },
	{ html::attribute_name::Keypoints, U"keypoints" },
	{ html::attribute_name::Keysplines, U"keysplines" },
	{ html::attribute_name::Keytimes, U"keytimes" },
	{ html::attribute_name::Kind, U"kind" },
	{ html::attribute_name::Label, U"label" },
	{ html::attribute_name::Lang, U"lang" },
	{ html::attribute_name::Largeop, U"largeop" },
	{ html::attribute_name::Leftoverhang, U"leftoverhang" },
	{ html::attribute_name::Length, U"length" },
	{ html::attribute_name::LengthAdjust, U"lengthAdjust" },
	{ html::attribute_name::Lengthadjust, U"lengthadjust" },
	{ html::attribute_name::Letter_spacing, U"letter-spacing" },
	{ html::attribute_name::Lighting_color, U"lighting-color" },
	{ html::attribute_name::LimitingConeAngle, U"limitingConeAngle" },
	{ html::attribute_name::Limitingconeangle, U"limitingconeangle" },
	{ html::attribute_name::Linebreak, U"linebreak" },
	{ html::attribute_name::Linebreakmultchar, U"linebreakmultchar" },
	{ html::attribute_name::Linebreakstyle, U"linebreakstyle" },
	{ html::attribute_name::Lineleading, U"lineleading" },
	{ html::attribute_name::Linethickness, U"linethickness" },
	{ html::attribute_name::List, U"list" },
	{ html::attribute_name::Loading, U"loading" },
	{ html::attribute_name::Location, U"location" },
	{ html::attribute_name::Longdivstyle, U"longdivstyle" },
	{ html::attribute_name::Loop, U"loop" },
	{ html::attribute_name::Low, U"low" },
	{ html::attribute_name::Lquote, U"lquote" },
	{ html::attribute_name::Lspace, U"lspace" },
	{ html::attribute_name::Ltr, U"ltr" },
	{ html::attribute_name::Macros, U"macros" },
	{ html::attribute_name::Manifest, U"manifest" },
	{ html::attribute_name::Marker_end, U"marker-end" },
	{ html::attribute_name::Marker_mid, U"marker-mid" },
	{ html::attribute_name::Marker_start, U"marker-start" },
	{ html::attribute_name::MarkerHeight, U"markerHeight" },
	{ html::attribute_name::MarkerUnits, U"markerUnits" },
	{ html::attribute_name::MarkerWidth, U"markerWidth" },
	{ html::attribute_name::Markerheight, U"markerheight" },
	{ html::attribute_name::Markerunits, U"markerunits" },
	{ html::attribute_name::Markerwidth, U"markerwidth" },
	{ html::attribute_name::Mask, U"mask" },
	{ html::attribute_name::Mask_type, U"mask-type" },
	{ html::attribute_name::MaskContentUnits, U"maskContentUnits" },
	{ html::attribute_name::MaskUnits, U"maskUnits" },
	{ html::attribute_name::Maskcontentunits, U"maskcontentunits" },
	{ html::attribute_name::Maskunits, U"maskunits" },
	{ html::attribute_name::Math, U"math" },
	{ html::attribute_name::Math_element, U"math element" },
	{ html::attribute_name::Mathbackground, U"mathbackground" },
	{ html::attribute_name::Mathcolor, U"mathcolor" },
	{ html::attribute_name::Mathsize, U"mathsize" },
	{ html::attribute_name::Mathvariant, U"mathvariant" },
	{ html::attribute_name::Max, U"max" },
	{ html::attribute_name::Maxlength, U"maxlength" },
	{ html::attribute_name::Maxsize, U"maxsize" },
	{ html::attribute_name::Maxwidth, U"maxwidth" },
	{ html::attribute_name::Media, U"media" },
	{ html::attribute_name::Mediummathspace, U"mediummathspace" },
	{ html::attribute_name::Menclose, U"menclose" },
	{ html::attribute_name::Method, U"method" },
	{ html::attribute_name::Min, U"min" },
	{ html::attribute_name::Minlabelspacing, U"minlabelspacing" },
	{ html::attribute_name::Minlength, U"minlength" },
	{ html::attribute_name::Minsize, U"minsize" },
	{ html::attribute_name::Mode, U"mode" },
	{ html::attribute_name::Movablelimits, U"movablelimits" },
	{ html::attribute_name::Msgroup, U"msgroup" },
	{ html::attribute_name::Mslinethickness, U"mslinethickness" },
	{ html::attribute_name::Multiple, U"multiple" },
	{ html::attribute_name::Muted, U"muted" },
	{ html::attribute_name::Name, U"name" },
	{ html::attribute_name::Nargs, U"nargs" },
	{ html::attribute_name::Newline, U"newline" },
	{ html::attribute_name::Nomodule, U"nomodule" },
	{ html::attribute_name::Nonce, U"nonce" },
	{ html::attribute_name::Notation, U"notation" },
	{ html::attribute_name::Novalidate, U"novalidate" },
	{ html::attribute_name::NumOctaves, U"numOctaves" },
	{ html::attribute_name::Numalign, U"numalign" },
	{ html::attribute_name::Number, U"number" },
	{ html::attribute_name::Numoctaves, U"numoctaves" },
	{ html::attribute_name::Occurrence, U"occurrence" },
	{ html::attribute_name::Offset, U"offset" },
	{ html::attribute_name::Onabort, U"onabort" },
	{ html::attribute_name::Onafterprint, U"onafterprint" },
	{ html::attribute_name::Onauxclick, U"onauxclick" },
	{ html::attribute_name::Onbeforeprint, U"onbeforeprint" },
	{ html::attribute_name::Onbeforeunload, U"onbeforeunload" },
	{ html::attribute_name::Onbegin, U"onbegin" },
	{ html::attribute_name::Onblur, U"onblur" },
	{ html::attribute_name::Oncancel, U"oncancel" },
	{ html::attribute_name::Oncanplay, U"oncanplay" },
	{ html::attribute_name::Oncanplaythrough, U"oncanplaythrough" },
	{ html::attribute_name::Onchange, U"onchange" },
	{ html::attribute_name::Onclick, U"onclick" },
	{ html::attribute_name::Onclose, U"onclose" },
	{ html::attribute_name::Oncontextmenu, U"oncontextmenu" },
	{ html::attribute_name::Oncopy, U"oncopy" },
	{ html::attribute_name::Oncuechange, U"oncuechange" },
	{ html::attribute_name::Oncut, U"oncut" },
	{ html::attribute_name::Ondblclick, U"ondblclick" },
	{ html::attribute_name::Ondrag, U"ondrag" },
	{ html::attribute_name::Ondragend, U"ondragend" },
	{ html::attribute_name::Ondragenter, U"ondragenter" },
	{ html::attribute_name::Ondragexit, U"ondragexit" },
	{ html::attribute_name::Ondragleave, U"ondragleave" },
	{ html::attribute_name::Ondragover, U"ondragover" },
	{ html::attribute_name::Ondragstart, U"ondragstart" },
	{ html::attribute_name::Ondrop, U"ondrop" },
	{ html::attribute_name::Ondurationchange, U"ondurationchange" },
	{ html::attribute_name::Onemptied, U"onemptied" },
	{ html::attribute_name::Onend, U"onend" },
	{ html::attribute_name::Onended, U"onended" },
	{ html::attribute_name::Onerror, U"onerror" },
	{ html::attribute_name::Onfocus, U"onfocus" },
	{ html::attribute_name::Onformdata, U"onformdata" },
	{ html::attribute_name::Onhashchange, U"onhashchange" },
	{ html::attribute_name::Oninput, U"oninput" },
	{ html::attribute_name::Oninvalid, U"oninvalid" },
	{ html::attribute_name::Onkeydown, U"onkeydown" },
	{ html::attribute_name::Onkeypress, U"onkeypress" },
	{ html::attribute_name::Onkeyup, U"onkeyup" },
	{ html::attribute_name::Onlanguagechange, U"onlanguagechange" },
	{ html::attribute_name::Onload, U"onload" },
	{ html::attribute_name::Onloadeddata, U"onloadeddata" },
	{ html::attribute_name::Onloadedmetadata, U"onloadedmetadata" },
	{ html::attribute_name::Onloadstart, U"onloadstart" },
	{ html::attribute_name::Onmessage, U"onmessage" },
	{ html::attribute_name::Onmessageerror, U"onmessageerror" },
	{ html::attribute_name::Onmousedown, U"onmousedown" },
	{ html::attribute_name::Onmouseenter, U"onmouseenter" },
	{ html::attribute_name::Onmouseleave, U"onmouseleave" },
	{ html::attribute_name::Onmousemove, U"onmousemove" },
	{ html::attribute_name::Onmouseout, U"onmouseout" },
	{ html::attribute_name::Onmouseover, U"onmouseover" },
	{ html::attribute_name::Onmouseup, U"onmouseup" },
	{ html::attribute_name::Onoffline, U"onoffline" },
	{ html::attribute_name::Ononline, U"ononline" },
	{ html::attribute_name::Onpagehide, U"onpagehide" },
	{ html::attribute_name::Onpageshow, U"onpageshow" },
	{ html::attribute_name::Onpaste, U"onpaste" },
	{ html::attribute_name::Onpause, U"onpause" },
	{ html::attribute_name::Onplay, U"onplay" },
	{ html::attribute_name::Onplaying, U"onplaying" },
	{ html::attribute_name::Onpopstate, U"onpopstate" },
	{ html::attribute_name::Onprogress, U"onprogress" },
	{ html::attribute_name::Onratechange, U"onratechange" },
	{ html::attribute_name::Onrejectionhandled, U"onrejectionhandled" },
	{ html::attribute_name::Onrepeat, U"onrepeat" },
	{ html::attribute_name::Onreset, U"onreset" },
	{ html::attribute_name::Onresize, U"onresize" },
	{ html::attribute_name::Onscroll, U"onscroll" },
	{ html::attribute_name::Onsecuritypolicyviolation, U"onsecuritypolicyviolation" },
	{ html::attribute_name::Onseeked, U"onseeked" },
	{ html::attribute_name::Onseeking, U"onseeking" },
	{ html::attribute_name::Onselect, U"onselect" },
	{ html::attribute_name::Onshow, U"onshow" },
	{ html::attribute_name::Onslotchange, U"onslotchange" },
	{ html::attribute_name::Onstalled, U"onstalled" },
	{ html::attribute_name::Onstorage, U"onstorage" },
	{ html::attribute_name::Onsubmit, U"onsubmit" },
	{ html::attribute_name::Onsuspend, U"onsuspend" },
	{ html::attribute_name::Ontimeupdate, U"ontimeupdate" },
	{ html::attribute_name::Ontoggle, U"ontoggle" },
	{ html::attribute_name::Onunhandledrejection, U"onunhandledrejection" },
	{ html::attribute_name::Onunload, U"onunload" },
	{ html::attribute_name::Onvolumechange, U"onvolumechange" },
	{ html::attribute_name::Onwaiting, U"onwaiting" },
	{ html::attribute_name::Onwheel, U"onwheel" },
	{ html::attribute_name::Opacity, U"opacity" },
	{ html::attribute_name::Open, U"open" },
	{ html::attribute_name::Operator, U"operator" },
	{ html::attribute_name::Optimum, U"optimum" },
	{ html::attribute_name::Order, U"order" },
	{ html::attribute_name::Orient, U"orient" },
	{ html::attribute_name::Origin, U"origin" },
	{ html::attribute_name::Other, U"other" },
	{ html::attribute_name::Overflow, U"overflow" },
	{ html::attribute_name::Paint_order, U"paint-order" },
	{ html::attribute_name::Path, U"path" },
	{ html::attribute_name::PathLength, U"pathLength" },
	{ html::attribute_name::Pathlength, U"pathlength" },
	{ html::attribute_name::Pattern, U"pattern" },
	{ html::attribute_name::PatternContentUnits, U"patternContentUnits" },
	{ html::attribute_name::PatternTransform, U"patternTransform" },
	{ html::attribute_name::PatternUnits, U"patternUnits" },
	{ html::attribute_name::Patterncontentunits, U"patterncontentunits" },
	{ html::attribute_name::Patterntransform, U"patterntransform" },
	{ html::attribute_name::Patternunits, U"patternunits" },
	{ html::attribute_name::Ping, U"ping" },
	{ html::attribute_name::Placeholder, U"placeholder" },
	{ html::attribute_name::Playbackorder, U"playbackorder" },
	{ html::attribute_name::Playsinline, U"playsinline" },
	{ html::attribute_name::Pointer_events, U"pointer-events" },
	{ html::attribute_name::Points, U"points" },
	{ html::attribute_name::PointsAtX, U"pointsAtX" },
	{ html::attribute_name::PointsAtY, U"pointsAtY" },
	{ html::attribute_name::PointsAtZ, U"pointsAtZ" },
	{ html::attribute_name::Pointsatx, U"pointsatx" },
	{ html::attribute_name::Pointsaty, U"pointsaty" },
	{ html::attribute_name::Pointsatz, U"pointsatz" },
	{ html::attribute_name::Position, U"position" },
	{ html::attribute_name::Poster, U"poster" },
	{ html::attribute_name::Preload, U"preload" },
	{ html::attribute_name::PreserveAlpha, U"preserveAlpha" },
	{ html::attribute_name::PreserveAspectRatio, U"preserveAspectRatio" },
	{ html::attribute_name::Preservealpha, U"preservealpha" },
	{ html::attribute_name::Preserveaspectratio, U"preserveaspectratio" },
	{ html::attribute_name::PrimitiveUnits, U"primitiveUnits" },
	{ html::attribute_name::Primitiveunits, U"primitiveunits" },
	{ html::attribute_name::R, U"r" },
	{ html::attribute_name::Radius, U"radius" },
	{ html::attribute_name::Readonly, U"readonly" },
	{ html::attribute_name::RefX, U"refX" },
	{ html::attribute_name::RefY, U"refY" },
	{ html::attribute_name::Referrerpolicy, U"referrerpolicy" },
	{ html::attribute_name::Refx, U"refx" },
	{ html::attribute_name::Refy, U"refy" },
	{ html::attribute_name::Rel, U"rel" },
	{ html::attribute_name::RepeatCount, U"repeatCount" },
	{ html::attribute_name::RepeatDur, U"repeatDur" },
	{ html::attribute_name::Repeatcount, U"repeatcount" },
	{ html::attribute_name::Repeatdur, U"repeatdur" },
	{ html::attribute_name::Required, U"required" },
	{ html::attribute_name::RequiredExtensions, U"requiredExtensions" },
	{ html::attribute_name::RequiredFeatures, U"requiredFeatures" },
	{ html::attribute_name::Requiredextensions, U"requiredextensions" },
	{ html::attribute_name::Requiredfeatures, U"requiredfeatures" },
	{ html::attribute_name::Restart, U"restart" },
	{ html::attribute_name::Result, U"result" },
	{ html::attribute_name::Reversed, U"reversed" },
	{ html::attribute_name::Rightoverhang, U"rightoverhang" },
	{ html::attribute_name::Role, U"role" },
	{ html::attribute_name::Rotate, U"rotate" },
	{ html::attribute_name::Rowalign, U"rowalign" },
	{ html::attribute_name::Rowlines, U"rowlines" },
	{ html::attribute_name::Rows, U"rows" },
	{ html::attribute_name::Rowspacing, U"rowspacing" },
	{ html::attribute_name::Rowspan, U"rowspan" },
	{ html::attribute_name::Rquote, U"rquote" },
	{ html::attribute_name::Rspace, U"rspace" },
	{ html::attribute_name::Sandbox, U"sandbox" },
	{ html::attribute_name::Scale, U"scale" },
	{ html::attribute_name::SchemaLocation, U"schemaLocation" },
	{ html::attribute_name::Schemalocation, U"schemalocation" },
	{ html::attribute_name::Scope, U"scope" },
	{ html::attribute_name::Scriptlevel, U"scriptlevel" },
	{ html::attribute_name::Scriptminsize, U"scriptminsize" },
	{ html::attribute_name::Scriptsize, U"scriptsize" },
	{ html::attribute_name::Scriptsizemultiplier, U"scriptsizemultiplier" },
	{ html::attribute_name::Seed, U"seed" },
	{ html::attribute_name::Selected, U"selected" },
	{ html::attribute_name::Selection, U"selection" },
	{ html::attribute_name::Separator, U"separator" },
	{ html::attribute_name::Separators, U"separators" },
	{ html::attribute_name::Shape, U"shape" },
	{ html::attribute_name::Shape_rendering, U"shape-rendering" },
	{ html::attribute_name::Shift, U"shift" },
	{ html::attribute_name::Show, U"show" },
	{ html::attribute_name::Side, U"side" },
	{ html::attribute_name::Size, U"size" },
	{ html::attribute_name::Sizes, U"sizes" },
	{ html::attribute_name::Slope, U"slope" },
	{ html::attribute_name::Slot, U"slot" },
	{ html::attribute_name::Space, U"space" },
	{ html::attribute_name::Spacing, U"spacing" },
	{ html::attribute_name::Span, U"span" },
	{ html::attribute_name::SpecularConstant, U"specularConstant" },
	{ html::attribute_name::SpecularExponent, U"specularExponent" },
	{ html::attribute_name::Specularconstant, U"specularconstant" },
	{ html::attribute_name::Specularexponent, U"specularexponent" },
	{ html::attribute_name::Spellcheck, U"spellcheck" },
	{ html::attribute_name::SpreadMethod, U"spreadMethod" },
	{ html::attribute_name::Spreadmethod, U"spreadmethod" },
	{ html::attribute_name::Src, U"src" },
	{ html::attribute_name::Srcdoc, U"srcdoc" },
	{ html::attribute_name::Srclang, U"srclang" },
	{ html::attribute_name::Srcset, U"srcset" },
	{ html::attribute_name::Stackalign, U"stackalign" },
	{ html::attribute_name::Start, U"start" },
	{ html::attribute_name::StartOffset, U"startOffset" },
	{ html::attribute_name::Startoffset, U"startoffset" },
	{ html::attribute_name::StdDeviation, U"stdDeviation" },
	{ html::attribute_name::Stddeviation, U"stddeviation" },
	{ html::attribute_name::Step, U"step" },
	{ html::attribute_name::StitchTiles, U"stitchTiles" },
	{ html::attribute_name::Stitchtiles, U"stitchtiles" },
	{ html::attribute_name::Stop_color, U"stop-color" },
	{ html::attribute_name::Stop_opacity, U"stop-opacity" },
	{ html::attribute_name::Stretchy, U"stretchy" },
	{ html::attribute_name::Stroke, U"stroke" },
	{ html::attribute_name::Stroke_dasharray, U"stroke-dasharray" },
	{ html::attribute_name::Stroke_dashoffset, U"stroke-dashoffset" },
	{ html::attribute_name::Stroke_linecap, U"stroke-linecap" },
	{ html::attribute_name::Stroke_linejoin, U"stroke-linejoin" },
	{ html::attribute_name::Stroke_miterlimit, U"stroke-miterlimit" },
	{ html::attribute_name::Stroke_opacity, U"stroke-opacity" },
	{ html::attribute_name::Stroke_width, U"stroke-width" },
	{ html::attribute_name::Style, U"style" },
	{ html::attribute_name::Subscriptshift, U"subscriptshift" },
	{ html::attribute_name::Superscriptshift, U"superscriptshift" },
	{ html::attribute_name::SurfaceScale, U"surfaceScale" },
	{ html::attribute_name::Surfacescale, U"surfacescale" },
	{ html::attribute_name::Symmetric, U"symmetric" },
	{ html::attribute_name::SystemLanguage, U"systemLanguage" },
	{ html::attribute_name::Systemlanguage, U"systemlanguage" },
	{ html::attribute_name::Tabindex, U"tabindex" },
	{ html::attribute_name::TableValues, U"tableValues" },
	{ html::attribute_name::Tablevalues, U"tablevalues" },
	{ html::attribute_name::Target, U"target" },
	{ html::attribute_name::TargetX, U"targetX" },
	{ html::attribute_name::TargetY, U"targetY" },
	{ html::attribute_name::Targetx, U"targetx" },
	{ html::attribute_name::Targety, U"targety" },
	{ html::attribute_name::Text_anchor, U"text-anchor" },
	{ html::attribute_name::Text_decoration, U"text-decoration" },
	{ html::attribute_name::Text_rendering, U"text-rendering" },
	{ html::attribute_name::TextLength, U"textLength" },
	{ html::attribute_name::Textlength, U"textlength" },
	{ html::attribute_name::Thickmathspace, U"thickmathspace" },
	{ html::attribute_name::Thinmathspace, U"thinmathspace" },
	{ html::attribute_name::Timelinebegin, U"timelinebegin" },
	{ html::attribute_name::Title, U"title" },
	{ html::attribute_name::To, U"to" },
	{ html::attribute_name::Transform, U"transform" },
	{ html::attribute_name::Transform_origin, U"transform-origin" },
	{ html::attribute_name::Translate, U"translate" },
	{ html::attribute_name::Type, U"type" },
	{ html::attribute_name::Unicode_bidi, U"unicode-bidi" },
	{ html::attribute_name::Usemap, U"usemap" },
	{ html::attribute_name::Valign, U"valign" },
	{ html::attribute_name::Value, U"value" },
	{ html::attribute_name::Values, U"values" },
	{ html::attribute_name::Vector_effect, U"vector-effect" },
	{ html::attribute_name::Verythickmathspace, U"verythickmathspace" },
	{ html::attribute_name::Verythinmathspace, U"verythinmathspace" },
	{ html::attribute_name::Veryverythickmathspace, U"veryverythickmathspace" },
	{ html::attribute_name::Veryverythinmathspace, U"veryverythinmathspace" },
	{ html::attribute_name::ViewBox, U"viewBox" },
	{ html::attribute_name::ViewTarget, U"viewTarget" },
	{ html::attribute_name::Viewbox, U"viewbox" },
	{ html::attribute_name::Viewtarget, U"viewtarget" },
	{ html::attribute_name::Visibility, U"visibility" },
	{ html::attribute_name::Voffset, U"voffset" },
	{ html::attribute_name::Width, U"width" },
	{ html::attribute_name::Word_spacing, U"word-spacing" },
	{ html::attribute_name::Wrap, U"wrap" },
	{ html::attribute_name::Writing_mode, U"writing-mode" },
	{ html::attribute_name::X, U"x" },
	{ html::attribute_name::X1, U"x1" },
	{ html::attribute_name::X2, U"x2" },
	{ html::attribute_name::XChannelSelector, U"xChannelSelector" },
	{ html::attribute_name::Xchannelselector, U"xchannelselector" },
	{ html::attribute_name::Xlink, U"xlink" },
	{ html::attribute_name::Xlink_actuate, U"xlink:actuate" },
	{ html::attribute_name::Xlink_arcrole, U"xlink:arcrole" },
	{ html::attribute_name::Xlink_href, U"xlink:href" },
	{ html::attribute_name::Xlink_role, U"xlink:role" },
	{ html::attribute_name::Xlink_show, U"xlink:show" },
	{ html::attribute_name::Xlink_title, U"xlink:title" },
	{ html::attribute_name::Xlink_type, U"xlink:type" },
	{ html::attribute_name::Xml, U"xml" },
	{ html::attribute_name::Xml_lang, U"xml:lang" },
	{ html::attribute_name::Xml_space, U"xml:space" },
	{ html::attribute_name::Xmlns, U"xmlns" },
	{ html::attribute_name::Xmlns_xlink, U"xmlns:xlink" },
	{ html::attribute_name::Xref, U"xref" },
	{ html::attribute_name::Xsi_schemaLocation, U"xsi:schemaLocation" },
	{ html::attribute_name::Xsi_schemalocation, U"xsi:schemalocation" },
	{ html::attribute_name::Y, U"y" },
	{ html::attribute_name::Y1, U"y1" },
	{ html::attribute_name::Y2, U"y2" },
	{ html::attribute_name::YChannelSelector, U"yChannelSelector" },
	{ html::attribute_name::Ychannelselector, U"ychannelselector" },
	{ html::attribute_name::Z, U"z" },
	{ html::attribute_name::ZoomAndPan, U"zoomAndPan" },
	{ html::attribute_name::Zoomandpan, U"zoomandpan" },
};
inline Known<html::ns_name> const known_namespaces[] = {
	{ html::ns_name::HTML, U"http://www.w3.org/1999/xhtml" },
	{ html::ns_name::MathML, U"http://www.w3.org/1998/Math/MathML" },
	{ html::ns_name::SVG, U"http://www.w3.org/2000/svg" },
	{ html::ns_name::XLink, U"http://www.w3.org/1999/xlink" },
	{ html::ns_name::XML, U"http://www.w3.org/XML/1998/namespace" },
	{ html::ns_name::XMLNS, U"http://www.w3.org/2000/xmlns/" },
};

"""property texts; tools/mk.py turns them into properties.jsonl and MANIFEST.json"""
def P(id, title, statement, over, qtext, why, files, mech, observe=None, tech="", note=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe or [], tech=tech, note=note)

I = "include/wordring/"
PROPS = [
P("C01", "A tree holds exactly the shape its operation history describes",
  "After any sequence of insert, push, emplace, erase, move, clear, copy, swap and subtree insertion, the tree (including one with several roots) has exactly the nodes, values, order and parent/child links that an ordinary pointer-tree model of the same history has, forwards and backwards. Handles to nodes that were not erased keep referring to the same node. Moving a node into its own subtree is refused with std::invalid_argument and changes nothing.",
  ["histories"], "every finite history of public tree operations", "tests run about a hundred short hand-written histories; relinking errors need particular combinations of position, depth, sibling count and slot reuse",
  [I+"tree/tree.hpp", I+"tree/tree_iterator.hpp"],
  [("link/unlink of children and the free list", I+"tree/tree.hpp"), ("iterator parent/previous/next walk", I+"tree/tree.hpp")],
  ["begin/end, parent(), ++/--, front/back/push_*/pop_*, size()"],
  "stateful model-based testing of the tree against a pointer-tree model"),
P("C02", "Tree traversal adaptors visit every node once in the defined order",
  "For every tree and start node, the depth-first and breadth-first traversal iterators visit each node of the subtree exactly once, in document order or level order respectively, and then compare equal to the end iterator. Copying a traversal iterator midway gives an iterator with the same remaining sequence.",
  ["inputs"], "every tree shape and every start node", "tests traverse one or two fixed trees",
  [I+"tree/tree_iterator.hpp"], [("stack / queue of pending nodes", I+"tree/tree_iterator.hpp")],
  ["sequence of visited nodes"], "generated trees against a recursive traversal oracle"),
P("C03", "A markup tree keeps shape, tag order and characters under every history",
  "After any sequence of insert, erase, move, copy, swap and clear on a markup tree, it has exactly the nodes, order and parent links of an ordinary model tree with the same history, and handles to nodes not erased keep denoting them. The serial traversal passes every start and end tag and childless node in document order, forwards and backwards, each tag knowing its partner, and character iteration from any node visits exactly the characters of the texts from there on, forwards and backwards.",
  ["histories"], "every finite history of public markup tree operations", "tests use a few fixed trees and moves",
  [I+"tag_tree/tag_tree.hpp", I+"tag_tree/tag_tree_iterator.hpp", I+"tag_tree/serial_iterator.hpp", I+"tag_tree/character_iterator.hpp", I+"tag_tree/cast_iterator.hpp"],
  [("serial links, tag pairs and free list", I+"tag_tree/tag_tree.hpp"), ("iterators", I+"tag_tree/tag_tree_iterator.hpp")],
  ["child, serial, character and traversal iteration, handles, size"], "stateful model-based testing against a pointer-tree model"),

P("C04", "A fixed-capacity vector behaves like a bounded std::vector",
  "For every sequence of operations that stays within capacity, the vector has the same contents, size, iterator behaviour and comparison results as std::vector, also when one of its own elements is inserted. Positions past the size are rejected with std::out_of_range by the checked accessor, and nothing outside the live elements is touched.",
  ["histories"], "every finite history of public operations within capacity", "tests call each function once on small fixed contents; aliasing, shifts at capacity and lifetime errors need specific sequences",
  [I+"static_vector/static_vector.hpp"], [("shifting of elements within the fixed array", I+"static_vector/static_vector.hpp")],
  ["element values, iterators, comparisons, exceptions"], "stateful differential testing against std::vector under AddressSanitizer"),
P("C05", "Integer serialisation round-trips through fixed-order bytes",
  "Every sequence of integers of any supported width and signedness, written through the serialising adaptors and read back, yields the same integers. The produced bytes are the big-endian two's complement representation whatever the host order, and the number of bytes is the sum of the widths.",
  ["inputs"], "every finite sequence of integers of 1, 2, 4 and 8 bytes", "tests serialise a handful of constants",
  [I+"serialize/serialize.hpp", I+"serialize/serialize_iterator.hpp"], [("byte packing iterators", I+"serialize/serialize_iterator.hpp")],
  ["bytes produced, integers read back"], "round-trip and byte-level oracle over generated integer sequences"),
P("C06", "Incremental matching of several strings equals prefix comparison",
  "Feeding any characters one at a time to a matcher made from any list of strings gives, after each character up to the first verdict other than partial, succeed when the text fed so far equals one of the strings, partial while it is only a proper prefix of one of them, and failed otherwise. The text fed so far can be read back at any time, and a cleared matcher behaves like a new one.",
  ["inputs"], "every list of strings and every fed text", "tests feed a few fixed words",
  [I+"string/matcher.hpp"], [("per-string failure flags and the text fed so far", I+"string/matcher.hpp")],
  ["result after each character"], "generated lists of strings and texts against a prefix oracle, with clearing and reuse"),
P("T01", "A trie behaves as an ordered map of the strings put in it",
  "After any sequence of insert, erase, assign, clear, copy and stream save/load, a trie reports exactly the keys of an ordinary map with the same history: contains, lookup, search, find, size, values and iteration agree for every key, prefix and non-key, for labels of every width. Stream load reads exactly what save wrote and leaves following data in the stream untouched.",
  ["histories", "inputs"], "every finite history over non-empty strings of any label type", "tests use small word lists; relocation of double-array nodes depends on the whole history of insertions and erasures",
  [I+"trie/trie.hpp", I+"trie/trie_base.hpp", I+"trie/trie_heap.hpp", I+"trie/trie_iterator.hpp"],
  [("double-array base/check and free list relocation", I+"trie/trie_heap.hpp"), ("per-key value at the terminal node", I+"trie/trie_base.hpp")],
  ["contains, at, find, search, lookup, iteration, size, stream bytes"], "stateful model-based testing against std::map, narrow and wide labels"),
P("T02", "A stable trie never moves a stored leaf when other keys are inserted",
  "A stable trie reports exactly the keys of an ordinary map with the same history, like any trie. In addition the position of a stored leaf stays valid and keeps denoting the same string while other strings that do not extend it are inserted or erased, and stream save/load preserves positions.",
  ["histories"], "every finite history over non-empty strings", "tests use small word lists and check positions only just after insertion",
  [I+"trie/stable_trie_base.hpp", I+"trie/trie.hpp", I+"trie/trie_heap.hpp"],
  [("relocation that keeps terminal nodes in place", I+"trie/stable_trie_base.hpp")],
  ["leaf positions, contains, iteration, size, stream bytes"], "stateful model-based testing against std::map plus position tracking"),
P("T03", "Interned atoms are a one-to-one, recoverable naming of strings",
  "Within one atom set, two stored strings have the same id exactly when they are equal, an id or atom gives back the string it was made from, and an unassigned id or string gives the empty atom. Ids stay valid across insertion of other strings that do not extend a stored one, and save/load of the set preserves ids.",
  ["histories"], "every finite history of insert, erase, assign and lookup", "tests intern a handful of words",
  [I+"string/atom.hpp", I+"trie/stable_trie_base.hpp"], [("id = position of the leaf in a stable trie", I+"string/atom.hpp")],
  ["at(string), at(id), atom comparison and conversion"], "stateful model-based testing against a bijection model"),
P("E01", "Every byte sequence decodes to the text the Encoding Standard prescribes",
  "For every supported encoding and every byte sequence, decoding never crashes or hangs and yields exactly the code points of the WHATWG Encoding Standard's decoder, with U+FFFD for each malformed sequence in replacement mode and an error at the first one in fatal mode. The result does not depend on how the bytes are split into chunks.",
  ["inputs"], "every byte sequence in every encoding, with every chunking", "tests decode one sample text per encoding; truncated, malformed and rare sequences are unbounded",
  [I+"whatwg/encoding/coder.hpp", I+"whatwg/encoding/encoding.hpp", "lib/whatwg/encoding/indexes_code_point.cpp"],
  [("decoder state machines", I+"whatwg/encoding/coder.hpp"), ("code point indexes", "lib/whatwg/encoding/indexes_code_point.cpp")],
  ["decoded code points and the final result of the decoder run"], "generated byte sequences against an independent implementation of the standard's decoders with tables from another source"),
P("E02", "Every text encodes to the bytes the Encoding Standard prescribes",
  "For every encoding with an encoder and every sequence of scalar values, encoding yields exactly the bytes of the WHATWG Encoding Standard's encoder, with a decimal character reference for an unencodable code point in html mode and an error naming that code point in fatal mode. Text that was encodable decodes back to the same text, except for the standard's one-way mappings, and stateful encodings end in their initial state.",
  ["inputs"], "every sequence of scalar values in every encoding", "tests encode one sample text per encoding",
  [I+"whatwg/encoding/coder.hpp", I+"whatwg/encoding/encoding.hpp", "lib/whatwg/encoding/indexes_pointer.cpp"],
  [("encoder state machines", I+"whatwg/encoding/coder.hpp"), ("pointer indexes", "lib/whatwg/encoding/indexes_pointer.cpp")],
  ["encoded bytes, reported error code point"], "generated texts and whole-plane sweeps against an independent implementation of the standard's encoders, plus decode round trip"),
P("E03", "Encoding labels resolve exactly as the Encoding Standard lists them",
  "A label resolves, ignoring ASCII case and surrounding ASCII white space only, to the encoding the WHATWG Encoding Standard lists for it and every other string resolves to no encoding. Every encoding's own name resolves to that encoding, and the output encoding of UTF-16 and replacement is UTF-8 and otherwise the encoding itself.",
  ["inputs"], "every string as label, every encoding", "tests look up a few labels",
  ["lib/whatwg/encoding/encoding.cpp", I+"whatwg/encoding/encoding.hpp"], [("label table", "lib/whatwg/encoding/encoding.cpp")],
  ["resolved encoding, name of an encoding"], "the full label list with generated case, padding and edits against an independently obtained table"),
P("E04", "Queues, byte order marks and streamed decoding follow the Encoding Standard",
  "An I/O queue behaves as a list of items ending in an end-of-queue item that is never removed, under every sequence of read, peek, push and prepend. The decode entry points honour exactly the byte order marks the standard says they do, and a streaming decoder fed any chunking of the bytes, reused any number of times, with any fatal/ignore-BOM option, produces the same text as decoding the whole input at once.",
  ["inputs", "histories"], "every byte sequence, chunking, option and reuse", "tests decode whole samples and peek once or twice",
  [I+"whatwg/encoding/terminology.hpp", I+"whatwg/encoding/encoding.hpp", I+"whatwg/encoding/api.hpp"],
  [("queue operations", I+"whatwg/encoding/terminology.hpp"), ("BOM sniffing and stream state", I+"whatwg/encoding/api.hpp")],
  ["queue contents, decoded text, thrown errors"], "model-based queue histories and generated chunked streams against the reference decoder"),
P("E05", "Conversions between UTF-8, UTF-16 and UTF-32 are exact and reversible",
  "For every text of scalar values, converting between any two of the UTF-8, UTF-16 and UTF-32 string forms yields the standard code units, and converting back yields the original text. Reading a string code point by code point visits each code point once and ends exactly at the end of the string.",
  ["inputs"], "every text of Unicode scalar values and every pair of forms", "tests convert one or two Japanese samples",
  [I+"whatwg/infra/unicode.hpp"], [("code unit arithmetic", I+"whatwg/infra/unicode.hpp")],
  ["converted code units, code points read"], "generated texts against a direct implementation of the Unicode encoding forms"),
P("I01", "Infra string primitives equal their definitions on every string",
  "For every string in UTF-8, UTF-16 or UTF-32, the Infra Standard primitives (ASCII case mapping and comparison, newline stripping and normalising, white-space stripping and collapsing, code point collection, splitting on delimiters, commas and white space, character classes, isomorphic coding) give exactly the result of their definition on the code point sequence. Empty, all-white-space and delimiter-only strings are included and nothing outside the string is read.",
  ["inputs"], "every string, in each of the three forms", "tests call each function on one or two samples",
  [I+"whatwg/infra/infra.hpp"], [("per-code-point state machines", I+"whatwg/infra/infra.hpp")],
  ["returned strings and lists"], "generated strings against direct definitions on code point vectors"),
P("U01", "Every string parses to the URL record the URL Standard prescribes, or fails",
  "For every string, every valid base URL or none, and every query encoding, parsing ends and either fails exactly when the WHATWG URL Standard's parser (the late-2020 edition the code implements) fails or yields the same scheme, credentials, host, port, path, query, fragment and cannot-be-a-base flag. Leading and trailing controls and spaces and embedded tabs and newlines make no difference.",
  ["inputs"], "every string, base URL and query encoding", "tests parse a few dozen fixed URLs out of an unbounded, state-dependent grammar",
  ["lib/whatwg/url/url.cpp", "lib/whatwg/url/host.cpp", I+"whatwg/url/url.hpp"],
  [("state machine of the basic URL parser", "lib/whatwg/url/url.cpp"), ("host parsers", "lib/whatwg/url/host.cpp")],
  ["fields of the returned record, failure"], "grammar-based and mutated URL texts against an independent implementation of the standard"),
P("U02", "Serialising a parsed URL and parsing it again changes nothing",
  "For every URL record obtained by parsing, the serialisation is the standard's, is printable ASCII, parses (with any base or none) to an equal record and serialises to itself. Two URLs are equal exactly when their serialisations, with or without the fragment as asked, are equal.",
  ["inputs"], "every string that parses as a URL, with every base", "tests serialise a handful of records",
  ["lib/whatwg/url/url.cpp", "lib/whatwg/url/host.cpp"], [("URL serialiser and equality", "lib/whatwg/url/url.cpp"), ("host serialiser", "lib/whatwg/url/host.cpp")],
  ["serialised text, reparsed record, equality"], "round trip over generated URLs plus a reference serialiser"),
P("U03", "Hosts and IP addresses parse and serialise exactly as the URL Standard says",
  "Every host text yields exactly the domain, IPv4 address, IPv6 address or opaque host of the URL Standard's host parser, or fails with an error code, and every address serialises to its canonical text (IPv6 with the first longest zero run compressed) and parses back to itself. Number forms, overflow, zero compression, embedded IPv4, percent-encoding and internationalised labels are included, and a text counts as a valid IPv4 address string exactly when it is four decimal numbers up to 255 without leading zeros.",
  ["inputs"], "every host text and every IPv4 and IPv6 address", "tests parse about twenty fixed addresses",
  ["lib/whatwg/url/host.cpp", I+"whatwg/url/host.hpp"], [("IPv4, IPv6, opaque and domain parsers and serialisers", "lib/whatwg/url/host.cpp")],
  ["host kind and value, serialised text, error code"], "generated address and host texts against grammar-based reference parsers, address round trip"),
P("U04", "Percent coding is exact for every byte, code point, encode set and encoding",
  "Percent-encoding and decoding of every byte string and text, in every percent-encode set and through every encoding, yields exactly what the URL Standard prescribes, including numeric references for what the encoding cannot express and plus signs for spaces when asked. Decoding undoes encoding, and malformed percent sequences are left alone.",
  ["inputs"], "every text, byte string, encode set and encoding", "tests encode a few samples",
  [I+"whatwg/url/infra.hpp"], [("percent codec and encode sets", I+"whatwg/url/infra.hpp")],
  ["encoded and decoded text, membership in each set"], "full sweep of all code points through every set, generated texts against a reference codec and round trip"),
P("U05", "A URL object follows the URL Standard under every sequence of assignments",
  "After construction from any string with or without base and any sequence of assignments to href, protocol, username, password, host, hostname, port, pathname, search and hash, every component and the whole text of a URL object are those the URL Standard's API prescribes. A rejected construction or href throws and a rejected assignment leaves the object as the standard says; this holds for strings of UTF-8, UTF-16 and UTF-32.",
  ["histories", "inputs"], "every finite history of assignments of arbitrary strings", "tests assign one value to one component of a fixed URL",
  [I+"whatwg/url/api.hpp", "lib/whatwg/url/url.cpp"], [("setters running the parser with a state override", I+"whatwg/url/api.hpp")],
  ["all component getters and the serialised text after each assignment"], "stateful model-based testing against a reference URL object"),

P("S01", "CSS text is split into exactly the tokens of CSS Syntax Level 3",
  "For every sequence of code points, preprocessing and tokenization give the tokens of CSS Syntax Level 3: their kinds, values, numbers, units and type flags, with comments, escapes, bad strings, bad urls and an input that ends anywhere handled as the specification says. The result does not depend on the kind of bidirectional sequence read from or on whether an error handler is given, and nothing outside the input is read.",
  ["inputs"], "every sequence of code points", "tests tokenize a few dozen short strings",
  [I+"wwwc/css_syntax/tokenization.hpp", I+"wwwc/css_syntax/input_stream.hpp", "lib/wwwc/css_syntax/token.cpp"], [("token consumption with look-ahead", I+"wwwc/css_syntax/tokenization.hpp"), ("code point filtering", I+"wwwc/css_syntax/input_stream.hpp")],
  ["the token list"], "differential testing against a reference tokenizer"),
P("S02", "The CSS parser builds the structure the CSS Syntax specification prescribes",
  "For every input, given as text, tokens or component values, the parser entry points for stylesheets, lists of rules, a rule, a declaration, lists of declarations, a component value, lists of component values and comma-separated lists give the items CSS Syntax Level 3 prescribes, with their preludes, nested blocks, functions and the important flag, and recover from malformed input as it says. Results are values: copies do not share state.",
  ["inputs"], "every CSS text and every entry point", "tests parse a handful of fixed rules",
  [I+"wwwc/css_syntax/parsing.hpp", I+"wwwc/css_syntax/token.hpp", "lib/wwwc/css_syntax/token.cpp"], [("rule, block, function and declaration consumption", I+"wwwc/css_syntax/parsing.hpp"), ("value-semantic syntax items", I+"wwwc/css_syntax/token.hpp")],
  ["the tree of rules, declarations and component values"], "differential testing against a reference parser"),
P("S03", "A stylesheet given as bytes is read in the encoding CSS Syntax determines",
  "For every byte sequence and every protocol encoding, the encoding of a stylesheet is the protocol's, else the one named by an @charset declaration within the first 1024 bytes (UTF-8 where it names UTF-16), else UTF-8. A byte order mark overrides it in decoding, and the parsed stylesheet is that of the decoded text.",
  ["inputs"], "every byte sequence and fallback encoding", "tests use four fixed @charset strings",
  [I+"wwwc/css_syntax/input_stream.hpp", I+"wwwc/css_syntax/parsing.hpp"], [("@charset detection and decoding", I+"wwwc/css_syntax/input_stream.hpp")],
  ["the encoding name, the decoded text, the parsed stylesheet"], "differential testing against a reference"),
P("S04", "A selector query returns exactly the elements that match, in document order",
  "For every HTML document, starting node and selector text, the query for all matches returns exactly the descendant elements of the starting node that match the selector list by Selectors Level 4 (type, universal, id, class and attribute selectors, :root, and the descendant, child and sibling combinators), in document order, and the query for one returns the first of them or a null node. An invalid selector anywhere in the list matches nothing, and ids and classes compare without ASCII case only in quirks mode.",
  ["inputs"], "every document, scope and selector text", "tests query two-element documents with single selectors",
  [I+"css/selector.hpp", "lib/wwwc/selectors/grammar.cpp", I+"wwwc/selectors/grammar.hpp", I+"wwwc/selectors/api.hpp", I+"whatwg/dom/infrastructure.hpp"], [("selector grammar", "lib/wwwc/selectors/grammar.cpp"), ("matching", I+"wwwc/selectors/api.hpp")],
  ["the nodes returned and their order"], "differential testing against a naive matcher over a plain tree",
  "[a|=v] with the attribute exactly v is a recorded known finding"),
P("S05", "Namespaced and scoped selector matching finds exactly the elements denoted",
  "For every document with HTML, SVG and MathML elements, every set of namespace declarations, every range of neighbouring nodes and every scoping root or none, matching a parsed selector returns in document order exactly the elements of these subtrees, below the scoping root, that match it. A declared prefix, the default namespace, *| and | restrict elements and attributes as Selectors Level 4 says (the default namespace never applies to attributes), and an undeclared prefix makes the selector match nothing.",
  ["inputs"], "every document, selector, namespace declaration set, node range and scoping root", "tests match a few fixed selectors and, as the code notes, none with namespaces",
  [I+"wwwc/selectors/api.hpp", I+"wwwc/selectors/grammar.hpp", "lib/wwwc/selectors/grammar.cpp", I+"wwwc/css_defs.hpp"],
  [("namespace prefix and default namespace of type and attribute selectors", I+"wwwc/selectors/grammar.hpp"), ("walk over the range and the scoping root test", I+"wwwc/selectors/api.hpp")],
  ["matched nodes"], "generated documents, declarations and selectors against a naive matcher"),
P("H01", "HTML text is split into exactly the tokens of the HTML Standard",
  "For every sequence of code points and every starting state (data, RCDATA, RAWTEXT, script data, PLAINTEXT), newline normalisation and tokenization give the tokens the HTML Standard prescribes: characters, tags with names, attributes and self-closing flag, comments and DOCTYPEs with identifiers and quirks flag. Named and numeric character references, duplicate attributes, escaped script text, null characters and an input that ends anywhere are included, and the end of the file is reported once.",
  ["inputs"], "every sequence of code points and starting state", "tests step single states with a few characters",
  [I+"whatwg/html/parsing/tokenization.hpp", I+"whatwg/html/parsing/input_stream.hpp", I+"whatwg/html/parsing/token.hpp"], [("state machine with look-ahead buffer", I+"whatwg/html/parsing/tokenization.hpp"), ("newline normalisation and end of input", I+"whatwg/html/parsing/input_stream.hpp")],
  ["the token list"], "differential testing of generated and mutated markup against a reference tokenizer",
  "CDATA sections are judged with H02; parse error reports are not judged"),
P("H02", "Every text parses to the document tree the HTML Standard prescribes",
  "For every sequence of code points the parser ends with exactly the tree the HTML Standard's tree construction gives: elements with namespace, name and attributes, texts, comments and the DOCTYPE in the same structure, and the same quirks mode. This covers implied tags, mis-nested formatting elements, tables and foster parenting, templates, forms, selects, framesets and SVG and MathML content.",
  ["inputs"], "every sequence of code points", "tests feed single tokens or a few fixed documents",
  [I+"whatwg/html/parsing/tree_construction_dispatcher.hpp", I+"html/simple_parser.hpp", I+"html/simple_node.hpp", I+"whatwg/html/parsing/atom_tbl.hpp"], [("insertion modes, stack of open elements, active formatting elements", I+"whatwg/html/parsing/tree_construction_dispatcher.hpp"), ("tree edits of the parser", I+"html/simple_parser.hpp")],
  ["the tree and its mode"], "differential testing of generated tag soup against a reference tree builder",
  "no fragment parsing and no scripting; where CDATA sections are recognised is a recorded known finding"),
P("H03", "Serialising an HTML tree gives the text the HTML Standard prescribes",
  "For every tree of elements of any namespace, texts, comments, processing instructions and DOCTYPEs in a document or document fragment, serialising any node writes exactly the text of the HTML Standard's fragment serialisation (escapes, raw text elements, void elements, qualified attribute names), the same in UTF-8, UTF-16 and UTF-32. A document of ordinary elements, written and parsed again, is the same document.",
  ["inputs"], "every node tree and string form", "tests write a few fixed trees",
  [I+"whatwg/html/parsing/serializing.hpp", I+"html/simple_html.hpp", I+"html/simple_node.hpp"], [("serialisation with explicit stacks", I+"whatwg/html/parsing/serializing.hpp")],
  ["the text written, the reparsed tree"], "generated trees against a recursive reference serialiser, and round trip through the parser"),
P("H04", "A document made from a string or bytes is that of the text in its right encoding",
  "For every byte string, given encoding and confidence, the document made is that of the decoded text, and when the encoding is tentative and a meta element in the head names another one the document is made anew in that encoding, as the HTML Standard says, and only then. UTF-16 and UTF-32 strings give the document of their text, and a parser emptied for reuse keeps nothing of what it parsed before.",
  ["inputs", "histories"], "every byte string, encoding and confidence, and every earlier use of the parser", "tests make two documents with one charset each",
  [I+"html/simple_parser.hpp", I+"whatwg/html/parsing/input_stream.hpp", I+"whatwg/html/url.hpp", I+"whatwg/encoding/api.hpp"], [("restart on a change of encoding", I+"html/simple_parser.hpp"), ("encoding named by a meta element", I+"whatwg/html/url.hpp"), ("resetting the parser", I+"html/simple_parser.hpp")],
  ["the document tree"], "differential testing against reference decoder, encoding change algorithm and tree builder",
  "no sniffing of the encoding; only the decoder's own byte order mark is removed"),
P("H05", "Known HTML names and their texts are interchangeable; attribute lookup is exact",
  "For every string, an element, attribute or namespace name has the number of a known HTML, SVG or MathML name exactly when it is spelt like it, gives back its text whether made from text or number, and two names are equal exactly when their texts are. For every element, looking up an attribute by namespace, prefix and name or by name alone finds exactly the attribute with these, elements compare by namespace, name and attributes in any order, and copies of nodes are independent.",
  ["inputs"], "every name, attribute list and string form", "tests compare a few names and attributes",
  [I+"whatwg/html/html_atom.hpp", "lib/whatwg/html/parsing/atom_tbl.cpp", I+"html/simple_node.hpp", I+"html/simple_traits.hpp"], [("name tables", "lib/whatwg/html/parsing/atom_tbl.cpp"), ("comparison of names made from text and number", I+"whatwg/html/html_atom.hpp"), ("attribute search and comparison", I+"html/simple_node.hpp")],
  ["texts, numbers, comparisons, positions found"], "full sweep of the known names, generated and mutated names and elements against text comparison"),
]

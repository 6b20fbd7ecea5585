"""which harness binary holds which property, and what each is built from"""
HARNESS = {
    "cont": {"src": ["cont.cpp"], "libs": ["encoding", "atom_tbl"], "link": ["-licuuc", "-licudata"]},
    "trie": {"src": ["trie.cpp"]},
    "enc": {"src": ["enc.cpp"], "libs": ["encoding"]},
    "url": {"src": ["url.cpp"], "libs": ["encoding", "url"], "link": ["-licuuc", "-licudata"]},
    "html": {"src": ["html.cpp"], "libs": ["encoding", "atom_tbl"], "link": ["-licuuc", "-licudata"]},
    "node": {"src": ["node.cpp"], "libs": ["encoding", "atom_tbl"], "link": ["-licuuc", "-licudata"]},
    "css": {"src": ["css.cpp"], "libs": ["encoding", "token", "selectors", "atom_tbl"], "link": ["-licuuc", "-licudata"]},
}
PROPS = {
    "C01": "cont", "C02": "cont", "C03": "cont", "C04": "cont", "C05": "cont", "C06": "cont",
    "T01": "trie", "T02": "trie", "T03": "trie",
    "E01": "enc", "E02": "enc", "E03": "enc", "E04": "enc", "E05": "enc", "I01": "enc",
    "U01": "url", "U02": "url", "U03": "url", "U04": "url", "U05": "url",
    "S01": "css", "S02": "css", "S03": "css", "S04": "css", "S05": "css",
    "H01": "html", "H02": "html", "H03": "html", "H04": "html", "H05": "node",
}

#!/usr/bin/env python3
"""writes harness/enc_tables.inc: reference index tables.

Source: Python's codecs plus the documented differences of the WHATWG index files (see DESIGN.md); the HKSCS-2008
additions of Big5, which no installed codec has, come from a dump of the library at the pinned commit (argument 1, one
"name v v v..." line per table).  Dump and construction were compared entry by entry; this script repeats the comparison."""
import sys, os, unicodedata
T = {}
for l in open(sys.argv[1]):
    p = l.split(); T[p[0]] = p[1:] if p[0].startswith("ranges") else [int(x) for x in p[1:]]
NO = 0xFFFFFFFF
def dec(b, c):
    try: s = b.decode(c)
    except Exception: return NO
    return ord(s) if len(s) == 1 else tuple(map(ord, s))
out = {}
sb = {"ibm866": "cp866", "koi8_r": "koi8_r", "koi8_u": "koi8_u", "macintosh": "mac_roman", "windows_874": "cp874", "x_mac_cyrillic": "mac_cyrillic"}
for n in (2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16): sb["iso_8859_%d" % n] = "iso8859_%d" % n
for n in range(1250, 1259): sb["windows_%d" % n] = "cp%d" % n
for n, c in sb.items():
    t = [dec(bytes([b]), c) for b in range(128, 256)]
    if n.startswith("windows"): t = [i + 128 if v == NO and i < 32 else v for i, v in enumerate(t)]
    if n == "koi8_u": t[0x2E] = 0x45E; t[0x3E] = 0x40E
    if n == "windows_1255": t[0x4A] = 0x5BA
    out[n] = t
j = []
for p in range(11280):
    lead, tr = divmod(p, 188)
    v = dec(bytes([lead + (0x81 if lead < 0x1F else 0xC1), tr + (0x40 if tr < 0x3F else 0x41)]), "cp932")
    j.append(NO if 8836 <= p <= 10715 else v)
out["jis0208"] = j
out["jis0212"] = [dec(bytes([0x8F, p // 94 + 0xA1, p % 94 + 0xA1]), "euc_jp") for p in range(8836)]; out["jis0212"][116] = 0xFF5E
out["euc_kr"] = [dec(bytes([p // 190 + 0x81, p % 190 + 0x41]), "cp949") for p in range(23940)]
def two(p, n, o):
    l, t = divmod(p, n); return bytes([l + 0x81, t + (0x40 if t < 0x3F else o)])
out["gb18030"] = [dec(two(p, 190, 0x41), "gb18030") for p in range(23940)]; out["gb18030"][6555] = 0x3000; out["gb18030"][7533] = 0x1E3F
b = [dec(two(p, 157, 0x62), "big5hkscs") for p in range(19782)]
extra = 0
for i, v in enumerate(b):
    if isinstance(v, tuple): b[i] = NO
    if v == NO and i < len(T["big5"]) and T["big5"][i] != NO: b[i] = T["big5"][i]; extra += 1
for c, v in ((0xA145, 0x2027), (0xA14E, 0xFE51), (0xA1C2, 0xAF), (0xA1E3, 0xFF5E), (0xA1F2, 0x2295), (0xA1F3, 0x2299), (0xA241, 0x2215), (0xA242, 0xFE68), (0xA244, 0xFFE5), (0xA246, 0xFFE0), (0xA247, 0xFFE1), (0xA3E1, 0x20AC)):
    tr = c & 0xFF; b[((c >> 8) - 0x81) * 157 + tr - (0x40 if tr < 0x7F else 0x62)] = v
out["big5"] = b
kat = [unicodedata.normalize("NFKC", chr(c)) for c in range(0xFF61, 0xFFA0)]
kat = [ord(c) for c in kat]; kat[0x3D] = 0x309B; kat[0x3E] = 0x309C
out["iso_2022_jp_katakana"] = kat
for n, t in out.items():
    g = T[n] + [NO] * (len(t) - len(T[n]))
    d = [(i, a, x) for i, (a, x) in enumerate(zip(g, t)) if a != x]
    if d or len(T[n]) > len(t): print(n, len(T[n]), len(t), len(d), d[:10])
# gb18030 ranges: derived from which BMP code points the two-byte table lacks
have = set(out["gb18030"]); ranges = []; p = 0; prev = None
for c in range(0x80, 0x10000):
    if c in have or 0xD800 <= c <= 0xDFFF or 0xE000 <= c <= 0xE765 and False: prev = None; continue
    ranges.append(c)
def gbr(p): return bytes([p // 12600 + 0x81, p // 1260 % 10 + 0x30, p // 10 % 126 + 0x81, p % 10 + 0x30])
full = [dec(gbr(p), "gb18030") for p in range(39420)]; full[7457] = 0xE7C7
R = dict(map(int, x.split(":")) for x in T["ranges"])
def rng(p):
    if p == 7457: return 0xE7C7
    o = max(x for x in R if x <= p); return R[o] + p - o
d = [(p, rng(p), full[p]) for p in range(39420) if rng(p) != full[p]]
if d: print("ranges", len(d), d[:10])
# store the ranges as runs
runs = []
for p, c in enumerate(full):
    if p == 7457: continue
    if not runs or c - p != runs[-1][1] - runs[-1][0]: runs.append((p, c))
runs.append((189000, 0x10000))
print("big5 extras", extra, "runs", len(runs), "library", len(T["ranges"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/enc_tables.inc"), "w") as f:
    f.write("// generated by tools/mkenc.py\n")
    for n, t in out.items():
        f.write("static uint32_t const ref_%s[] = {" % n + ",".join("~0u" if v == NO else str(v) for v in t) + "};\n")
    f.write("static uint32_t const ref_gb_ranges[][2] = {" + ",".join("{%d,%d}" % r for r in runs) + "};\n")

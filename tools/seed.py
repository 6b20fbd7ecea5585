#!/usr/bin/env python3
"""development tool for planted bugs (never used by a check)
  seed.py make SPEC.py      SPEC defines BUGS = [(id, prop, [(file, old, new)...], needs, breaks, demo_cpp, libs)]; writes seeded/<id>/
  seed.py try ID...         apply, build, run the repository's tests, the demo and the property's quick check; undo
  seed.py check ID...       only the demo-less quick check"""
import json, os, re, subprocess, sys, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def clean(): sh("git -C /repo checkout -- .")
LIBS = {"encoding": "lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp",
        "atom": "lib/whatwg/html/parsing/atom_tbl.cpp", "url": "lib/whatwg/url/host.cpp lib/whatwg/url/url.cpp",
        "css": "lib/wwwc/css_syntax/token.cpp", "sel": "lib/wwwc/selectors/grammar.cpp"}
def make(spec):
    s = importlib.util.spec_from_file_location("spec", spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for id, prop, edits, needs, breaks, demo, libs in m.BUGS:
        clean()
        d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
        for f, old, new in edits:
            p = "/repo/" + f; t = open(p, "rb").read().decode("utf-8-sig", "surrogateescape"); bom = open(p, "rb").read(3) == b"\xef\xbb\xbf"; crlf = "\r\n" in t
            rx = re.compile(r"\r?\n(?:[ \t]*\r?\n)*".join(re.escape(l) for l in old.split("\n")))
            k = len(rx.findall(t))
            if k != 1: clean(); raise SystemExit("%s: %d matches in %s of %r" % (id, k, f, old))
            n = new.replace("\n", "\r\n") if crlf else new
            t = rx.sub(lambda m: n, t)
            open(p, "wb").write((b"\xef\xbb\xbf" if bom else b"") + t.encode("utf-8", "surrogateescape"))
        diff = subprocess.run("git -C /repo diff --binary", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff); clean()
        open(d + "/demo.cpp", "w").write(demo)
        src = " ".join(LIBS[l] for l in libs)
        link = "-licuuc -licudata" if libs else ""
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it is broken.  Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O0 -w -include cstdint -include cassert -include limits -include algorithm -include memory -Iinclude "$here/demo.cpp" %s -o "$t/demo" %s || exit 2
timeout 60 "$t/demo"
""" % (src, link))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print("made", id)
def check(id, full):
    d = V + "/seeded/" + id; prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    res = []
    if full:
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-500:], r.stderr[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(id, "DOES NOT APPLY", r.stderr); return
    try:
        if full:
            r = sh("bash %s/tools/repotest.sh" % V); res.append("tests:" + r.stdout.strip().split("\n")[-1])
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo-bug=%d" % r.returncode)
        t = time.time(); r = sh("python3 check.py %s quick" % prop, cwd=V)
        res.append("check=%d %s %.0fs" % (r.returncode, "CAUGHT" if "VIOLATION property=" + prop in r.stdout else "MISSED", time.time() - t))
        if r.returncode == 3: res.append(r.stderr[-1500:])
    finally: clean()
    print(id, prop, " | ".join(res), flush=True)
if sys.argv[1] == "make": make(sys.argv[2])
else:
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: check(i, sys.argv[1] == "try")
    if sys.argv[1] == "try": sh("bash /opt/vp/build.sh")

#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      run one property's check against /repo's working tree
   check.py --replay FILE                  re-run a replay file
   check.py --build NAME...                only build harnesses (used by setup_cmd and for development)

Builds the harness that holds the property from /repo's current sources (the cache key is the content of
every file that goes in), runs the generated-input search, writes evidence/<id>.json and prints
VIOLATION property=<id> replay=<path> when a shrunk counterexample reproduced three times."""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
sys.path.insert(0, V)
from harness.table import HARNESS, PROPS  # noqa: E402

LIBS = {
    "encoding": ["lib/whatwg/encoding/encoding.cpp", "lib/whatwg/encoding/indexes_code_point.cpp", "lib/whatwg/encoding/indexes_pointer.cpp"],
    "atom_tbl": ["lib/whatwg/html/parsing/atom_tbl.cpp"],
    "url": ["lib/whatwg/url/host.cpp", "lib/whatwg/url/url.cpp"],
    "token": ["lib/wwwc/css_syntax/token.cpp"],
    "selectors": ["lib/wwwc/selectors/grammar.cpp"],
}
CXX = "g++"
FLAGS = "-std=c++20 -O1 -g0 -w -include cstdint -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-omit-frame-pointer".split()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".md", ".json")):
                    continue
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fp:
                    h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write("build failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:] + r.stderr[-8000:] + "\n")
        raise SystemExit(3)


def build(name):
    """build harness NAME, return path of the binary"""
    os.makedirs(BUILD, exist_ok=True)
    cfg = HARNESS[name]
    inc = tree_hash(os.path.join(REPO, "include"))
    flags = FLAGS + cfg.get("flags", [])
    jobs = []
    srcs = [os.path.join(REPO, s) for l in cfg.get("libs", []) for s in LIBS[l]]
    own = [os.path.join(V, "harness", s) for s in cfg["src"]]
    ownh = b"".join(open(f, "rb").read() for f in sorted(glob.glob(os.path.join(V, "harness", "*.hpp")) + glob.glob(os.path.join(V, "harness", "*.inc"))))
    objs = []
    for s in srcs + own:
        lib = s in srcs
        fl = [f for f in flags]
        if lib and "indexes_" in s:
            fl = [f for f in fl if not f.startswith("-O")] + ["-O0"]
        key = sha(inc, open(s, "rb").read(), " ".join(fl), b"" if lib else ownh)
        o = os.path.join(BUILD, os.path.basename(s).replace(".", "_") + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            cmd = [CXX, *fl, "-I", os.path.join(REPO, "include"), "-I", os.path.join(V, "harness"), "-c", s, "-o", tmp]
            jobs.append((cmd, tmp, o))
    procs = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), c, t, o) for c, t, o in jobs]
    bad = False
    for p, c, t, o in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stderr.write("build failed: " + " ".join(c) + "\n" + "\n".join([l[:600] for l in out.split("\n") if "error" in l or "required from here" in l][:30]) + "\n")
            bad = True
        else:
            os.replace(t, o)
    if bad:
        raise SystemExit(3)
    exe = os.path.join(BUILD, name + "-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run([CXX, *flags, *objs, "-o", tmp, *cfg.get("link", [])])
        os.replace(tmp, exe)
    return exe


def known(prop):
    """known findings recorded for this property: [(key, text)]"""
    res = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        for n in a[1:] or sorted(HARNESS):
            t = time.time(); build(n); print("built %s %.1fs" % (n, time.time() - t), flush=True)
        return 0
    if a[:1] == ["--replay"]:
        txt = open(a[1]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        exe = build(PROPS[prop])
        return subprocess.run([exe, "--prop", prop, "--replay", a[1]]).returncode
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    exe = build(PROPS[prop])
    tb = time.time() - t0
    out = os.path.join(V, "build", "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ)
    kf = known(prop)
    env["VERIF_KNOWN"] = ",".join(k for k, _ in kf)
    extra = a[2:]
    r = subprocess.run([exe, "--prop", prop, "--seed", seed, "--tier", tier, "--out", out, "--workers", "8", *extra], capture_output=True, text=True, errors="replace", env=env)
    sys.stdout.write(r.stdout[-20000:])
    sys.stderr.write(r.stderr[-4000:])
    st = {}
    sp = os.path.join(out, prop + ".stats.json")
    if os.path.exists(sp):
        st = json.load(open(sp))
    viol = []
    rc = r.returncode
    if rc == 1:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-seed%s.replay" % (prop, seed))
        shutil.copy(os.path.join(out, prop + ".replay"), rp)
        viol.append({"replay": rp, "message": r.stdout[-1500:]})
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": st.get("evaluated", 0),
            "distinct_nontrivial": st.get("distinct_nontrivial", 0),
            "rule": st.get("rule", ""),
            "discarded": st.get("discarded", 0),
            "fixed_checks": st.get("fixed_checks", 0),
            "labels": st.get("labels", {}),
            "samples": st.get("samples", [])[:6],
            "bounds": st.get("note", ""),
            "stopped_by_time_cap": st.get("capped", False),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["compiled with g++ -std=c++20, assertions on, AddressSanitizer and libstdc++ assertions; build took %.1fs" % tb],
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for k, t in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if rc == 4:
        # a failure that did not reproduce is not reported as a violation; nothing else failed
        print("note: an unconfirmed failure was dropped")
        return 0
    return rc


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates seeded/<id> and confirms it (builds, stable tests pass, demo 0 / nonzero).
SPEC defines: id, property, edits=[(file, old, new)], demo (C++ text), needs, breaks; optional flags."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MKREPO", "/repo")
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s):
    assert run("git -C " + R + " status --porcelain").stdout == "", "repo dirty"
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"])
    for n, x in s.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(x)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w %s -I include -I "$here" "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''' % s.get("flags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    base = run("bash %s/demo.sh" % d, cwd=R)
    try:
        for f, a, b in s["edits"]:
            t = open(R + "/" + f).read(); assert t.count(a) == 1, (f, a, t.count(a))
            open(R + "/" + f, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(run("git -C " + R + " diff").stdout)
        b = run("bash /opt/vp/build.sh"); run("bash /opt/vp/test.sh /tmp/mk.json")   # of /repo: with MKREPO set, confirm build and tests separately
        got = set(json.load(open("/tmp/mk.json"))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        m = run("bash %s/demo.sh" % d, cwd=R)
        ck = ""
        if "--check" in sys.argv:
            c = run("python3 check.py %s quick" % s["property"], cwd=V); ck = "check=%d %s" % (c.returncode, [l for l in c.stdout.splitlines() if l.startswith("VIOL")])
    finally:
        run("git -C " + R + " checkout -- .")
    ok = base.returncode == 0 and m.returncode not in (0, 2) and b.returncode == 0 and want <= got
    print(s["id"], "OK" if ok else "BAD", "base", base.returncode, "mut", m.returncode, "build", b.returncode, "missing", want - got, ck, base.stderr[-400:] if not ok else "")
ns = {}
for f in sys.argv[1:]:
    if f.startswith("--"): continue
    ns = {}; exec(open(f).read(), ns)
    for s in ns["S"]: one(s)
run("bash /opt/vp/build.sh")

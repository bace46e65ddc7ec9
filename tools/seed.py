#!/usr/bin/env python3
"""seed.py SPEC [ids..]: (re)generate seeded/<id>/ from a spec file and confirm each one on /repo
(patch applies, builds, stable tests pass, demo 0 before / nonzero after, which checks report it).
SPEC defines SEEDS = {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo=<c++ text>)}.
The spec files are not kept; the generated directories are."""
import json
import os
import subprocess
import sys
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# run with the repository as working directory, after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/lib/include" -I"$PWD/external/GSL/include" "$d/demo.cpp" "$PWD/_build/lib/libEllCppLib.a" \\
    -o "$t/demo" -lopenblas -lfftw3 -lm || exit 3
OPENBLAS_NUM_THREADS=1 timeout 60 "$t/demo"
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
for sid, s in spec["SEEDS"].items():
    if only and sid not in only:
        continue
    d = V + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean()
    ok = True
    for f, o, n in s["edits"]:
        t = open(R + "/" + f, newline="").read()
        crlf = "\r\n" in t
        t = t.replace("\r\n", "\n")
        if t.count(o) != 1:
            print(sid, "EDIT matches %d times: %r" % (t.count(o), o[:70]))
            ok = False
            break
        t = t.replace(o, n)
        if crlf:
            t = t.replace("\n", "\r\n")
        open(R + "/" + f, "w", newline="").write(t)
    if not ok:
        clean()
        continue
    diff = subprocess.run(["git", "-C", R, "diff", "--no-color"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
    try:
        o = json.load(open("/tmp/seed_out.json"))
    except Exception:
        o = {"passed": []}
    miss = base - set(o["passed"])
    bad = sh("sh", d + "/demo.sh", cwd=R)
    res = []
    for c in s.get("checks", [s["prop"]]):
        try:
            r = sh("python3-vt", V + "/check.py", c, timeout=300)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res.append("%s:%d%s" % (c, r.returncode, " CAUGHT" if v and r.returncode == 1 else " missed"))
        except subprocess.TimeoutExpired:
            res.append(c + ":timeout")
    clean()
    sh("bash", "/opt/vp/build.sh")
    good = sh("sh", d + "/demo.sh", cwd=R)
    flag = "OK " if not miss and bad.returncode and bad.returncode != 3 and good.returncode == 0 else "***"
    print(flag, sid, s["prop"], "tests missing %d" % len(miss), "demo bad=%d good=%d" % (bad.returncode, good.returncode), res)
    if bad.returncode == 3 or good.returncode:
        print((bad.stderr + good.stdout + good.stderr)[-1500:])

"""Front end: build the extractor (once per checkout), parse the translation
units of the current /repo tree with the project's own flags and load the
resolved program (functions, records, globals) it dumps."""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
FLAGS = ["-std=c++17", "-I%s/lib/include" % REPO, "-I%s/external/GSL/include" % REPO]


class Broken(Exception):
    """the analysis itself cannot run (not a verdict)"""


def extractor():
    out = os.path.join(VERIF, "build", "extract")
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I%s/include" % LLVM, src, "-o", tmp,
           "%s/lib/libclang-cpp.so.18.1" % LLVM, "%s/lib/libLLVM-18.so" % LLVM]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("extractor does not build: " + r.stderr[-800:])
    os.replace(tmp, out)
    return out


class Prog:
    def __init__(self):
        self.fns = {}
        self.globals = {}
        self.statics = {}
        self.records = {}
        self.units = []

    def add(self, d, unit):
        self.units.append(unit)
        for f in d["functions"]:
            self.fns.setdefault(f["key"], f)
        for g in d.get("globals", []):
            if not g["dep"]:
                self.globals.setdefault(g["n"], g)
            g["written"] = max(0, g["uses"] - g["reads"] - g["binds"])
            h = self.statics.setdefault((g["n"], g["file"], g["line"]), dict(g, dep=True))
            if h is not g:
                h["dep"] = h["dep"] and g["dep"]
                for k in ("const", ):
                    h[k] = h[k] and g[k]
                for k in ("percall", "mutable", "wline"):
                    h[k] = h.get(k) or g.get(k)
                for k in ("uses", "reads", "binds", "written"):
                    h[k] = max(h[k], g[k])
        for r in d.get("records", []):
            self.records.setdefault(r["n"], r)

    def find(self, qn=None, name=None, cls=None, pred=None):
        out = []
        for f in self.fns.values():
            if qn is not None and f["qn"] != qn:
                continue
            if name is not None and f["name"] != name:
                continue
            if cls is not None and f.get("cls") != cls:
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def one(self, **kw):
        r = self.find(**kw)
        if len(r) != 1:
            raise Broken("anchor %s: %d matches" % ({k: v for k, v in kw.items() if k != "pred"}, len(r)))
        return r[0]


def load(units):
    """units: e.g. 'lib/src/ell.cpp' (relative to /repo) or 'tu:drivers'"""
    ex = extractor()
    prog = Prog()
    roots = "%s/lib,%s/tu,/usr/include/boost/operators.hpp" % (REPO, VERIF)
    with tempfile.TemporaryDirectory(prefix="vsa") as td:
        def one(i_u):
            i, u = i_u
            src = os.path.join(VERIF, "tu", u[3:] + ".cpp") if u.startswith("tu:") else os.path.join(REPO, u)
            if not os.path.exists(src):
                raise Broken("source file missing: " + src)
            out = os.path.join(td, "%d.json" % i)
            r = subprocess.run([ex, out, src, roots, "--"] + FLAGS, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise Broken("cannot parse %s: %s" % (src, r.stderr[-1500:]))
            with open(out) as fh:
                return u, json.load(fh)
        with ThreadPoolExecutor(8) as tp:
            for u, d in tp.map(one, enumerate(units)):
                prog.add(d, u)
    return prog


def walk_nodes(x):
    """every IR node (dict with a kind) below x"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)

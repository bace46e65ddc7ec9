"""Smaller parts: the one-dimensional search space; copies and constructors of
the search spaces; shared mutable state."""
import os
from engine import frontend
from engine.harness import *
from engine.poly import P, ZERO, ONE, fun, sel, Poly, Undecided, absv
from engine.values import *

SUCCESS, NOSOLN, SMALL, NOEFF = 0, 1, 2, 3
U1 = ["lib/src/ell1d.cpp"]


def fld(v, n):
    if isinstance(v, Struct) and n in v.fields:
        return v.fields[n]
    raise Undecided("component %s of %s" % (n, vkey(v)[:60]))


def fresh_obj(cls):
    return lambda I, l, t: I.st.store.__setitem__(t.root, Struct(cls, None))


# -- one-dimensional space -------------------------------------------------------

def roles1d(rep, pr):
    ct = [f for f in pr.fns.values() if f.get("cls") == "ell1d" and f["name"] == "ell1d" and len(f["params"]) == 2]
    if len(ct) != 1:
        raise Broken("ell1d(double, double)")
    w = "ell1d::ell1d:%d" % ct[0]["line"]
    l, u = sym("l"), sym("u")
    I, parts, _, this = analyse(pr, ct[0], {}, this="R:ell1d", rep=rep, setup=fresh_obj("ell1d"),
                                args=dict(zip([p["n"] for p in ct[0]["params"]], (l, u))))
    if len(parts) != 1 or parts[0][1][0] != "ret":
        raise Undecided("constructor of ell1d")
    o = parts[0][0].store[this.root]
    xc = [f for f in pr.fns.values() if f.get("cls") == "ell1d" and f["name"] == "xc"]
    sx = [f for f in pr.fns.values() if f.get("cls") == "ell1d" and f["name"] == "set_xc"]
    if not xc or not sx:
        raise Broken("ell1d::xc / set_xc")
    num = {k: sym("f." + k) for k, v in o.fields.items() if isinstance(v, Poly)}
    gen = Struct("ell1d", None, num)
    _, ps, _, _ = analyse(pr, xc[0], {}, this="R:ell1d", rep=rep,
                          setup=lambda I, l, t: I.st.store.__setitem__(t.root, gen))
    C = [k for k, v in num.items() if len(ps) == 1 and ps[0][1][0] == "ret" and isinstance(ps[0][1][1], Poly) and peq(ps[0][1][1], v)]
    rest = [k for k in o.fields if k not in C]
    if len(C) != 1 or len(rest) != 1 or not isinstance(o.fields[rest[0]], Poly):
        raise Undecided("state of ell1d: %s" % sorted(o.fields))
    C, R = C[0], rest[0]
    c0, r0 = o.fields[C], o.fields[R]
    st = parts[0][0]
    equal(rep, I, st, c0 - r0, l, "constructor", w, "the interval starts at the given lower end")
    equal(rep, I, st, c0 + r0, u, "constructor", w, "the interval ends at the given upper end")
    I, ps, _, this = analyse(pr, sx[0], {}, this="R:ell1d", rep=rep, args={sx[0]["params"][0]["n"]: sym("c")},
                             setup=lambda I, l, t: I.st.store.__setitem__(t.root, gen))
    for st, k in ps:
        o2 = st.store[this.root]
        equal(rep, I, st, o2.fields[C], sym("c"), "set-centre", "ell1d::set_xc", "the centre is the given value")
        equal(rep, I, st, o2.fields[R], gen.fields[R], "set-centre", "ell1d::set_xc", "the radius is kept")
    return C, R


def p25(rep):
    pr = frontend.load(U1)
    rep.use(pr)
    section(rep, "ell1d::update", upd1d, rep, pr)


def upd1d(rep, pr):
    C, R = roles1d(rep, pr)
    fs = [f for f in pr.fns.values() if f.get("cls") == "ell1d" and f["name"] == "update"]
    if len(fs) != 1:
        raise Broken("ell1d::update")
    f = fs[0]
    w = "ell1d::update:%d" % f["line"]
    r, c, g, b = sym("r"), sym("c"), sym("g"), sym("beta")

    def setup(I, lvs, this):
        I.st.store[this.root] = Struct("ell1d", None, {C: c, R: r})
        I.st.ge.append(r)
        I.assume(le(0, r))
        I.assume(ne(g, 0))
    I, parts, lvs, this = analyse(pr, f, {"positive": ("r",)}, this="R:ell1d", rep=rep, setup=setup,
                                  args={f["params"][0]["n"]: Struct("std::tuple", None, {"0": g, "1": b})})
    tau = absv(r * g)
    seen = set()
    for st, k in parts:
        if k[0] != "ret":
            rep.und("summary", w, "partition not summarised: %s" % (k[1:],))
            continue
        try:
            s, t2 = fld(k[1], "0"), fld(k[1], "1")
            o = st.store[this.root]
            c2, r2 = o.fields[C], o.fields[R]
            equal(rep, I, st, t2, r * r * g * g, "size-measure", w, "returned size measure is (r g)^2")
            pos = lt(0, g)
            for name, cond, code in (("beta > tau", lt(tau, b), NOSOLN), ("beta < -tau", lt(b, -tau), NOEFF),
                                     ("|beta| <= tau", b_and(le(b, tau), le(-tau, b)), SUCCESS)):
                for d, dc in (("up", pos), ("down", b_not(pos))):
                    ns = feasible(I, st, [cond, dc])
                    if ns is None:
                        continue
                    seen.add((name, d))
                    require(rep, I, ns, eqv(s, code), "verdict", w, "%s (gradient %s): status %d" % (name, d, code))
                    if code != SUCCESS:
                        equal(rep, I, ns, c2, c, "unchanged", w, "%s: the centre is kept" % name)
                        equal(rep, I, ns, r2, r, "unchanged", w, "%s: the radius is kept" % name)
                        continue
                    lo, hi = (c - r, c - b / g) if d == "up" else (c - b / g, c + r)
                    equal(rep, I, ns, c2 - r2, lo, "half", w, "lower end of the feasible part (gradient %s)" % d)
                    equal(rep, I, ns, c2 + r2, hi, "half", w, "upper end of the feasible part (gradient %s)" % d)
        except Undecided as e:
            rep.und("summary", w, str(e))
    for x in (("beta > tau", "up"), ("beta < -tau", "up"), ("|beta| <= tau", "up"), ("|beta| <= tau", "down")):
        if x not in seen:
            rep.und("verdict", w, "case %s never reached" % (x,))


def feasible(I, st, conds):
    """the partition restricted by conds, or None"""
    try:
        with At(I, st):
            for x in conds:
                if I.known(x) is False:
                    return None
                I.assume(x)
            return I.st.clone()
    except AbortPath:
        return None


# -- copies, centres, constructors -----------------------------------------------

UC = ["lib/src/ell.cpp", "lib/src/ell_stable.cpp", "lib/src/ell1d.cpp"]
ARRT = "R:xt::xarray_container"


def assertions(rep, src, what):
    """compile the witness: each failing static assertion is one violation"""
    import re
    import subprocess
    path = os.path.join(frontend.VERIF, "tu", src)
    text = open(path).read()
    ids = re.findall(r'static_assert\((?s:.*?)"(W\d+) ([^"]*)"\);', text)
    r = subprocess.run(["clang++"] + frontend.FLAGS + ["-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", path],
                       capture_output=True, text=True)
    bad = dict(re.findall(r"static assertion failed[^\n]*?: (W\d+) ([^\n]*)", r.stderr))
    other = [l for l in r.stderr.splitlines() if ": error:" in l and "static assertion failed" not in l]
    if other:
        rep.und("type", what, "the witness does not compile for another reason: %s" % other[0][-300:])
    for i, t in ids:
        if i in bad:
            rep.bad("type", what, "compile-time assertion fails: %s" % t)
        elif not other:
            rep.ok("type", what, t)
    rep.units.add("tu:" + src)


def value_types(rep, pr, cls):
    r = pr.records.get(cls)
    if r is None:
        raise Broken("class %s" % cls)
    for f in r["fields"]:
        t = f["t"]
        w = "%s::%s:%s" % (cls, f["n"], f.get("l"))
        if f.get("ref") or "shared_ptr" in t or "reference_wrapper" in t:
            rep.bad("shared-state", w, "member of type %s is shared between copies" % t)
        elif t == "ptr":
            rep.und("shared-state", w, "pointer member")
        else:
            rep.ok("shared-state", w, "member %s : %s is a value" % (f["n"], t))
    for b in r["bases"]:
        if b[2:] in pr.records:
            value_types(rep, pr, b[2:])


def elem_eq(rep, I, st, got, want, ix, rule, w, text):
    """elementwise equality at a generic index; want(ix) -> Poly"""
    if not isinstance(got, Arr) or got.rank != len(ix):
        raise Undecided("%s is %s" % (text, vkey(got)[:60]))
    with At(I, st):
        g = got.elem(ix, I)
    equal(rep, I, st, g, want, rule, w, text)


def p23(rep):
    from . import ell as E
    section(rep, "types", assertions, rep, "witness_copy.cpp", "ell/ell_stable/ell1d")
    pr = frontend.load(UC)
    rep.use(pr)
    aff.INT.add("n")
    for cls in ("ell", "ell_stable"):
        section(rep, cls, value_types, rep, pr, cls)
        section(rep, cls, ctors, rep, pr, cls)
        section(rep, cls, copies, rep, pr, cls)
    section(rep, "ell1d", value_types, rep, pr, "ell1d")
    section(rep, "ell1d", roles1d, rep, pr)


def built(rep, pr, cls, types, args):
    cts = [f for f in pr.fns.values() if f.get("cls") == cls and f["name"] == cls and [p["t"] for p in f["params"]] == types]
    if len(cts) != 1:
        raise Broken("%s(%s): %d constructors" % (cls, types, len(cts)))
    f = cts[0]
    n = sym("n")
    I, parts, _, this = analyse(pr, f, {"assume_ge": [n - 2]}, this="R:" + cls, rep=rep, setup=fresh_obj(cls),
                                args=dict(zip([p["n"] for p in f["params"]], args)))
    for st, k in parts:
        if k[0] != "ret":
            raise Undecided("constructor of %s: %s" % (cls, k))
    return f, I, [(st, st.store[this.root]) for st, _ in parts]


def ctors(rep, pr, cls):
    from .ell import Space, arr1
    sp = Space(pr, cls, Report("x"))
    n = sym("n")
    i, j = sym("i"), sym("j")
    aff.INT |= {"i", "j"}
    for types, args, d in ((["f64", ARRT], (sym("alpha"), arr1("x0")), lambda a: sym("alpha")),
                           ([ARRT, ARRT], (arr1("val"), arr1("x0")), lambda a: sel("val", (a,)))):
        f, I, res = built(rep, pr, cls, types, args)
        w = "%s::%s:%d" % (cls, cls, f["line"])
        for st, o in res:
            k, Q, xc = (o.fields[x] for x in (sp.kappa, sp.Q, sp.xc))
            s = st.clone()
            s.ge += [i, n - 1 - i, j, n - 1 - j]
            with At(I, s):
                if not isinstance(Q, Arr) or Q.rank != 2:
                    raise Undecided("shape matrix %s" % vkey(Q)[:60])
                qii = Q.elem((i, i), I)
                qij = Q.elem((i, j), I)
            equal(rep, I, s, k * qii, d(i), "constructor", w, "diagonal of the represented matrix")
            s2 = feasible(I, s, [ne(i, j)])
            equal(rep, I, s2, k * qij, ZERO, "constructor", w, "off-diagonal of the represented matrix")
            elem_eq(rep, I, s, xc, sel("x0", (i,)), (i,), "constructor", w, "centre")
            for a in (0, 1):
                equal(rep, I, s, Q.shape[a], n, "constructor", w, "the matrix has the dimension of the centre")


def copies(rep, pr, cls):
    from .ell import Space, arr1
    from .ell import N
    sp = Space(pr, cls, Report("x"))
    n = sym("n")
    base = sp.obj0
    o = Struct(cls, None, base.fields)
    scratch = set()
    for k, v in base.fields.items():
        if isinstance(v, Poly):
            if v.const() is None and v.syms() <= sym("n").syms():
                continue            # a function of the dimension
            if v.const() is not None and k != sp.kappa:
                scratch.add(k)      # overwritten by every update
            o = o.set(k, sym("f." + k))
        elif isinstance(v, Bool):
            o = o.set(k, ne(sym("b?f." + k), 0))
        elif isinstance(v, Arr):
            o = o.set(k, Arr.mk("f." + k, v.rank, (n,) * v.rank))

    def meth(name):
        # the member a call on an object of cls resolves to
        c = cls
        while True:
            r = [f for f in pr.fns.values() if f.get("cls") == c and f["name"] == name]
            if r:
                return r
            bs = pr.records[c]["bases"]
            if not bs:
                raise Broken("%s::%s" % (cls, name))
            c = bs[0][2:]

    put = lambda I, l, t: I.st.store.__setitem__(t.root, o)
    for f in meth("copy"):
        w = "%s::copy:%d" % (cls, f["line"])
        I, parts, _, this = analyse(pr, f, {}, this="R:" + cls, rep=rep, setup=put)
        for st, k in parts:
            if k[0] != "ret":
                rep.und("copy", w, str(k))
                continue
            same_fields(rep, I, st, k[1], o, w, "the copy's %s equals the original's", scratch)
            same_fields(rep, I, st, st.store[this.root], o, w, "copying leaves the original's %s")
    for f in meth("xc"):
        w = "%s::xc:%d" % (cls, f["line"])
        I, parts, _, this = analyse(pr, f, {}, this="R:" + cls, rep=rep, setup=put)
        for st, k in parts:
            if k[0] != "ret":
                rep.und("centre", w, str(k))
                continue
            v = k[1]
            if f.get("retref"):
                rep.bad("centre", w, "the centre is returned by reference")
                continue
            elem_eq(rep, I, st, v, sel("f." + sp.xc, (sym("i"),)), (sym("i"),), "centre", w, "the current centre is returned")
            same_fields(rep, I, st, st.store[this.root], o, w, "reading the centre leaves %s")
    for f in meth("set_xc"):
        w = "%s::set_xc:%d" % (cls, f["line"])
        I, parts, _, this = analyse(pr, f, {}, this="R:" + cls, rep=rep, setup=put, args={f["params"][0]["n"]: arr1("z")})
        for st, k in parts:
            if k[0] != "ret":
                rep.und("set-centre", w, str(k))
                continue
            o2 = st.store[this.root]
            elem_eq(rep, I, st, o2.fields[sp.xc], sel("z", (sym("i"),)), (sym("i"),), "set-centre", w, "the centre is the given point")
            same_fields(rep, I, st, o2, o.set(sp.xc, o2.fields[sp.xc]), w, "setting the centre leaves %s")


def same_fields(rep, I, st, got, want, w, text, skip=()):
    if not isinstance(got, Struct):
        raise Undecided("object is %s" % vkey(got)[:60])
    for k, v in want.fields.items():
        if k in skip:
            continue
        if k not in got.fields:
            rep.und("fields", w, (text % k) + ": field not found")
            continue
        g = got.fields[k]
        if isinstance(v, Arr) and isinstance(g, Arr) and v.rank == g.rank:
            ix = tuple(sym("e%d" % d) for d in range(v.rank))
            aff.INT.update("e%d" % d for d in range(v.rank))
            s = st.clone()
            for x, n in zip(ix, v.shape):
                s.ge += [x, n - 1 - x]
            with At(I, s):
                a, b = g.elem(ix, I), v.elem(ix, I)
            equal(rep, I, s, a, b, "fields", w, text % k)
        else:
            equal(rep, I, st, g, v, "fields", w, text % k)


# -- no shared mutable state --------------------------------------------------------

HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "rand_r", "strtok", "asctime", "ctime", "localtime",
          "gmtime", "setlocale", "setenv", "putenv", "strerror", "signal", "fesetround", "atexit", "std::rand", "std::srand",
          "std::strtok", "std::setlocale", "std::fesetround", "std::atexit", "std::locale::global", "std::set_terminate"}
GENERATOR = "create_2d_isotropic"      # the random test-data generator is outside the statement


def every_unit():
    d = os.path.join(frontend.REPO, "lib", "src")
    return ["lib/src/" + f for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "spectral_fact.cpp"] + \
        ["tu:drivers", "tu:netoptim", "tu:oracles", "tu:pylib", "tu:graph", "tu:bgl"]


def in_lib(f):
    p = f if os.path.isabs(f) else os.path.join(frontend.REPO, f)
    p = os.path.normpath(p)
    return any(p.startswith(os.path.join(frontend.REPO, "lib", d) + "/") for d in
               ("include/ellcpp", "include/netoptim", "include/py2cpp", "src"))


def p26(rep):
    pr = frontend.load(every_unit())
    rep.use(pr)
    for (n, file, line), g in sorted(pr.statics.items(), key=lambda x: (x[0][1], x[0][2])):
        if not in_lib(file):
            continue
        w = "%s:%s:%d" % (n, os.path.basename(file), line)
        kind = "thread-local" if g["tls"] else "static"
        if g["percall"]:
            rep.bad("static", w, "%s variable keeps the value of the first call's arguments or object for all later ones" % kind)
        elif g["const"] and not g.get("mutable"):
            rep.ok("static", w, "constant")
        elif g["const"]:
            rep.und("static", w, "constant object with mutable members")
        elif g["written"] and not g["dep"]:
            rep.bad("static", w, "%s variable is modified (line %s) and shared by every instance" % (kind, g["wline"]))
        elif g["written"] or g["binds"] or not (g["local"] or "(anonymous" in n):
            rep.und("static", w, "%s variable may be modified" % kind)
        else:
            rep.ok("static", w, "never modified")
    # calls that read or write process-wide state
    callers = {}
    uses = {}
    for f in pr.fns.values():
        if not in_lib(f.get("file", "")):
            continue
        for x in frontend.walk_nodes([f.get("body"), f.get("inits")]):
            q = x.get("qn") or x.get("name") or ""
            if x["k"] != "var" and x.get("fn"):
                callers.setdefault(x["fn"], set()).add(f["key"])
                if str(q) in HIDDEN or str(q).startswith("xt::random::"):
                    uses.setdefault(f["key"], []).append((q, x.get("l")))
    allowed = {f["key"] for f in pr.fns.values() if f["name"] == GENERATOR}
    grown = True
    while grown:                        # helpers only the generator calls
        grown = False
        for k, cs in callers.items():
            if k not in allowed and cs and cs <= allowed:
                allowed.add(k)
                grown = True
    for f in pr.fns.values():
        if not in_lib(f.get("file", "")):
            continue
        rep.stats["functions"].add(f["key"])
        w = "%s:%s:%d" % (f["qn"], os.path.basename(f["file"]), f["line"])
        if f["key"] in uses and f["key"] not in allowed:
            rep.bad("hidden-state", w, "calls %s (line %s): process-wide state" % uses[f["key"]][0])
        else:
            rep.ok("hidden-state", w, "no process-wide state")
    for r in pr.records.values():
        if not in_lib(r.get("file", "")):
            continue
        w = "%s:%s" % (r["n"], r["line"])
        for x in r["fields"]:
            if "shared_ptr" in x["t"]:
                rep.bad("shared-member", w, "member %s : %s is shared by copies" % (x["n"], x["t"]))
            else:
                rep.ok("shared-member", w, "member %s" % x["n"])

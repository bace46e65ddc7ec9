"""The LDL' factorisation: equations of factor / witness / sym_quad / sqrt and
the protocol between them, for every symmetric matrix of an instantiated
dimension.  Every symmetric matrix falls into exactly one pivot pattern; within
a pattern the matrix is written through its own pivots d_i and multipliers
l_ij, which makes the factorisation's arithmetic polynomial."""
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, sel
from engine.values import *

UNITS = ["tu:oracles", "lib/src/ldlt_ext.cpp"]
CLS = "ldlt_ext"


_PR = []


def prog(rep):
    if not _PR:
        _PR.append(frontend.load(UNITS))
    rep.use(_PR[0])
    return _PR[0]


def method(pr, name, n=1):
    r = [f for f in pr.fns.values() if f.get("cls") == CLS and f["name"] == name]
    if len(r) < n:
        raise Broken("ldlt_ext::%s" % name)
    return r


def patterns(n, semi):
    """pivot patterns: list of '+'/'0' rows factorised, then the failing row's
    sign ('-', or '0' when zero pivots are not allowed) or None"""
    out = []
    zero = ("+", "0") if semi else ("+",)
    def go(pre):
        if len(pre) == n:
            out.append((pre, None))
            return
        out.append((pre, "-"))
        if not semi:
            out.append((pre, "0"))
        for z in zero:
            go(pre + (z,))
    go(())
    return out


class Mat:
    """the matrix of a pattern: l, d within each block of nonzero pivots, free
    symbols elsewhere; rows after the failing one are free"""

    def __init__(self, n, pat):
        pre, last = pat
        self.n, self.pre, self.last = n, pre, last
        self.stop = len(pre) + 1 if last else 0
        self.d, self.facts = [], []
        for i, s in enumerate(pre + ((last,) if last else ())):
            x = sym("d%d" % i) if s != "0" else ZERO
            self.d.append(x)
            if s != "0":
                self.facts.append(lt(0, x) if s == "+" else lt(x, 0))
        self.starts = []          # start of the block a row belongs to
        s = 0
        for i in range(n):
            self.starts.append(s)
            if i < len(pre) and pre[i] == "0":
                s = i + 1
        self.start = s if not last else self.starts[len(pre)]

    def l(self, i, j):
        return ONE if i == j else (sym("l%d%d" % (i, j)) if i > j else ZERO)

    def at(self, i, j):
        if i < j:
            i, j = j, i
        b = self.starts[i] if i < self.n else 0
        if i >= len(self.d) or j < b:
            return sym("a%d%d" % (i, j))
        return sum((self.l(i, k) * self.d[k] * self.l(j, k) for k in range(b, j + 1)), ZERO)

    def arr(self):
        def fn(idx, ctx):
            c = [p.const() for p in idx]
            if len(c) != 2 or None in c:
                raise Undecided("element at a symbolic index")
            return self.at(int(c[0]), int(c[1]))
        return Arr(2, (P(self.n), P(self.n)), fn, "A")

    def text(self):
        return "pivots %s, dimension %d" % ("".join(self.pre) + (self.last or ""), self.n)


def make(pr, n, rep):
    f = [g for g in method(pr, CLS) if len(g["params"]) == 1 and g["params"][0]["t"] in ("u64", "size_t", "u32", "i64", "i32")]
    if len(f) != 1:
        raise Broken("ldlt_ext(size_t)")
    I, parts, _, this = analyse(pr, f[0], {"unroll": 40}, this="R:" + CLS, rep=rep, args={f[0]["params"][0]["n"]: P(n)},
                                setup=lambda I, l, t: I.st.store.__setitem__(t.root, Struct(CLS, None)))
    if len(parts) != 1 or parts[0][1][0] != "ret":
        raise Undecided("constructor of ldlt_ext")
    return parts[0][0].store[this.root]


def dirty(o, names):
    """the object with the named members arbitrary"""
    def val(k, v):
        if isinstance(v, Poly):
            return sym("old." + k)
        if isinstance(v, Bool):
            return ne(sym("b?old." + k), 0)
        if isinstance(v, Arr):
            return Arr.mk("old." + k, v.rank, v.shape)
        if isinstance(v, Struct):
            return Struct(v.cls, v.tag if hasattr(v, "tag") else None, {x: val(k + "." + x, y) for x, y in v.fields.items()})
        raise Undecided("member %s" % k)
    for k in names:
        o = o.set(k, val(k, o.fields[k]))
    return o


def stale(x):
    """does a value mention the previous state?"""
    return "old." in vkey(x)


class Run:
    def __init__(self, rep, pr, n, semi):
        self.rep, self.pr, self.n, self.semi = rep, pr, n, semi
        self.o0 = make(pr, n, rep)
        self.dirty = set()
        self.seen = []
    def call(self, f, o, m, args=None, st=None):
        def setup(I, lvs, this):
            I.st.store[(this or lvs[0]).root] = o
            if st is not None:
                I.st.pc, I.st.ge, I.st.gt = list(st.pc), list(st.ge), list(st.gt)
            else:
                for x in m.facts:
                    I.assume(x)
        if args is None:
            args = {}
        I, parts, lvs, this = analyse(self.pr, f, {"unroll": 40, "bounds": True, "wrap": True, "positive": tuple(
            "d%d" % i for i, s in enumerate(m.pre) if s == "+")}, this="R:" + CLS if f.get("cls") == CLS else None,
            rep=self.rep, setup=setup, args=args)
        for s, k in parts:
            if k[0] == "oob":
                never(self.rep, I, s, "index", "ldlt_ext::%s:%d" % (f["name"], f["line"]), "%s: %s is out of range" % (m.text(), k[1]))
            elif k[0] == "throw":
                never(self.rep, I, s, "assertion", "ldlt_ext::%s:%d" % (f["name"], f["line"]), "%s: an assertion fails or an exception is thrown" % m.text())
        return I, [(s, k, s.store[(this or lvs[0]).root]) for s, k in parts]

    def factor(self, o, m):
        if self.semi:
            f = self.pr.one(qn="vw::use_ldlt_semi_m")
            I, parts = self.call(f, o, m, {f["params"][1]["n"]: m.arr()})
        else:
            f = method(self.pr, "factorize")[0]
            I, parts = self.call(f, o, m, {f["params"][0]["n"]: m.arr()})
        return f, I, parts

    def changed(self, o, o2):
        for k, v in o.fields.items():
            if k not in o2.fields or vkey(o2.fields[k]) != vkey(v):
                self.dirty.add(k)


def elems(I, st, a, ix):
    with At(I, st):
        return a.elem(tuple(P(i) for i in ix), I)


def pair(o):
    p = o.fields.get("p")
    if not isinstance(p, Struct) or len(p.fields) != 2:
        raise Undecided("reported interval")
    ks = ("first", "second") if "first" in p.fields else sorted(p.fields)
    return p.fields[ks[0]], p.fields[ks[1]]


def every(rep, n, semi, hist, eqs):
    pr = prog(rep)
    r = Run(rep, pr, n, semi)
    wit, sq, quad, spd = (method(pr, x)[0] for x in ("witness", "sqrt", "sym_quad", "is_spd"))
    pats = [Mat(n, p) for p in patterns(n, semi)]
    name = "factor<semidefinite>" if semi else "factor"
    both = [(r, m) for m in pats]        # which members the methods change, and to what
    if not semi:
        r2 = Run(rep, pr, n, True)
        r2.dirty, r2.seen = r.dirty, r.seen
        both += [(r2, Mat(n, p)) for p in patterns(n, True) if "0" in p[0]]
    for q, m in both:
        f, I, parts = q.factor(r.o0, m)
        for st, k, o in parts:
            r.changed(r.o0, o)
            r.seen.append(o)
            if k[0] == "ret" and m.last:
                I2, ps = r.call(wit, o, m, st=st)
                for _, _, o2 in ps:
                    r.changed(o, o2)
    # members that only take constant values range over those values
    # (jointly); the others are arbitrary
    fixed = [k for k in sorted(r.dirty) if all(consts(o.fields[k]) is not None for o in r.seen)]
    prior = {tuple(vkey(o.fields[k]) for k in fixed): o for o in [r.o0] + r.seen}
    for key in sorted(prior):
        start = dirty(r.o0, r.dirty - set(fixed))
        for k in fixed:
            start = start.set(k, prior[key].fields[k])
        for m in pats:
            section(rep, "ldlt_ext::%s: %s" % (name, m.text()), one, rep, r, m, start, name, wit, sq, quad, spd, hist, eqs)
        if not hist:
            break


def consts(v):
    if isinstance(v, Poly):
        return v.const()
    if isinstance(v, Bool):
        return v.a if v.kind == "c" else None
    if isinstance(v, Struct):
        xs = [consts(x) for x in v.fields.values()]
        return None if None in xs else tuple(xs)
    return None


def one(rep, r, m, o0, name, wit, sq, quad, spd, hist, eqs):
    n = m.n
    f, I, parts = r.factor(o0, m)
    w = "ldlt_ext::%s:%d" % (name, f["line"])
    tx = m.text() + ": "
    if any(k[0] != "ret" for _, k, _ in parts):
        rep.und("summary", w, tx + "does not return: %s" % [k for _, k, _ in parts])
    for st, k, o in parts:
        if k[0] != "ret":
            continue
        ok = TRUE if not m.last else FALSE
        s, e = pair(o)
        if hist:
            equal(rep, I, st, k[1], ok, "answer", w, tx + "answers %s" % (not m.last))
            equal(rep, I, st, e, P(m.stop), "interval", w, tx + "reported end is %d" % m.stop)
            equal(rep, I, st, s, P(m.start), "interval", w, tx + "reported start is %d" % m.start)
            I2, ps = r.call(spd, o, m, st=st)
            for st2, k2, _ in ps:
                if k2[0] == "ret":
                    equal(rep, I2, st2, k2[1], ok, "answer", w, tx + "is_spd repeats the answer")
                else:
                    rep.und("answer", w, tx + "is_spd does not return")
        ws, ss = "ldlt_ext::witness:%d" % wit["line"], "ldlt_ext::sqrt:%d" % sq["line"]
        I2, ps = r.call(wit, o, m, st=st)
        # (no square root is defined for a semidefinite factorisation)
        I3, ps3 = r.call(sq, o, m, st=st) if m.last or "0" not in m.pre else (None, [])
        if not m.last:
            if hist:
                for st2, k2, _ in ps:
                    if k2[0] == "ret":
                        never(rep, I2, st2, "protocol", ws, tx + "no witness of a successful factorisation")
                    elif k2[0] == "undecided":
                        rep.und("protocol", ws, tx + str(k2[1]))
                rep.ok("protocol", ws, tx + "examined")
            for st3, k3, o3 in ps3:
                if k3[0] == "ret":
                    root(rep, r, m, I3, st3, k3[1], o3, o, ss, tx, hist, eqs)
                else:
                    rep.und("summary", ss, tx + "no square root: %s" % (k3,))
        else:
            if hist:
                for st3, k3, _ in ps3:
                    if k3[0] == "ret":
                        never(rep, I3, st3, "protocol", ss, tx + "no square root of a failed factorisation")
                    elif k3[0] == "undecided":
                        rep.und("protocol", ss, tx + str(k3[1]))
                rep.ok("protocol", ss, tx + "examined")
            for st2, k2, o2 in ps:
                if k2[0] == "ret":
                    evidence(rep, r, m, I2, st2, k2[1], o2, o, ws, tx, quad, hist, eqs)
                else:
                    rep.und("summary", ws, tx + "no witness: %s" % (k2,))


def kept(rep, r, I, st, o, o2, names, w, tx):
    for k in names:
        a, b = o.fields.get(k), o2.fields.get(k)
        if a is None or b is None:
            continue
        if isinstance(a, Struct):
            for x in a.fields:
                equal(rep, I, st, b.fields[x], a.fields[x], "kept", w, tx + "%s.%s is kept" % (k, x))
        elif not isinstance(a, Arr):
            equal(rep, I, st, b, a, "kept", w, tx + "%s is kept" % k)


def root(rep, r, m, I, st, R, o2, o, w, tx, hist, eqs):
    n = m.n
    if not isinstance(R, Arr):
        raise Undecided("square root is %s" % vkey(R)[:60])
    E = [[elems(I, st, R, (i, j)) for j in range(n)] for i in range(n)]
    if hist:
        for i in range(n):
            for j in range(n):
                if stale(E[i][j]):
                    depends(rep, I, st, E[i][j], "stale", w, tx + "entry (%d,%d) of the square root" % (i, j))
                else:
                    rep.ok("stale", w, tx + "entry (%d,%d) from the last matrix only" % (i, j))
        kept(rep, r, I, st, o, o2, ["p"], w, tx)
    if eqs and not r.semi:
        for i in range(n):
            for j in range(i):
                equal(rep, I, st, E[i][j], ZERO, "triangular", w, tx + "entry (%d,%d) is zero" % (i, j))
            for j in range(i, n):
                equal(rep, I, st, sum((E[k][i] * E[k][j] for k in range(n)), ZERO), m.at(i, j), "sqrt", w,
                      tx + "(R'R)(%d,%d) = A(%d,%d)" % (i, j, i, j))


def depends(rep, I, st, v, rule, w, text):
    """a value that mentions the previous state: does it change with it?"""
    a = [x for x in atoms_of(v) if "old." in x.key]
    mp = {x: P(fresh_sym(x)) for x in a}
    equal(rep, I, st, v, subst(v, mp), rule, w, text + " does not depend on the previous factorisation")


def fresh_sym(x):
    return sym("new<" + x.key.replace("old.", "") + ">")


def evidence(rep, r, m, I, st, ep, o2, o, w, tx, quad, hist, eqs):
    a, b = m.start, m.stop
    v = [elems(I, st, o2.fields["v"], (i,)) for i in range(a, b)]
    if hist:
        for i, x in enumerate(v + [ep]):
            if stale(x):
                depends(rep, I, st, x, "stale", w, tx + ("witness entry %d" % (a + i) if i < len(v) else "witness value"))
            else:
                rep.ok("stale", w, tx + "from the last matrix only")
        kept(rep, r, I, st, o, o2, ["p"], w, tx)
        # a second read gives the same certificate
        I4, ps4 = r.call(next(f for f in r.pr.fns.values() if f.get("cls") == CLS and f["name"] == "witness"), o2, m, st=st)
        for st4, k4, o4 in ps4:
            if k4[0] == "ret":
                equal(rep, I4, st4, k4[1], ep, "reread", w, tx + "reading the witness again gives the same value")
                for i in range(a, b):
                    equal(rep, I4, st4, elems(I4, st4, o4.fields["v"], (i,)), v[i - a], "reread", w, tx + "and the same vector")
            else:
                never(rep, I4, st4, "reread", w, tx + "the witness can be read again")
    if eqs:
        q = sum((v[i - a] * m.at(i, j) * v[j - a] for i in range(a, b) for j in range(a, b)), ZERO)
        equal(rep, I, st, q, -ep, "witness", w, tx + "v'Av = -ep")
        require(rep, I, st, le(0, ep), "witness", w, tx + "ep >= 0")
        require(rep, I, st, ne(v[-1], 0), "witness", w, tx + "the witness is not zero")
        M = Arr(2, (P(m.n), P(m.n)), lambda ix, ctx: sel("M", tuple(sorted(ix, key=lambda p: p.const()))), "M")
        I5, ps5 = r.call(quad, o2, m, {quad["params"][0]["n"]: M}, st=st)
        ref = sum((v[i - a] * sel("M", (P(min(i, j)), P(max(i, j)))) * v[j - a] for i in range(a, b) for j in range(a, b)), ZERO)
        for st5, k5, _ in ps5:
            if k5[0] == "ret":
                equal(rep, I5, st5, k5[1], ref, "quadratic-form", "ldlt_ext::sym_quad:%d" % quad["line"], tx + "sym_quad(M) = v'Mv")
            else:
                rep.und("summary", w, tx + "sym_quad: %s" % (k5,))


def dims(semi):
    if harness.TIER == "thorough":
        return (1, 2, 3, 4) if semi else (1, 2, 3, 4, 5, 6)
    return (1, 2, 3) if semi else (1, 2, 3, 4)


def p13(rep):
    for semi in (False, True):
        for n in dims(semi):
            section(rep, "ldlt_ext n=%d" % n, every, rep, n, semi, True, False)


def p14(rep):
    for semi in (False, True):
        for n in dims(semi):
            section(rep, "ldlt_ext n=%d" % n, every, rep, n, semi, False, True)

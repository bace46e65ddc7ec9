"""Cutting-plane oracles: every returned cut is the value and the gradient, at
the queried point, of one of the problem's functions; which cuts come with an
improvement; the factorisation is read in the right state.

The factorisation is replaced by its contract (decided by P13/P14): it asks for
the lower triangle row by row, either succeeds or fails at a row, and then has
an arbitrary vector v with v'Av = -ep <= 0."""
from . import network
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, sel, diff, exp, log, fun, sqrt as psqrt, absv, atoms_of
from engine.values import *

UNITS = ["lib/src/%s.cpp" % s for s in ("profit_oracle", "lmi_oracle", "lmi0_oracle", "lmi_old_oracle", "qmi_oracle",
                                        "lowpass_oracle", "lsq_corr_ell", "ldlt_ext")] + ["tu:oracles"]
LD = "ldlt_ext"
_PR = []


def prog(rep):
    if not _PR:
        _PR.append(frontend.load(UNITS))
    rep.use(_PR[0])
    return _PR[0]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), ZERO)


def vec(name, n):
    return Arr.mk(name, 1, (P(n),))


def ix(name, n):
    return [sel(name, (P(i),)) for i in range(n)]


def symm(name, n):
    """symbolic symmetric matrix"""
    def fn(idx, ctx):
        c = [p.const() for p in idx]
        if None in c:
            raise Undecided("element of %s at a symbolic index" % name)
        return sel(name, tuple(P(x) for x in sorted(c)))
    return Arr(2, (P(n), P(n)), fn, name)


def at(a, i, j):
    return a.fn((P(i), P(j)), None)


# -- contract of the factorisation ------------------------------------------------

class Contract:
    """intrinsics standing for ldlt_ext's members; v is named after the object"""

    def __init__(self, rep):
        self.rep = rep
        self.use = []         # (state, condition, site, text): protocol obligations

    def table(self):
        return {LD + "::" + k: getattr(self, k) for k in ("factor", "factorize", "witness", "sym_quad", "sqrt", "is_spd")}

    def open(self, I, n, fr):
        lv = I.resolve_lv(I.intr.obj(n, fr))
        o = I.read(lv)
        if not isinstance(o, Struct) or o.cls != LD:
            raise Undecided("factorisation object")
        v = o.fields.get("v")
        if not isinstance(v, Arr) or v.shape[0].const() is None:
            raise Undecided("dimension of the factorisation")
        return lv, o, int(v.shape[0].const())

    def factorize(self, I, n, fr):
        a = I.rv(n["args"][0], fr)
        if not isinstance(a, Arr):
            raise Undecided("factorised matrix")
        return self.run(I, n, fr, lambda i, j: a.elem((P(i), P(j)), I))

    def factor(self, I, n, fr):
        c = I.rv(n["args"][0], fr)
        if not isinstance(c, Closure):
            raise Undecided("element function is not a closure")
        g = I.prog.fns.get(c.fn)
        if g is None:
            raise Undecided("element function")

        def get(i, j):
            lvs = [I.newroot("i", P(i)), I.newroot("j", P(j))]
            return I.topoly(I.invoke(g, lvs, c.this, c.env, n.get("l")))
        return self.run(I, n, fr, get)

    def run(self, I, n, fr, get):
        lv, o, N = self.open(I, n, fr)
        tag = lv.path[-2][1] if len(lv.path) > 1 else (lv.path[-1][1] if lv.path else lv.root)
        tag = ".".join(s[1] for s in lv.path if s[0] == "f")
        A = {}
        stop = 0
        for i in range(N):
            for j in range(i + 1):
                A["%d,%d" % (i, j)] = get(i, j)
            fails = I.decide(ne(sym("b?%s.fails%d" % (tag, i)), 0))
            if fails:
                stop = i + 1
                break
        lv, o, N = self.open(I, n, fr)        # (evaluation may have changed the owner)
        o = o.set("p", Struct("std::pair", None, {"first": ZERO, "second": P(stop)}))
        o = o.set("#A", Struct("#A", None, A)).set("#stop", P(stop))
        if stop:
            names = {i: sym("%s.v%d" % (tag, i)) for i in range(stop)}
            old = o.fields["v"]

            def fn(idx, ctx):
                c = idx[0].const()
                if c is None:
                    raise Undecided("witness entry at a symbolic index")
                return names[int(c)] if int(c) in names else old.elem(idx, ctx)
            o = o.set("v", Arr(1, old.shape, fn, tag + ".v"))
        I.write(lv, o)
        if stop:
            I.require(le(0, self.value(o, stop)))
        return FALSE if stop else TRUE

    @staticmethod
    def value(o, stop):
        v = [o.fields["v"].fn((P(i),), None) for i in range(stop)]
        A = o.fields["#A"].fields
        return -sum((v[i] * v[j] * A["%d,%d" % (max(i, j), min(i, j))] for i in range(stop) for j in range(stop)), ZERO)

    def state(self, I, o, want, n, what):
        s = o.fields.get("#stop")
        w = I.where()[0]
        f = I.prog.fns.get(w)
        site = "%s:%s" % (f["qn"] if f else w, n.get("l"))
        # the root of a factorisation stands for a constraint that holds (P12:
        # verdict, P20: feasible), the witness for one that does not (P12)
        rules = ("verdict",) if want else ("verdict", "feasible")
        for rule in rules:
            if s is None:
                self.rep.bad(rule, site, "%s is read although the constraint was not examined at this point" % what)
            elif (int(s.const()) > 0) != want:
                never(self.rep, I, I.st.clone(), rule, site, "%s is read after a %s factorisation" % (what, "failed" if not want else "successful"))
            else:
                self.rep.ok(rule, site, "%s is read after a %s factorisation" % (what, "failed" if want else "successful"))
        if s is not None and (int(s.const()) > 0) == want:
            return int(s.const())
        raise AbortPath()

    def witness(self, I, n, fr):
        lv, o, N = self.open(I, n, fr)
        return self.value(o, self.state(I, o, True, n, "the witness"))

    def sym_quad(self, I, n, fr):
        lv, o, N = self.open(I, n, fr)
        m = I.rv(n["args"][0], fr)
        stop = self.state(I, o, True, n, "the quadratic form")
        if not isinstance(m, Arr):
            raise Undecided("matrix of the quadratic form")
        v = [o.fields["v"].fn((P(i),), None) for i in range(stop)]
        return sum((v[i] * v[j] * m.elem((P(min(i, j)), P(max(i, j))), I) for i in range(stop) for j in range(stop)), ZERO)

    def sqrt(self, I, n, fr):
        lv, o, N = self.open(I, n, fr)
        self.state(I, o, False, n, "the square root")
        tag = ".".join(s[1] for s in lv.path if s[0] == "f")

        def fn(idx, ctx):
            c = [p.const() for p in idx]
            if None in c:
                raise Undecided("square root at a symbolic index")
            return sym("%s.R%d%d" % (tag, c[0], c[1])) if c[0] <= c[1] else ZERO
        return Arr(2, (P(N), P(N)), fn, tag + ".R")

    def is_spd(self, I, n, fr):
        lv, o, N = self.open(I, n, fr)
        s = o.fields.get("#stop")
        if s is None:
            raise Undecided("is_spd before a factorisation")
        return FALSE if s.const() else TRUE


# -- one problem --------------------------------------------------------------------

class Fn:
    """a function of the problem: value as a polynomial-like expression in the
    queried point"""

    def __init__(self, name, value, grad=None):
        self.name, self.value, self.grad = name, value, grad


def construct(rep, pr, cls, args, cfg, pred=lambda f: True):
    cts = [f for f in pr.fns.values() if f.get("cls") == cls and f["name"] == cls and len(f["params"]) == len(args) and pred(f)]
    if len(cts) != 1:
        raise Broken("constructor of %s: %d" % (cls, len(cts)))
    f = cts[0]
    I, parts, _, this = analyse(pr, f, cfg, this="R:" + cls, rep=rep, args=dict(zip([p["n"] for p in f["params"]], args)),
                                setup=lambda I, l, t: I.st.store.__setitem__(t.root, Struct(cls, None)))
    if len(parts) != 1 or parts[0][1][0] != "ret":
        raise Undecided("constructor of %s: %s" % (cls, [k for _, k in parts]))
    st = parts[0][0]
    return st.store[this.root], st


def call(rep, pr, f, obj, st0, args, cfg, pre=()):
    """partitions of f on obj; st0's store is kept (referenced arguments)"""
    def setup(I, lvs, this):
        for k, v in st0.store.items():
            I.st.store.setdefault(k, v)
        I.st.store[(this or lvs[0]).root] = obj
        for x in pre:
            I.assume(x)
    I, parts, lvs, this = analyse(pr, f, cfg, this="R:" + f["cls"] if f.get("cls") else None, rep=rep, setup=setup, args=args)
    return I, parts, lvs, this


def op(pr, cls, nparams):
    r = [f for f in pr.fns.values() if f.get("cls") == cls and f["name"] == "operator()" and len(f["params"]) == nparams]
    if len(r) != 1:
        raise Broken("%s::operator(): %d" % (cls, len(r)))
    return r[0]


def comp(v, *path):
    for p in path:
        if isinstance(v, Struct) and v.cls == "std::optional" and "val" in v.fields:
            v = v.fields["val"]
        if not isinstance(v, Struct) or p not in v.fields:
            raise Undecided("component %s of %s" % (p, vkey(v)[:60]))
        v = v.fields[p]
    return v


def elem(I, st, a, *idx):
    if not isinstance(a, Arr):
        raise Undecided("not an array: %s" % vkey(a)[:60])
    with At(I, st):
        return a.elem(tuple(P(i) for i in idx), I)


def valid(rep, I, st, w, cut, fns, nx, x, tx, rule="valid-cut"):
    """the cut is value and gradient of one of fns"""
    g, beta = cut
    try:
        gs = [elem(I, st, g, i) for i in range(nx)]
    except Undecided as e:
        rep.und(rule, w, tx + str(e))
        return None
    for f in fns:
        if peq(beta, f.value) and all(peq(gs[i], d) for i, d in enumerate(grads(f, nx, x))):
            rep.ok(rule, w, tx + "value and gradient of " + f.name)
            return f
    # not recognised: blame the closest function (same value, or most equal gradient entries)
    def score(f):
        d = grads(f, nx, x)
        return 2 * bool(peq(beta, f.value)) + sum(1 for i in range(nx) if peq(gs[i], d[i])) / nx
    f = max(fns, key=score)
    equal(rep, I, st, beta, f.value, rule, w, tx + "offset is the value of " + f.name)
    for i, d in enumerate(grads(f, nx, x)):
        equal(rep, I, st, gs[i], d, rule, w, tx + "component %d is the derivative of %s" % (i, f.name))
    return f


def grads(f, nx, x):
    if f.grad is not None:
        return f.grad
    f.grad = [diff(f.value, x, (P(i),)) for i in range(nx)]
    return f.grad


# -- linear and quadratic matrix inequalities ------------------------------------------

def lmi_value(F, B, xs, stop, v):
    """-v'(B - sum x_k F_k)v over the leading stop rows (B None: +sum x_k F_k)"""
    def A(i, j):
        s = sum((at(F[k], i, j) * xs[k] for k in range(len(F))), ZERO)
        return (at(B, i, j) - s) if B is not None else s
    return A, -sum((v[i] * v[j] * A(i, j) for i in range(stop) for j in range(stop)), ZERO)


def qmi_matrix(F, F0, t, xs, m):
    """t I - F(x)'F(x)"""
    def fx(r, c):
        return at(F0, r, c) - sum((at(F[k], r, c) * xs[k] for k in range(len(F))), ZERO)
    n = int(F0.shape[0].const())

    def A(i, j):
        return (t if i == j else ZERO) - sum((fx(r, i) * fx(r, j) for r in range(n)), ZERO)
    return A


def ldlts(v, path=()):
    """the factorisation objects inside an object"""
    if isinstance(v, Struct):
        if v.cls == LD:
            yield ".".join(path), v
        else:
            for k, x in v.fields.items():
                yield from ldlts(x, path + (k,))


def semidefinite(rep, cls, spec, make, nx, m, con, extra_args=(), target=None):
    """feasibility oracles over one matrix inequality"""
    pr = prog(rep)
    cfg = {"unroll": 40, "intrinsics": con.table()}
    obj, st0 = make(pr, cfg)
    f = target(pr) if target else op(pr, cls, 1)
    w = "%s::operator():%d" % (cls, op(pr, cls, 1)["line"])
    xs = ix("x", nx)
    args = {f["params"][-1]["n"]: vec("x", nx)}
    args.update(extra_args)
    # twice: the second query starts from whatever the first one left behind
    starts = [("first query", obj, st0)]
    I, parts, lvs, this = call(rep, pr, f, obj, st0, args, cfg)
    o1 = [st.store[(this or lvs[0]).root] for st, k in parts if k[0] == "ret"]
    starts.append(("later query", later(obj, o1), st0))
    for when, o, s0 in starts:
        I, parts, lvs, this = call(rep, pr, f, o, s0, args, cfg)
        for st, k in parts:
            tx = "%s, %s, %d variables, dimension %d: " % (cls, when, nx, m)
            if k[0] != "ret":
                rep.und("summary", w, tx + str(k))
                continue
            section(rep, w, one_semi, rep, I, st, k[1], st.store[(this or lvs[0]).root], w, tx, spec, nx, m, xs)


def later(obj, outs):
    """the object with every member some call changes arbitrary"""
    def go(a, bs, path):
        if isinstance(a, Struct):
            fs = {}
            for k, v in a.fields.items():
                fs[k] = go(v, [b.fields[k] for b in bs if isinstance(b, Struct) and k in b.fields], path + "." + k)
            return Struct(a.cls, None, fs)
        if all(vkey(b) == vkey(a) for b in bs):
            return a
        if isinstance(a, Poly):
            return sym("old" + path)
        if isinstance(a, Bool):
            return ne(sym("b?old" + path), 0)
        if isinstance(a, Arr):
            shapes = {(b.rank, tuple(x.key for x in b.shape)) if isinstance(b, Arr) and b.rank is not None else None for b in bs}
            if len(shapes) != 1 or None in shapes:
                raise Undecided("shape of %s after a call" % path)
            return Arr.mk("old" + path, bs[0].rank, bs[0].shape)
        return a
    return go(obj, outs, "")


def one_semi(rep, I, st, r, o, w, tx, spec, nx, m, xs):
    qs = list(ldlts(o))
    if len(qs) != 1:
        raise Undecided("factorisation objects: %d" % len(qs))
    tag, q = qs[0]
    if "#stop" not in q.fields:
        rep.bad("verdict", w, tx + "no factorisation of the matrix inequality before the answer")
        return
    stop = int(q.fields["#stop"].const())
    A = spec(xs)
    if not isinstance(r, Struct) or r.cls != "std::optional":
        raise Undecided("result %s" % vkey(r)[:60])
    has = r.fields.get("has")
    for key, a in q.fields["#A"].fields.items():
        i, j = (int(c) for c in key.split(","))
        equal(rep, I, st, a, A(i, j), "matrix", w, tx + "entry (%d,%d) of the factorised matrix" % (i, j))
    if stop == 0:
        equal(rep, I, st, has, FALSE, "verdict", w, tx + "no cut when the inequality holds")
        return
    equal(rep, I, st, has, TRUE, "verdict", w, tx + "a cut when the inequality fails")
    v = [sym("%s.v%d" % (tag, i)) for i in range(stop)]
    val = -sum((v[i] * v[j] * A(i, j) for i in range(stop) for j in range(stop)), ZERO)
    if has is not FALSE:
        valid(rep, I, st, w, (comp(r, "0"), comp(r, "1")), [Fn("-v'A(x)v", val)], nx, "x", tx)


def sizes():
    return ((2, 2), (1, 3), (3, 2)) if harness.TIER != "thorough" else ((2, 2), (1, 3), (3, 2), (2, 3), (3, 3))


def lmis(rep):
    con = Contract(rep)
    for nx, m in sizes():
        F = [symm("F%d" % k, m) for k in range(nx)]
        B = symm("B", m)
        for cls in ("lmi_oracle", "lmi_old_oracle"):
            section(rep, cls, semidefinite, rep, cls, lambda xs: lmi_value(F, B, xs, 0, [])[0],
                    lambda pr, cfg: construct(rep, pr, cls, (Seq(None, F), B), cfg), nx, m, con)
        section(rep, "lmi0_oracle", semidefinite, rep, "lmi0_oracle", lambda xs: lmi_value(F, None, xs, 0, [])[0],
                lambda pr, cfg: construct(rep, pr, "lmi0_oracle", (Seq(None, F),), cfg), nx, m, con)


def rect(name, n, m):
    return Arr.mk(name, 2, (P(n), P(m)))


def qmi(rep):
    con = Contract(rep)
    for nx, m in sizes():
        n = m + 1 if m < 3 else 2
        F = [rect("F%d" % k, n, m) for k in range(nx)]
        F0 = rect("F0", n, m)
        F0 = rect("C", n, m)
        for k, a in enumerate(F + [F0]):
            pass
        section(rep, "qmi_oracle", semidefinite, rep, "qmi_oracle", lambda xs: qmi_matrix(F, F0, sym("t"), xs, m),
                lambda pr, cfg: construct(rep, pr, "qmi_oracle", (Seq(None, F), F0), cfg), nx, m, con,
                {"t": sym("t")}, lambda pr: pr.one(qn="vw::use_qmi"))


class Only:
    """a report that keeps the obligations of some rules"""

    def __init__(self, rep, rules):
        self.__dict__.update(rep=rep, rules=rules)

    def __getattr__(self, k):
        return getattr(self.rep, k)

    def __setattr__(self, k, v):
        setattr(self.rep, k, v)

    def keep(self, rule):
        return rule in self.rules or rule in ("summary", "analysis")

    def ok(self, rule, *a):
        if self.keep(rule):
            self.rep.ok(rule, *a)

    def und(self, rule, *a):
        if self.keep(rule):
            self.rep.und(rule, *a)

    def bad(self, rule, *a):
        if self.keep(rule):
            self.rep.bad(rule, *a)


def runs(rep, parts, w, tx):
    for st, k in parts:
        if k[0] == "ret":
            yield st, k[1]
        elif k[0] == "oob":
            rep.bad("range", w, tx + str(k[1])[:200])
        else:
            rep.und("summary", w, tx + str(k)[:200])


def target(rep, I, st, w, tx, shrunk, t1, t0, goal, cons):
    """the best-so-far value changes exactly with an announced improvement"""
    if shrunk is FALSE or shrunk.key == FALSE.key:
        equal(rep, I, st, t1, t0, "no-improvement", w, tx + "the target stays when no improvement is announced")
        return
    rep.ok("announced", w, tx + "an improvement is announced on this path")
    for name, c in cons:
        require(rep, I, st, c, "feasible", w, tx + "an improvement satisfies " + name)
    for name, c in goal:
        require(rep, I, st, c, "improved", w, tx + name)


# -- profit maximisation ------------------------------------------------------------

def profit_fns(pA, k, a, v, ys, t):
    cobb = log(pA) + dot(a, ys)
    vx = dot(v, [exp(y) for y in ys])
    te = t + vx
    f1 = Fn("y0 - log k", ys[0] - log(k), [ONE, ZERO])
    f0 = Fn("log(t + v'x) - log(pA x^a)", log(te) - cobb, [v[i] * exp(ys[i]) / te - a[i] for i in range(2)])
    return f1, f0, cobb, vx


def profit_obj(pr, rep, cls, cfg, f=None):
    a, v, e = vec("a", 2), vec("v", 2), vec("e", 2)
    s = [sym(x) for x in ("p", "A", "k")]
    args = s + [a, v] + ([e, sym("e3")] if cls == "profit_rb_oracle" else [])
    return construct(rep, pr, cls, args, cfg)


def profit(rep):
    pr = prog(rep)
    cfg = {"unroll": 12, "positive": ("p", "A", "k", "v", "t")}
    ys, a, v, e, t, e3 = ix("y", 2), ix("a", 2), ix("v", 2), ix("e", 2), sym("t"), sym("e3")
    p, A, k = sym("p"), sym("A"), sym("k")
    for cls in ("profit_oracle", "profit_rb_oracle"):
        obj, st0 = profit_obj(pr, rep, cls, cfg)
        f = op(pr, cls, 2)
        w = "%s::operator():%d" % (cls, f["line"])
        rb = cls != "profit_oracle"
        for when in ("first query", "later query") if rb else ("first query",):
            o = obj
            if when == "later query":
                I, parts, lvs, this = call(rep, pr, f, obj, st0, {f["params"][0]["n"]: vec("z", 2), f["params"][1]["n"]: sym("s")}, cfg)
                o = later(obj, [st.store[this.root] for st, q in parts if q[0] == "ret"])
            I, parts, lvs, this = call(rep, pr, f, o, st0, {f["params"][0]["n"]: vec("y", 2), f["params"][1]["n"]: t}, cfg)
            for st, r in runs(rep, parts, w, cls + ": "):
                tx = "%s, %s: " % (cls, when)
                section(rep, w, one_profit, rep, I, st, r, lvs, w, tx, rb, (p, A, k, a, v, e, e3, t, ys))


def one_profit(rep, I, st, r, lvs, w, tx, rb, syms):
    ys = syms[-1]
    if rb:
        for st, s in splits(I, st, [lt(0, y) for y in ys]):
            one_profit_at(rep, I, st, r, lvs, w, tx, s, syms)
    else:
        one_profit_at(rep, I, st, r, lvs, w, tx, None, syms)


def splits(I, st, conds):
    """the cases of a partition by the truth of some conditions"""
    out = [(st, ())]
    for c in conds:
        nxt = []
        for s, ks in out:
            for b in (True, False):
                s2 = s.clone()
                with At(I, s2):
                    try:
                        x = c if b else b_not(c)
                        k = I.known(x)
                        if k is False:
                            continue
                        if k is None:
                            I.assume(x)
                    except AbortPath:
                        continue
                nxt.append((s2, ks + (b,)))
        out = nxt
    return out


def one_profit_at(rep, I, st, r, lvs, w, tx, s, syms):
    p, A, k, a, v, e, e3, t, ys = syms
    if s is not None:
        a = [a[i] - e[i] if s[i] else a[i] + e[i] for i in range(2)]
        p, k, v = p - e3, k - e3, [x + e3 for x in v]
        tx += "worst case %s: " % "".join("+-"[int(x)] for x in s)
    with At(I, st):
        t1 = I.topoly(I.read(lvs[1]))
    f1, f0, cobb, vx = profit_fns(p * A, k, a, v, ys, t1)
    valid(rep, I, st, w, (comp(r, "0", "0"), comp(r, "0", "1")), [f1, f0], 2, "y", tx)
    old = profit_fns(p * A, k, a, v, ys, t)[1]
    require(rep, I, st, le(0, comp(r, "0", "1")), "cut-side", w, tx + "the cut does not keep the queried point's interior")
    target(rep, I, st, w, tx, comp(r, "1"), t1, t,
           [("the new target is the profit attained", eqv(t1, exp(cobb) - vx)), ("the old target was below it", lt(old.value, 0))],
           [("the quantity limit", le(f1.value, 0))])


def nearest(y):
    x = fun("round", exp(y))
    return x


def profit_q(rep):
    pr = prog(rep)
    cls = "profit_q_oracle"
    cfg = {"unroll": 12, "positive": ("p", "A", "k", "v", "t")}
    ys, a, v, t = ix("y", 2), ix("a", 2), ix("v", 2), sym("t")
    p, A, k = sym("p"), sym("A"), sym("k")
    obj, st0 = construct(rep, pr, cls, [p, A, k, vec("a", 2), vec("v", 2)], cfg)
    f = op(pr, cls, 3)
    w = "%s::operator():%d" % (cls, f["line"])
    yd_field = [n for n, x in obj.fields.items() if isinstance(x, Arr) or not isinstance(x, (Struct, Poly, Bool))]
    for retry in (False, True):
        o = obj
        if retry:
            # a retry follows a query: whatever point that one left behind
            n = [f["params"][i]["n"] for i in range(3)]
            I, parts, lvs, this = call(rep, pr, f, obj, st0, {n[0]: vec("z", 2), n[1]: sym("s"), n[2]: FALSE}, cfg)
            o = later(obj, [st.store[this.root] for st, q in parts if q[0] == "ret"])
        I, parts, lvs, this = call(rep, pr, f, o, st0, {f["params"][0]["n"]: vec("y", 2), f["params"][1]["n"]: t,
                                                       f["params"][2]["n"]: TRUE if retry else FALSE}, cfg)
        for st, r in runs(rep, parts, w, cls + ": "):
            tx = "%s, %s: " % (cls, "retry" if retry else "first try")
            section(rep, w, one_profit_q, rep, I, st, r, lvs, w, tx, retry, (p, A, k, a, v, t, ys))


def one_profit_q(rep, I, st, r, lvs, w, tx, retry, syms):
    if retry:
        one_profit_q_at(rep, I, st, r, lvs, w, tx, None, syms)
        return
    for st, zs in splits(I, st, [eqv(nearest(y), 0) for y in syms[-1]]):
        one_profit_q_at(rep, I, st, r, lvs, w, tx, zs, syms)


def one_profit_q_at(rep, I, st, r, lvs, w, tx, zs, syms):
    retry = zs is None
    p, A, k, a, v, t, ys = syms
    yd = comp(r, "1")
    ds = [elem(I, st, yd, i) for i in range(2)]
    if not retry:
        for i in range(2):
            x = nearest(ys[i])
            with At(I, st) as J:
                void = [q for q in atoms_of(ds[i]) if q.kind == "log" and J.known(eqv(q.args[0], 0)) is True]
            if void:
                never(rep, I, st, "rounding", w, tx + "quantity %d is rounded to zero, which has no logarithm" % i)
                continue
            equal(rep, I, st, ds[i], log(ONE if zs[i] else x), "rounding", w, tx + "quantity %d is the nearest positive integer" % i)
    else:
        for i in range(2):
            equal(rep, I, st, ds[i], sel("old._yd", (P(i),)), "rounding", w, tx + "a retry keeps the rounded point")
    equal(rep, I, st, comp(r, "3"), FALSE if retry else TRUE, "retry", w, tx + "one retry is offered")
    with At(I, st):
        t1 = I.topoly(I.read(lvs[1]))
    f1, f0, cobb, vx = profit_fns(p * A, k, a, v, ds, t1)
    old = profit_fns(p * A, k, a, v, ds, t)[1]
    g = [elem(I, st, comp(r, "0", "0"), i) for i in range(2)]
    beta = comp(r, "0", "1")
    shift = dot(g, [ys[i] - ds[i] for i in range(2)])

    def moved(fn, sign):
        return Fn(fn.name, fn.value + sign * dot(fn.grad, [ys[i] - ds[i] for i in range(2)]), fn.grad)
    right, wrong = [moved(x, 1) for x in (f1, f0)], [moved(x, -1) for x in (f1, f0)]

    def fits(x):
        return peq(beta, x.value) and all(peq(g[i], x.grad[i]) for i in range(2))
    if not any(fits(x) for x in right) and any(fits(x) for x in wrong):
        rep.bad("offset-sign", w, tx + "the cut at the rounded point d is rewritten around the queried point y as F(d) + g'(d - y) instead of F(d) + g'(y - d)")
    else:
        valid(rep, I, st, w, (comp(r, "0", "0"), beta), right, 2, "y", tx)
    target(rep, I, st, w, tx, comp(r, "2"), t1, t,
           [("the new target is the profit attained at the rounded point", eqv(t1, exp(cobb) - vx)), ("the old target was below it", lt(old.value, 0))],
           [("the quantity limit", le(f1.value, 0))])


# -- filter design --------------------------------------------------------------------

class Band:
    def __init__(self, name, n, nx):
        self.n, self.nx = n, nx
        self.arr = Arr.mk(name, 2, (P(n), P(nx)))
        self.name = name

    def row(self, k):
        return [sel(self.name, (P(k), P(i))) for i in range(self.nx)]


def lowpass(rep):
    sizes = [(2, 2, 2), (1, 1, 1), (3, 1, 2), (1, 3, 1), (2, 1, 0)]
    if harness.TIER == "thorough":
        sizes += [(4, 2, 1), (1, 4, 2), (2, 2, 4), (3, 3, 3)]
    for s in sizes:
        section(rep, "lowpass_oracle", filt, rep, s, 2)


def filt(rep, s, nx):
    pr = prog(rep)
    cls = "lowpass_oracle"
    cfg = {"unroll": 12, "bounds": True, "wrap": True, "positive": ("L", "U", "T")}
    bands = [Band(n, k, nx) for n, k in zip(("Ap", "As", "An"), s)]
    L, U, T = sym("L"), sym("U"), sym("T")
    obj, st0 = construct(rep, pr, cls, [b.arr for b in bands] + [L, U], cfg)
    f = op(pr, cls, 2)
    w = "%s::operator():%d" % (cls, f["line"])
    args = {f["params"][0]["n"]: vec("x", nx), f["params"][1]["n"]: T}
    # reachable cursor states: closure of the initial one under a call
    seen, todo, hits = {}, [obj], []
    while todo:
        o = todo.pop()
        key = vkey(o)
        if key in seen:
            continue
        if len(seen) > 200:
            raise Undecided("scan positions do not repeat")
        seen[key] = o
        tx = "bands of %d/%d/%d samples, scan state %s: " % (s + (tuple(str(o.fields[c]) for c in cursors_of(obj, o)),))
        I, parts, lvs, this = call(rep, pr, f, o, st0, args, cfg, pre=(le(0, L), lt(L, U)))
        for st, r in runs(rep, parts, w, tx):
            o1 = st.store[this.root]
            if vkey(o1) not in seen:
                todo.append(o1)
            section(rep, w, one_filter, rep, I, st, r, lvs, o, o1, w, tx, bands, (L, U, T), nx, hits)
    for b in bands[:2] + bands[2:]:
        section(rep, w, resume, rep, b, [h for h in hits if h[0] is b], w, bands, (L, U, T), ix("x", nx),
                [h for h in hits if h[0] is not b])


def cursors_of(obj, o):
    return [k for k, v in obj.fields.items() if isinstance(v, Poly) and v.const() is not None]


def one_filter(rep, I, st, r, lvs, o0, o1, w, tx, bands, syms, nx, hits):
    L, U, T = syms
    xs = ix("x", nx)
    ap, as_, an = bands
    g, f = comp(r, "0", "0"), comp(r, "0", "1")
    if not isinstance(f, Arr) or f.rank != 1 or f.shape[0].const() not in (1, 2):
        raise Undecided("offsets of the cut")
    gs = [elem(I, st, g, i) for i in range(nx)]
    b = [elem(I, st, f, i) for i in range(int(f.shape[0].const()))]
    with At(I, st):
        t1 = I.topoly(I.read(lvs[1]))
    shrunk = comp(r, "1")
    # candidates: upper <= 0 is violated side, lower >= 0 the opposite one (None: there is none)
    cands = [("x0 >= 0", [-ONE] + [ZERO] * (nx - 1), -xs[0], None, None)]
    for bd, up, lo, nm in ((ap, U, L, "passband"), (as_, T, ZERO, "stopband"), (an, None, ZERO, "outside the bands")):
        for k in range(bd.n):
            v = dot(bd.row(k), xs)
            row = bd.row(k)
            if up is not None:
                cands.append(("%s sample %d below its bound" % (nm, k), row, v - up, v - lo, (bd, k)))
            cands.append(("%s sample %d above its bound" % (nm, k), [-y for y in row], lo - v, None if up is None else up - v, (bd, k)))
    for k in range(as_.n):
        v = dot(as_.row(k), xs)
        cands.append(("objective sample %d" % k, as_.row(k), v - t1, v, (as_, k)))

    def fits(c):
        return all(peq(x, y) for x, y in zip(gs, c[1])) and peq(b[0], c[2]) and (len(b) < 2 or c[3] is not None and peq(b[1], c[3]))
    hit = next((c for c in cands if fits(c)), None)
    if hit:
        rep.ok("valid-cut", w, tx + hit[0])
    else:
        def score(c):
            return sum(bool(peq(x, y)) for x, y in zip(gs, c[1])) + 2 * bool(peq(b[0], c[2])) + bool(c[3] is not None and peq(b[-1], c[3]))
        c = max(cands, key=score)
        if len(b) == 2 and c[3] is None:
            rep.bad("valid-cut", w, tx + "two-sided cut for the one-sided constraint %s" % c[0])
        for i in range(nx):
            equal(rep, I, st, gs[i], c[1][i], "valid-cut", w, tx + "component %d is the derivative of %s" % (i, c[0]))
        equal(rep, I, st, b[0], c[2], "valid-cut", w, tx + "offset is the value of %s" % c[0])
        if len(b) == 2 and c[3] is not None:
            equal(rep, I, st, b[1], c[3], "valid-cut", w, tx + "second offset is the distance to the other bound of %s" % c[0])
    improving = shrunk.key == TRUE.key
    if not improving:
        require(rep, I, st, lt(0, b[0]), "cut-side", w, tx + "a constraint that holds is not cut")
    feas = [("x0 >= 0", le(0, xs[0]))]
    for bd, up, lo, nm in ((ap, U, L, "passband"), (as_, T, ZERO, "stopband"), (an, None, ZERO, "outside the bands")):
        for k in range(bd.n):
            v = dot(bd.row(k), xs)
            feas.append(("%s sample %d" % (nm, k), b_and(le(lo, v), le(v, up)) if up is not None else le(lo, v)))
    vs = [dot(as_.row(k), xs) for k in range(as_.n)]
    reached = FALSE
    for v in vs:
        reached = b_or(reached, eqv(t1, v))
    goal = [("the new target is a stopband sample's value", reached), ("the target does not get worse", le(t1, T))]
    goal += [("the new target bounds stopband sample %d" % k, le(v, t1)) for k, v in enumerate(vs)]
    target(rep, I, st, w, tx, shrunk, t1, T, goal, feas)
    # the scans: a violated sample is the first one after the scan's position,
    # and the scan resumes after it
    if improving:
        for name, c in feas:
            require(rep, I, st, c, "every-sample", w, tx + "accepted with %s unchecked" % name)
    if hit and hit[4] and not improving:
        hits.append((hit[4][0], hit[4][1], o0, o1, I, st))
    elif hit:
        hits.append((None, "accepted" if improving else hit[0], o0, o1, I, st))


def resume(rep, bd, hits, w, bands, syms, xs, others):
    """a violated sample is the first one after the position the previous
    violated one of its band left"""
    L, U, T = syms
    if not hits:
        return
    after = lambda k: (k + 1, 0) if k + 1 == bd.n else (k + 1,)

    def agrees(c, h):
        p = h[3].fields.get(c)
        return isinstance(p, Poly) and p.const() is not None and int(p.const()) in after(h[1])
    cs = cursors_of(hits[0][2], hits[0][2])
    if not cs:
        raise Undecided("no scan position of band " + bd.name)
    c = max(cs, key=lambda c: (sum(agrees(c, h) for h in hits), sum(vkey(h[2].fields[c]) != vkey(h[3].fields[c]) for h in hits)))
    for b_, k, o0, o1, I, st in others:
        p, q = o0.fields[c], o1.fields.get(c)
        if not isinstance(q, Poly) or q.const() is None or (p.const() - q.const()) % bd.n:
            rep.bad("resume", w, "band %s of %d samples, scan at %s: no sample of the band is violated (%s) but its next scan starts at %s"
                    % (bd.name, bd.n, p, k if b_ is None else "band %s, sample %d" % (b_.name, k), q))
            break
    else:
        rep.ok("resume", w, "band %s: only a violated sample moves its scan position" % bd.name)
    up, lo = {"Ap": (U, L), "As": (T, ZERO), "An": (None, ZERO)}[bd.name]
    for b_, k, o0, o1, I, st in hits:
        p0 = o0.fields[c].const()
        tx = "band %s of %d samples, scan at %s: " % (bd.name, bd.n, p0)
        if agrees(c, (b_, k, o0, o1)):
            rep.ok("resume", w, tx + "resumes after the violated sample %d" % k)
        else:
            rep.bad("resume", w, tx + "sample %d is violated but the next scan starts at %s" % (k, o1.fields[c]))
        if p0 is None or not 0 <= p0 <= bd.n:
            rep.bad("resume", w, tx + "scan position out of the band")
            continue
        j = int(p0) % bd.n
        while j != k:
            v = dot(bd.row(j), xs)
            require(rep, I, st, b_and(le(lo, v), le(v, up)) if up is not None else le(lo, v), "in-order", w,
                    tx + "sample %d is examined before sample %d" % (j, k))
            j = (j + 1) % bd.n


# -- correlation fitting ------------------------------------------------------------------

def classes_of(pr, cls):
    return [f for f in pr.fns.values() if f.get("cls") == cls]


def ldlt_by_tag(o):
    return dict(ldlts(o))


def lsq(rep):
    con = Contract(rep)
    for np, m in ((1, 2), (2, 2)) if harness.TIER != "thorough" else ((1, 2), (2, 2), (1, 3), (3, 2)):
        section(rep, "lsq_oracle", optimising, rep, "lsq_oracle", con, np, m)


def mle(rep):
    con = Contract(rep)
    for np, m in ((1, 2), (2, 2), (2, 1)) if harness.TIER != "thorough" else ((1, 2), (2, 2), (2, 1), (3, 2)):
        section(rep, "mle_oracle", optimising, rep, "mle_oracle", con, np, m)


def optimising(rep, cls, con, np, m):
    pr = prog(rep)
    cfg = {"unroll": 40, "intrinsics": con.table()}
    F = [symm("F%d" % k, m) for k in range(np)]
    Y = symm("Y", m)
    obj, st0 = construct(rep, pr, cls, (Seq(None, F), Y), cfg)
    nx = np + 1 if cls == "lsq_oracle" else np
    f = op(pr, cls, 2)
    w = "%s::operator():%d" % (cls, f["line"])
    args = {f["params"][0]["n"]: vec("x", nx), f["params"][1]["n"]: sym("t")}
    I, parts, lvs, this = call(rep, pr, f, obj, st0, args, cfg)
    o1 = [st.store[this.root] for st, k in parts if k[0] == "ret"]
    for when, o in (("first query", obj), ("later query", later(obj, o1))):
        I, parts, lvs, this = call(rep, pr, f, o, st0, args, cfg)
        tx = "%s, %s, %d variables, dimension %d: " % (cls, when, nx, m)
        for st, r in runs(rep, parts, w, tx):
            section(rep, w, one_lsq if cls == "lsq_oracle" else one_mle, rep, I, st, r, lvs, st.store[this.root], o, w, tx, F, Y, np, m)


def factored(rep, I, st, o, o0, specs, w, tx):
    """{name: (tag, stop)} of the matrices factorised in this call"""
    out = {}
    for tag, q in ldlts(o):
        A = q.fields.get("#A")
        if A is None or "#stop" not in q.fields:
            continue
        stop = int(q.fields["#stop"].const())
        for name, spec in specs.items():
            if all(peq(a, spec(*(int(c) for c in key.split(",")))) for key, a in A.fields.items()):
                out[name] = (tag, stop)
                break
        else:
            # blame the constraint this object stands for when it succeeds
            out.setdefault("?", []).append((tag, q))
    return out


def one_lsq(rep, I, st, r, lvs, o, o0, w, tx, F, Y, np, m):
    xs = ix("x", np + 1)
    t = sym("t")
    specs = {"Sigma(p) >= 0": lmi_value(F, None, xs[:np], 0, [])[0],
             "(Sigma(p) - Y)^2 <= s": qmi_matrix(F, Y, xs[np], xs[:np], m)}
    fns = [Fn("s - t", xs[np] - t, [ZERO] * np + [ONE])]
    finish_oracle(rep, I, st, r, lvs, o, o0, w, tx, specs, fns, np + 1, m, lambda t1: [Fn("s - t'", xs[np] - t1, [ZERO] * np + [ONE])], xs[np])


def finish_oracle(rep, I, st, r, lvs, o, o0, w, tx, specs, fns, nx, m, obj_at, value):
    t = sym("t")
    fac = factored(rep, I, st, o, o0, specs, w, tx)
    if "?" in fac:
        for tag, q in fac["?"]:
            # compare with the constraint not otherwise factorised
            left = [n for n in specs if n not in fac] or list(specs)
            for key, a in q.fields["#A"].fields.items():
                i, j = (int(c) for c in key.split(","))
                equal(rep, I, st, a, specs[left[0]](i, j), "matrix", w, tx + "entry (%d,%d) of %s" % (i, j, left[0]))
        return
    fns = list(fns)
    failed = [(n, s) for n, s in fac.items() if s[1]]
    for name, (tag, stop) in failed:
        v = [sym("%s.v%d" % (tag, i)) for i in range(stop)]
        fns.append(Fn(name, -sum((v[i] * v[j] * specs[name](i, j) for i in range(stop) for j in range(stop)), ZERO)))
    with At(I, st):
        t1 = I.topoly(I.read(lvs[1]))
    shrunk = comp(r, "1")
    improving = shrunk.key == TRUE.key
    cut = (comp(r, "0", "0"), comp(r, "0", "1"))
    valid(rep, I, st, w, cut, (obj_at(t1) if improving else []) + fns, nx, "x", tx)
    if not improving:
        require(rep, I, st, le(0, cut[1]), "cut-side", w, tx + "a constraint that holds is not cut")
    cons = []
    for name in specs:
        cons.append((name, TRUE if name in fac and not fac[name][1] else FALSE))
    target(rep, I, st, w, tx, shrunk, t1, t, [("the new target is the objective attained", eqv(t1, value)),
                                              ("the target does not get worse", le(t1, t))], cons)


def one_mle(rep, I, st, r, lvs, o, o0, w, tx, F, Y, np, m):
    xs = ix("x", np)
    t = sym("t")
    B = Arr(2, Y.shape, lambda idx, c: 2 * Y.fn(idx, c), "2Y")
    specs = {"Sigma(p) <= 2Y": lmi_value(F, B, xs, 0, [])[0], "Sigma(p) >= 0": lmi_value(F, None, xs, 0, [])[0]}
    # S = inverse of Sigma = R'R
    tag = factored(rep, I, st, o, o0, specs, w, tx).get("Sigma(p) >= 0", ("none", 0))[0]
    R = [[sym("%s.R%d%d" % (tag, i, j)) if i <= j else ZERO for j in range(m)] for i in range(m)]
    inv = I.intr.inverse(Arr(2, (P(m), P(m)), lambda ix_, c: R[int(ix_[0].const())][int(ix_[1].const())], "R"))
    V = [[at(inv, i, j) for j in range(m)] for i in range(m)]
    S = [[sum((V[i][k] * V[j][k] for k in range(m)), ZERO) for j in range(m)] for i in range(m)]
    Ym = [[at(Y, i, j) for j in range(m)] for i in range(m)]

    def mul(a, b):
        return [[sum((a[i][k] * b[k][j] for k in range(m)), ZERO) for j in range(m)] for i in range(m)]

    def tr(a):
        return sum((a[i][i] for i in range(m)), ZERO)
    SY = mul(S, Ym)
    val = 2 * sum((log(R[i][i]) for i in range(m)), ZERO) + tr(SY)
    g = []
    for k in range(np):
        SF = mul(S, [[at(F[k], i, j) for j in range(m)] for i in range(m)])
        g.append(tr(SF) - tr(mul(SF, SY)))
    finish_oracle(rep, I, st, r, lvs, o, o0, w, tx, specs, [Fn("log det Sigma + tr(Y/Sigma) - t", val - t, g)], np, m,
                  lambda t1: [Fn("log det Sigma + tr(Y/Sigma) - t'", val - t1, g)], val)


P12 = ("valid-cut", "verdict", "matrix", "offset-sign", "rounding", "retry", "cut-side")
P19 = ("range", "every-sample", "resume", "in-order")
P20 = ("no-improvement", "announced", "feasible", "improved")


def p12(rep):
    rep = Only(rep, P12)
    section(rep, "linear matrix inequalities", lmis, rep)
    section(rep, "quadratic matrix inequality", qmi, rep)
    section(rep, "profit", profit, rep)
    section(rep, "profit, integer quantities", profit_q, rep)
    section(rep, "filter", lowpass, rep)
    section(rep, "least squares", lsq, rep)
    section(rep, "maximum likelihood", mle, rep)
    section(rep, "networks", network.oracles, rep)


def p20(rep):
    rep = Only(rep, P20)
    section(rep, "profit", profit, rep)
    section(rep, "profit, integer quantities", profit_q, rep)
    section(rep, "filter", lowpass, rep)
    section(rep, "least squares", lsq, rep)
    section(rep, "maximum likelihood", mle, rep)
    section(rep, "networks", network.oracles, rep)


def p19(rep):
    section(rep, "filter", lowpass, Only(rep, P19))

"""Ellipsoid search space: constructor, cut update (deep / central / parallel),
failure atomicity and symmetry."""
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, fun, Poly, eq as peq, Undecided, sel, sum_over, atom, fresh, sqrt as psqrt, inv, clear, norm_scale, mono_gcd, _mkmono
from engine.values import *
from engine.resolve import Resolver
from engine import concrete

UNITS = ["lib/src/ell.cpp", "lib/src/ell_stable.cpp"]
SUCCESS, NOSOLN, SMALL, NOEFF = 0, 1, 2, 3
N = sym("n")
ARRT = "R:xt::xarray_container"


def prog(rep):
    pr = frontend.load(UNITS)
    rep.use(pr)
    aff.INT.add("n")
    return pr


def arr1(name, N=N):
    return Arr.mk(name, 1, (N,))


class Space:
    """an object of class cls in an arbitrary reachable state: built by the
    public constructor, then every field update may change is replaced by an
    unconstrained symbol (the ellipsoid matrix by a symmetric one).  The roles
    of the fields are found from what the constructor stores in them."""

    def __init__(self, pr, cls, rep, N=N):
        self.pr, self.cls, self.rep, self.N = pr, cls, rep, N
        cts = [f for f in pr.fns.values() if f.get("cls") == cls and f["name"] == cls
               and [p["t"] for p in f["params"]] == ["f64", ARRT]]
        if len(cts) != 1:
            raise Broken("constructor %s(double, Arr): %d" % (cls, len(cts)))
        self.ctor = cts[0]
        ps = [p["n"] for p in self.ctor["params"]]
        self.cfg = {} if N.const() else {"assume_ge": [N - 2]}
        if N.const():
            self.cfg.update(unroll=40, bounds=True)
        obj = Struct(cls, None)
        self.I, parts, _, this = analyse(pr, self.ctor, self.cfg, this="R:" + cls, rep=rep,
                                         args={ps[0]: sym("alpha"), ps[1]: arr1("x0", N)},
                                         setup=lambda I, l, t: I.st.store.__setitem__(t.root, Struct(cls, None)))
        good = [(s, k) for s, k in parts if k[0] == "ret"]
        if len(good) != 1 or len(parts) != 1:
            raise Undecided("constructor of %s: %s" % (cls, [k for _, k in parts]))
        self.st0 = good[0][0]
        self.obj0 = self.st0.store[this.root]
        self.roles = {}
        for k, v in self.obj0.fields.items():
            if isinstance(v, Poly) and v.key == sym("alpha").key:
                self.roles.setdefault("kappa", []).append(k)
            if isinstance(v, Arr) and v.rank == 1:
                self.roles.setdefault("xc", []).append(k)
            if isinstance(v, Arr) and v.rank == 2:
                self.roles.setdefault("Q", []).append(k)
        if "kappa" not in self.roles:
            self.roles["kappa"] = [k for k in self.obj0.fields if "kappa" in k]
        for r in ("kappa", "xc", "Q"):
            if len(self.roles.get(r, ())) != 1:
                raise Undecided("state of %s: role %s held by %s" % (cls, r, self.roles.get(r)))
        self.kappa, self.xc, self.Q = (self.roles[r][0] for r in ("kappa", "xc", "Q"))
        self.flags = {}
        for fl in ("use_parallel_cut", "no_defer_trick"):
            if fl not in self.obj0.fields:
                raise Broken("public option %s of %s" % (fl, cls))

    def generic(self, scratch=()):
        o = Struct(self.cls, None, self.obj0.fields)
        N = self.N
        o = o.set(self.kappa, sym("kappa")).set(self.xc, arr1("xc", N)).set(self.Q, Arr.mk("Q", 2, (N, N)))
        for fl in ("use_parallel_cut", "no_defer_trick"):
            o = o.set(fl, ne(sym("b?" + fl), 0))
        for s in scratch:
            if isinstance(o.fields[s], Poly):
                o = o.set(s, sym("stale." + s))
        return o

    def updates(self):
        """the two instances of update: deep cut and parallel cut"""
        us = [f for f in self.pr.fns.values() if f["name"] == "update" and f.get("cls") == self.cls]
        deep = [f for f in us if f.get("targs") == "double"]
        par = [f for f in us if (f.get("targs") or "").startswith("xt::xarray_container")]
        if len(deep) != 1 or len(par) != 1:
            raise Broken("%s::update: %d deep, %d parallel instances" % (self.cls, len(deep), len(par)))
        return deep[0], par[0]

    def cut(self, kind):
        b = sym("beta") if kind == "deep" else Arr.mk("b", 1, (sym("m"),))
        return Struct("std::tuple", None, {"0": arr1("g", self.N), "1": b})

    def run(self, f, kind):
        """analyse one update instance on the generic state"""
        aff.INT.add("m")
        p = f["params"][0]["n"]
        cfg = dict(self.cfg)
        cfg["assume_ge"] = cfg.get("assume_ge", []) + [sym("m") - 1]
        cfg["positive"] = ("kappa", "n", "omega")
        scratch = ()
        for _ in range(2):
            def setup(I, lvs, this):
                I.st.store[this.root] = self.generic(scratch)
                self.assume(I)
            I, parts, lvs, this = analyse(self.pr, f, cfg, this="R:" + self.cls, setup=setup, args={p: self.cut(kind)})
            wr = set()
            for st, k in parts:
                for w in st.writes:
                    if w.root == this.root and w.path and w.path[0][0] == "f":
                        wr.add(w.path[0][1])
            new = tuple(sorted(wr - {self.kappa, self.xc, self.Q}))
            if new == scratch:
                break
            scratch = new
        self.rep.merge(I)
        return I, parts, this

    def assume(self, I):
        om = self.omega()
        I.st.gt.append(om)
        I.st.gt.append(psqrt(sym("kappa") * om))

    def Qg(self, i):
        k = atom("s", fresh("k"))
        return sum_over(k, ZERO, self.N, sel("Q", (P(i), P(k))) * sel("g", (P(k),)))

    def omega(self):
        k = atom("s", fresh("k"))
        return sum_over(k, ZERO, self.N, sel("g", (P(k),)) * self.Qg(P(k)))


def deep_cases(N, tau, b):
    c1 = N * N / (N * N - 1)
    ga = tau + N * b
    return [
        ("beta > tau", [lt(tau, b)], NOSOLN, None),
        ("tau + n beta < 0", [le(b, tau), lt(ga, 0)], NOEFF, None),
        ("deep cut", [le(b, tau), le(0, ga)], SUCCESS,
         (ga / (N + 1), P(2) * ga / ((N + 1) * (tau + b)), c1 * (ONE - b * b / (tau * tau)))),
    ]


def parallel_cases(N, tau, tsq, b0, b1, flag, m):
    c1 = N * N / (N * N - 1)
    out = []
    for name, cs, s, co in deep_cases(N, tau, b0):
        out.append(("single cut: " + name, [lt(m, 2)] + cs, s, co))
        out.append(("parallel cuts disabled: " + name, [le(2, m), b_not(flag)] + cs, s, co))
        out.append(("second cut outside: " + name, [le(2, m), flag, lt(tsq, b1 * b1)] + cs, s, co))
    pre = [le(2, m), flag, le(b1 * b1, tsq)]
    a0, a1 = ONE - b0 * b0 / tsq, ONE - b1 * b1 / tsq
    t = N * (b1 * b1 - b0 * b0) / (tsq * 2)
    xi = psqrt(a0 * a1 + t * t)
    # (the textbook form divides by (b0 + b1)^2; this one is equal and also
    # covers cuts placed symmetrically about the centre)
    sg = N / (N + 1) + P(2) * (ONE - N * N * (b1 - b0) * (b1 - b0) / tsq / 4) / (ONE + b0 * b1 / tsq + xi) / (N + 1)
    out.append(("crossed cuts", pre + [lt(b1, b0)], NOSOLN, None))
    out.append(("parallel pair without effect", pre + [le(b0, b1), lt(ONE + N * b0 * b1 / tsq, 0)], NOEFF, None))
    out.append(("parallel cut", pre + [le(b0, b1), le(0, ONE + N * b0 * b1 / tsq)], SUCCESS,
                (sg * (b0 + b1) / 2, sg, c1 * ((a0 + a1) / 2 + xi / N))))
    return out


def symm(p):
    """reading Q as a symmetric array"""
    mp = {}
    for a in atoms_of(p):
        if a.kind == "sel" and a.args[0] == "Q" and len(a.args[1]) == 2 and a.args[1][0].key > a.args[1][1].key:
            mp[a] = sel("Q", (a.args[1][1], a.args[1][0]))
    return subst(p, mp) if mp else p


def denominators(p, out=None):
    """what the expression divides by"""
    out = {} if out is None else out
    for m in P(p).t:
        for a, e in m:
            if e < 0:
                d = a.args[0] if a.kind == "poly" else P(a)
                out[d.key] = d
            if a.kind in ("poly", "sqrt"):
                denominators(a.args[0], out)
    return out


class Upd:
    def finite(self, st, val, what, good, done, gt=()):
        """an accepted cut never divides by zero"""
        n, tsq = self.sp.N, sym("kappa") * self.sp.omega()
        defs, lemma = getattr(self.sp, "coeffs", {}), None
        with At(self.I, st):
            known = dict(self.I.solved())

        def core(p):
            p = clear(subst(subst(p, defs), known))
            return norm_scale(p * Poly({_mkmono({a: -e for a, e in mono_gcd(p).items() if a.args[0] in ("kappa", "omega")}): 1}))[0].key
        for k, d in denominators(val).items():
            for name, conds, _ in good:
                if (k, name) in done:
                    continue
                done.add((k, name))
                if gt and lemma is None:
                    lemma = [core(x) for x in gt]
                if gt and core(d) in lemma:
                    self.rep.ok("finite", self.where, name + ": %s is a number" % what)
                    continue
                s = st.clone()
                # consequences of n >= 2 and of the conditions of the case that
                # the domain does not derive (products of unknowns)
                s.gt += [n * n - 1, n + 1, *gt]
                s.ge += [tsq * P(a) for a in atoms_of(d) if a.kind == "sqrt"]
                if self.kind == "deep":
                    s.gt.append(psqrt(tsq) + sym("beta"))
                else:
                    b0, b1 = sel("b", (ZERO,)), sel("b", (ONE,))
                    s.gt.append(tsq + b0 * b1 if "parallel cut" == name else psqrt(tsq) + b0)
                require(self.rep, self.I, s, ne(d, 0), "finite", self.where, name + ": %s is a number" % what, conds + [le(2, n)])

    def __init__(self, rep, sp, f, kind, rules):
        self.rep, self.sp, self.kind, self.rules = rep, sp, kind, rules
        self.where = "%s::update<%s>:%d" % (sp.cls, kind, f["line"])
        concrete.SYMMETRIC.add("Q")
        self.I, self.parts, self.this = sp.run(f, kind)
        for st, k in self.parts:
            if k[0] == "oob":
                never(rep, self.I, st, "index", self.where, "every element used lies in its array: " + k[1].rsplit(" in ", 1)[0])
                continue
            if k[0] != "ret":
                rep.und("summary", self.where, "partition not summarised: %s" % (k[1:],))
                continue
            try:
                self.part(st, k[1])
            except Undecided as e:
                rep.und("summary", self.where, str(e))

    def field(self, st, name):
        return st.store[self.this.root].fields[name]

    def part(self, st, res):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        status, tsq = fld(res, "0"), fld(res, "1")
        om = sp.omega()
        t2 = sym("kappa") * om
        tau = psqrt(t2)
        if "P11" in self.rules:
            equal(rep, I, st, tsq, t2, "size-measure", w, "returned size measure is kappa * g'Qg")
        if self.kind == "deep":
            cases = deep_cases(sp.N, tau, sym("beta"))
        else:
            cases = parallel_cases(sp.N, tau, t2, sel("b", (ZERO,)), sel("b", (ONE,)), ne(sym("b?use_parallel_cut"), 0), sym("m"))
        good = []
        for name, conds, want, co in cases:
            if not self.feasible(st, conds):
                continue
            if "P11" in self.rules:
                equal(rep, I, st, status, P(want), "status", w, name + ": status", conds)
            if want == SUCCESS and co is not None:
                good.append((name, conds, co))
        if "P08" in self.rules and good:
            self.success(st, good, om)
        if "P07" in self.rules:
            self.atomic(st, status)

    def feasible(self, st, conds):
        with At(self.I, st) as I:
            try:
                for c in conds:
                    if I.known(c) is False:
                        return False
                    if I.known(c) is None:
                        I.assume(c)
            except AbortPath:
                return False
        return True

    def resolved(self, st, fn):
        """[(partition, value)] of an element expression, splitting where the
        reaching write depends on the element"""
        I = self.I

        def go():
            return ("ret", fn(Resolver(I)))
        out = []
        for s, k in I.enumerate(st, go, top=True):
            if k[0] == "undecided":
                raise Undecided(k[1])
            out.append((s, k[1]))
        return out

    def elem_state(self, st, *ix):
        s = st.clone()
        for i in ix:
            aff.INT.add(i.as_atom().args[0])
            s.ge += [i, self.sp.N - 1 - i]
        return s

    def success(self, st, good, om):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        i, j = sym("i"), sym("j")
        xa = self.field(st, sp.xc)
        done = set()
        self.finite(st, self.field(st, sp.kappa), "the scale", good, done)
        for s, v in self.resolved(self.elem_state(st, i), lambda R: R.value(xa.elem((i,), I))):
            self.finite(s, v, "the centre", good, done)
            for name, conds, (rho, sigma, delta) in good:
                equal(rep, I, s, symm(v), symm(sel("xc", (i,)) - rho / om * sp.Qg(i)), "centre", w,
                      name + ": centre moves by -rho/omega Qg", conds)
        self.shape(st, good, om, done)

    def shape(self, st, good, om, done):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        i, j = sym("i"), sym("j")
        Qa, ka = self.field(st, sp.Q), self.field(st, sp.kappa)
        for s, v in self.resolved(self.elem_state(st, i, j), lambda R: R.value(Qa.elem((i, j), I))):
            self.finite(s, v, "the shape", good, done)
            for name, conds, (rho, sigma, delta) in good:
                want = sym("kappa") * delta * (sel("Q", (i, j)) - sigma / om * sp.Qg(i) * sp.Qg(j))
                equal(rep, I, s, symm(v * ka), symm(want), "shape", w,
                      name + ": kappa' Q' = delta kappa (Q - sigma/omega Qg Qg')", conds)

    def atomic(self, st, status):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        cond = ne(status, SUCCESS)
        with At(I, st):
            if I.known(cond) is False:
                return
        i, j = sym("i"), sym("j")
        for s, v in self.resolved(self.elem_state(st, i), lambda R: R.value(self.field(st, sp.xc).elem((i,), I))):
            equal(rep, I, s, v, sel("xc", (i,)), "atomic-centre", w, "a rejected cut leaves the centre", [cond])
        equal(rep, I, st, self.field(st, sp.kappa), sym("kappa"), "atomic-kappa", w, "a rejected cut leaves the scale", [cond])
        self.atomic_shape(st, cond)

    def atomic_shape(self, st, cond):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        i, j = sym("i"), sym("j")
        for s, v in self.resolved(self.elem_state(st, i, j), lambda R: R.value(self.field(st, sp.Q).elem((i, j), I))):
            equal(rep, I, s, v, sel("Q", (i, j)), "atomic-shape", w, "a rejected cut leaves the shape matrix", [cond])


def fld(v, name):
    if isinstance(v, Struct) and name in v.fields:
        return v.fields[name]
    raise Undecided("result component " + name)


def show_defect(rule):
    return {"stable-centre": "the value of a back substitution with the row below",
            "stable-factor": "the value of an update with the scratch product instead of the residual"}[rule]


class FactorSpace(Space):
    """the ellipsoid kept as a factorisation: upper triangle = unit factor,
    diagonal = inverse pivots; the lower triangle is scratch"""

    def invL(self, g, Q):
        n = int(self.N.const())
        v = []
        for i in range(n):
            v.append(g(i) - sum((Q(j, i) * v[j] for j in range(i)), ZERO))
        return v

    def apply(self, g, Q):
        """P g for the represented matrix"""
        n = int(self.N.const())
        v = self.invL(g, Q)
        y = [ZERO] * n
        for i in reversed(range(n)):
            y[i] = Q(i, i) * v[i] - sum((Q(i, j) * y[j] for j in range(i + 1, n)), ZERO)
        return y

    def matrix(self, Q):
        n = int(self.N.const())
        cols = [self.apply(lambda i, j=j: ONE if i == j else ZERO, Q) for j in range(n)]
        return lambda i, j: cols[j][i]

    def __init__(self, pr, cls, rep, N, zeros=None):
        """zeros: the gradient is written as L v for the unit factor L (this
        covers every gradient); the components of v listed are zero, the others
        are not"""
        Space.__init__(self, pr, cls, rep, N)
        self.zeros = zeros
        w, om = sym("omega"), self.omega0()
        self.cfg["abbr"] = {om.key: w, (sym("kappa") * om).key: sym("kappa") * w}
        self.cfg["defs"] = {w.as_atom(): om}
        self.coeffs = {}
        tau = psqrt(sym("kappa") * w)
        b0, b1 = sel("b", (ZERO,)), sel("b", (ONE,))
        # named coefficients of the deep and parallel cuts
        named = [("", deep_cases(self.N, tau, sym("beta"))[2][3]), ("1", deep_cases(self.N, tau, b0)[2][3])]
        named += [("2", c[3]) for c in parallel_cases(self.N, tau, sym("kappa") * w, b0, b1, TRUE, sym("m")) if c[0] == "parallel cut"]
        for k, co in named:
            for nm, v in zip(("rho", "sigma", "delta"), co):
                self.cfg["abbr"][v.key] = sym(nm + k)
                self.cfg["defs"][sym(nm + k).as_atom()] = subst(v, {w.as_atom(): om})
                self.coeffs[sym(nm + k).as_atom()] = v

    def omega(self):
        return sym("omega")

    @staticmethod
    def q0(i, j):
        return sel("Q", (P(i), P(j)))

    def v(self, i):
        return ZERO if i in self.zeros else sel("v", (P(i),))

    def g(self, i):
        if self.zeros is None:
            return sel("g", (P(i),))
        return self.v(i) + sum((self.q0(j, i) * self.v(j) for j in range(i)), ZERO)

    def cut(self, kind):
        c = Space.cut(self, kind)
        if self.zeros is not None:
            n = int(self.N.const())
            c = c.set("0", Arr(1, (self.N,), lambda ix, ctx: self.g(int(P(ix[0]).const())), "Lv%d%s" % (n, self.zeros)))
        return c

    def assume(self, I):
        Space.assume(self, I)
        for i in range(int(self.N.const())):
            I.st.gt.append(self.q0(i, i))
            if self.zeros is not None and i not in self.zeros:
                I.assume(ne(self.q0(i, i) * self.v(i) * self.v(i), 0))
                I.assume(ne(self.v(i), 0))

    def omega0(self):
        n = int(self.N.const())
        v = self.invL(self.g, self.q0)
        return sum((self.q0(i, i) * v[i] * v[i] for i in range(n)), ZERO)


class FactorUpd(Upd):
    """update of the factorised variant in dimension n (instantiated)"""
    seen = set()

    def qnew(self, st):
        Qa = self.field(st, self.sp.Q)

        def q(i, j):
            with At(self.I, st) as I:
                return Qa.elem((P(i), P(j)), I)
        return q

    def success(self, st, good, om):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        n = int(sp.N.const())
        Pg = sp.apply(sp.g, sp.q0)
        xa, ka = self.field(st, sp.xc), self.field(st, sp.kappa)
        q1 = self.qnew(st)
        g, v = sp.g, sp.invL(sp.g, sp.q0)
        # the listed defect: back substitution with the row below
        bad = [ZERO] * n
        for i in reversed(range(n)):
            bad[i] = sp.q0(i, i) * v[i] - sum((sp.q0(i + 1, j) * bad[j] for j in range(i + 1, n)), ZERO)
        for name, conds, co in good:
            rho, sigma, delta = (I.abbr.get(x.key, x) for x in co)
            with At(I, st):
                if I.known(eqv(sym("beta"), 0)) is True:
                    rho, sigma, delta = (subst(x, {sym("beta").as_atom(): ZERO}) for x in co)
            equal(rep, I, st, ka, sym("kappa") * delta, "stable-scale", w, name + ": scale becomes kappa * delta", conds)
            if n == 2:      # (for larger n it follows from the pivots)
                equal(rep, I, st, q1(0, 0) * q1(1, 1), sp.q0(0, 0) * sp.q0(1, 1) * (ONE - sigma), "stable-volume", w,
                      name + ": determinant is multiplied by 1 - sigma", conds)
            for i in range(n):
                with At(I, st):
                    x = xa.elem((P(i),), I)
                x0 = sel("xc", (P(i),))
                self.listed(st, x, x0 - rho / om * Pg[i], x0 - rho / om * bad[i] if i < n - 1 else None, "stable-centre",
                            name + ": centre component %d of %d moves by -rho/omega P g" % (i, n), conds)
            # rank-one update of the factors, entry by entry (the factorisation is unique)
            t = [om * (ONE - sigma)]
            val = []
            res = [g(i) for i in range(n)]
            for j in range(n):
                t.append(t[-1] + sigma * sp.q0(j, j) * v[j] * v[j])
                ratio = t[j] / t[j + 1] if v[j].t else ONE
                val.append(q1(j, j))
                equal(rep, I, st, q1(j, j), sp.q0(j, j) * ratio, "stable-pivot", w,
                      name + ": pivot %d of %d follows the rank-one update" % (j, n), conds)
                for l in range(j + 1, n):
                    q = sp.q0(j, l)
                    res[l] = res[l] - q * v[j]
                    b2 = sigma * sp.q0(j, j) * v[j] / t[j + 1] if v[j].t else ZERO
                    val.append(q1(j, l))
                    self.listed(st, q1(j, l), q + b2 * res[l], q + b2 * q * v[j], "stable-factor",
                                name + ": factor entry (%d,%d) of %d follows the rank-one update" % (j, l, n), conds)
            # (0 <= sigma <= 1, omega > 0 and some component so far is not zero)
            pos = [t[j + 1] for j in range(n) if v[j].t]
            done = set()
            for x in [ka] + val:
                self.finite(st, x, "the factorisation", [(name, conds, co)], done, pos)

    def listed(self, st, x, right, defect, rule, text, conds):
        """x is right; a deviation that is exactly the listed defect is
        reported under a name of its own"""
        I, rep, w = self.I, self.rep, self.where
        if defect is not None and not peq(right, defect):
            q = harness.Report("tmp")
            if equal(q, I, st, x, defect, rule, w, text, conds) is True and ( \
                    (rule, w) in self.seen or equal(q, I, st, x, right, rule, w, text, conds) is not True):
                self.seen.add((rule, w))
                rep.bad(rule + "-other", w, text + " -- it is " + show_defect(rule))
                return
        equal(rep, I, st, x, right, rule, w, text, conds)

    def atomic_shape(self, st, cond):
        I, rep, w, sp = self.I, self.rep, self.where, self.sp
        n = int(sp.N.const())
        q1 = self.qnew(st)
        for i in range(n):
            for j in range(i, n):
                equal(rep, I, st, q1(i, j), sp.q0(i, j), "atomic-shape", w,
                      "a rejected cut leaves the factorisation (%d,%d)" % (i, j), [cond])


def extents(rep, sp):
    """every element an update of this dimension uses lies in its array"""
    for nm, f in zip(("deep", "parallel"), sp.updates()):
        w = "%s::update<%s>:%d" % (sp.cls, nm, f["line"])
        I, parts, this = sp.run(f, nm)
        for st, k in parts:
            if k[0] == "oob":
                never(rep, I, st, "index", w, "every element used lies in its array: " + k[1].rsplit(" in ", 1)[0])
            elif k[0] == "ret":
                rep.ok("index", w, "every element used lies in its array")
            else:
                rep.und("index", w, str(k[1:]))


def run(rep, rules, classes=("ell",)):
    pr = prog(rep)
    deep = harness.TIER == "thorough"

    def both(sp, U, names):
        ups = dict(zip(("deep", "parallel"), sp.updates()))
        for nm in names:
            section(rep, "%s::update<%s>" % (sp.cls, nm), U, rep, sp, ups[nm], nm, rules)
    if "ell" in classes:
        section(rep, "ell", lambda: both(Space(pr, "ell", rep), Upd, ("deep", "parallel")))
        for n in (2, 3):
            section(rep, "ell", extents, rep, Space(pr, "ell", rep, P(n)))
    if "ell_stable" in classes and "P08" not in rules:
        for n in (2, 3, 4, 5) if deep else (2, 3):
            section(rep, "ell_stable", lambda: both(FactorSpace(pr, "ell_stable", rep, P(n)), FactorUpd, ("deep", "parallel")))
    elif "ell_stable" in classes:
        for n in range(2, 7 if deep else 6):
            for k in range(2 ** n - 1):
                zeros = tuple(i for i in range(n) if k >> i & 1)
                if n == 5 and not deep and k not in (0, 1, 6):
                    continue
                names = ("deep", "parallel") if n < 4 or deep and n == 4 and len(zeros) < 2 else ("deep",)
                section(rep, "ell_stable", lambda: both(FactorSpace(pr, "ell_stable", rep, P(n), zeros), FactorUpd, names))
                if any(o[0] == "violation" and not o[1].endswith("-other") for o in rep.ob):
                    rep.notes.append("further dimensions and zero patterns are skipped after a violation")
                    return


def p11(rep):
    run(rep, ("P11",), ("ell", "ell_stable"))


def p08(rep):
    run(rep, ("P08",))


def p09(rep):
    run(rep, ("P08",), ("ell_stable",))


def p07(rep):
    run(rep, ("P07",), ("ell", "ell_stable"))

"""Iteration drivers (cutting-plane feasibility / optimisation / discrete,
bisection and its adaptor): every partition of the summarised loop is compared
with the driver's decision table."""
from engine import frontend
from engine.harness import *
from engine.poly import P, ZERO, ONE, fun, Poly, eq as peq, Undecided
from engine.values import *

UNITS = ["tu:drivers"]
SUCCESS, NOSOLN, SMALL, NOEFF = 0, 1, 2, 3
XC = "call:vw::Space::xc"


def prog():
    return frontend.load(UNITS)


class Driver:
    def __init__(self, rep, pr, name, oracle, pick=None, cfg=None, setup=None):
        self.rep, self.pr = rep, pr
        fs = pr.find(name=name, pred=lambda f: f.get("cls") is None and (pick is None or pick(f)))
        if len(fs) != 1:
            raise Broken("anchor %s: %d instances" % (name, len(fs)))
        self.f = fs[0]
        self.oracle = oracle
        self.where = name
        self.I, self.parts, self.lvs, _ = analyse(pr, self.f, cfg or {}, setup, rep=rep)
        self.arg = {p["n"]: i for i, p in enumerate(self.f["params"])}

    def loop(self, st):
        ls = [l for l in st.loops if any(self.queries(b.events) for b, _ in l.back)
              or any(self.queries(s.events) for s, _ in l.exits)]
        if len(ls) != 1:
            raise Undecided("%d query loops" % len(ls))
        return ls[0]

    def queries(self, evs):
        return [e for e in evs if e.kind == "call" and e.name == self.oracle]

    def updates(self, evs):
        return [e for e in evs if e.kind == "call" and e.name == "vw::Space::update"]

    def split(self, st):
        """(events before, events after) the query loop"""
        info = self.loop(st)
        i = [j for j, e in enumerate(st.events) if e.kind == "loop" and e.val is info or e.kind == "loop" and e.name == info.lid][0]
        return info, st.events[:i], st.events[i + 1:]

    def at(self, st, i):
        """value of parameter i's object in state st"""
        with At(self.I, st):
            return self.I.read(self.lvs[i])

    def head(self, info, i):
        return self.at(info.entry, i)

    def each(self, fn_back, fn_exit):
        self.rough = False
        seen = set()
        for st, kind in self.parts:
            for info in st.loops:
                if info.lid in seen or kind[0] != "ret":
                    continue
                seen.add(info.lid)
                for b, _ in info.back:
                    with inloop(info):
                        fn_back(b, info, b.events)
        for st, kind in self.parts:
            if kind[0] != "ret":
                self.rep.und("summary", site(self.f, self.f["line"]), "partition not summarised: %s" % (kind[1:],))
                continue
            try:
                info, pre, post = self.split(st)
            except Undecided as e:
                self.rep.und("summary", site(self.f, self.f["line"]), str(e))
                continue
            if self.queries(pre) or self.updates(pre):
                self.rep.und("summary", site(self.f), "oracle calls before the loop")
                continue
            fn_exit(st, info, post, kind[1])


def guard(fn):
    def w(self, *a):
        try:
            return fn(self, *a)
        except Undecided as e:
            self.rep.und("summary", self.where, str(e))
    return w


def fld(v, name, I=None):
    if isinstance(v, Struct):
        x = v.fields.get(name)
        if x is None:
            raise Undecided("result field " + name)
        return x
    raise Undecided("result is not a record")


def outs(I, st, v, i, t):
    """component i of an opaque tuple result"""
    with At(I, st):
        return I.step_read(v, ("f", str(i), t))


class Feas:
    def __init__(self, rep, pr, rules):
        self.rep, self.rules = rep, rules
        self.d = Driver(rep, pr, "cutting_plane_feas", "vw::FeasOracle::operator()")
        self.where = "cutting_plane_feas"
        self.iO, self.iS, self.io = (self.d.arg[x] for x in self.names())
        self.d.each(self.back, self.exit)

    def names(self):
        ps = [p["n"] for p in self.d.f["params"]]
        return ps[0], ps[1], ps[2]

    def opt(self, f, st):
        with At(self.d.I, st):
            return self.d.I.step_read(self.d.I.read(self.d.lvs[self.io]), ("f", f, {"max_it": "u32", "tol": "f64"}[f]))

    def sure(self, w):
        if self.d.rough:
            self.rep.und("count", w, "queries are not one per iteration")
        return not self.d.rough

    def on(self, r):
        return r in self.rules

    def iteration(self, st, info, evs, tag):
        """common facts of one iteration; returns (has, status, tsq) Bool/Poly"""
        I, rep, d = self.d.I, self.rep, self.d
        qs, us = d.queries(evs), d.updates(evs)
        w = "%s:%s" % (self.where, info.line)
        S = d.head(info, self.iS)
        if len(qs) > 1 or len(us) > 1:
            d.rough = True
            never(rep, I, st, "one-query", w, "%s: %d queries / %d updates in one iteration" % (tag, len(qs), len(us)))
            return None
        if not qs:
            return ()
        q = qs[0]
        if self.on("P01"):
            equal(rep, I, st, I.reify(q.args[0]), fun(XC, S), "query-point", w, tag + ": oracle is queried at the current centre")
        has = b_not(eqv(fun("b?hasvalue", I.reify(q.val)), 0))
        if not us:
            return (q, has, None, None)
        u = us[0]
        if self.on("P01"):
            equal(rep, I, st, u.before, S, "update-base", w, tag + ": the update starts from the state that was queried")
            equal(rep, I, st, I.reify(u.args[0]), fun("val", I.reify(q.val)), "update-cut", w, tag + ": the update uses the cut just returned")
            if evs.index(u) < evs.index(q):
                never(rep, I, st, "order", w, tag + ": update before query")
        s = outs(I, st, u.val, 0, "enum:CUTStatus")
        t = outs(I, st, u.val, 1, "f64")
        return (q, has, s, t)

    @guard
    def back(self, st, info, evs):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        it = self.iteration(st, info, evs, "continuing iteration")
        if it is None:
            return
        if not it or it[2] is None:
            self.d.rough = True
            never(rep, I, st, "progress", w, "an iteration continues without %s" % ("querying the oracle" if not it else "updating the search space"))
            return
        q, has, s, t = it
        if self.on("P01"):
            require(rep, I, st, has, "continue-iff", w, "loop continues only after an infeasible answer")
            require(rep, I, st, eqv(s, SUCCESS), "continue-iff", w, "loop continues only after a successful update")
            require(rep, I, st, le(self.opt("tol", st), t), "continue-iff", w, "loop continues only while the size measure is at least tol")

    @guard
    def exit(self, st, info, evs, res):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        it = self.iteration(st, info, evs, "final iteration")
        if it is None:
            return
        feas, num, status = fld(res, "feasible"), fld(res, "num_iters"), fld(res, "status")
        nq = info.kexit + (1 if it else 0)
        mx = self.opt("max_it", st)
        if self.on("P04") and self.sure(w):
            self.budget(st, info, it, nq, num, mx, w)
        if not self.on("P01"):
            return
        if not it:
            equal(rep, I, st, feas, FALSE, "verdict", w, "budget exhausted: not reported feasible")
            return
        q, has, s, t = it
        S = self.d.head(info, self.iS)
        if s is None:
            require(rep, I, st, b_not(has), "exit-iff", w, "stops without update only on a feasible answer")
            equal(rep, I, st, feas, TRUE, "verdict", w, "feasible answer is reported")
            equal(rep, I, st, status, P(SUCCESS), "status", w, "feasible answer has status success")
            equal(rep, I, st, self.d.at(st, self.iS), S, "verdict", w, "search space still centred at the accepted point")
            return
        require(rep, I, st, has, "exit-iff", w, "updates only with an actual cut")
        equal(rep, I, st, feas, FALSE, "verdict", w, "not feasible when the last answer was a cut")
        equal(rep, I, st, status, s, "status", w, "failed update: its status is reported", [ne(s, SUCCESS)])
        equal(rep, I, st, status, P(SMALL), "status", w, "size below tol: smallenough", [eqv(s, SUCCESS), lt(t, self.opt("tol", st))])
        require(rep, I, st, b_or(ne(s, SUCCESS), lt(t, self.opt("tol", st))), "exit-iff", w, "stops early only on failure or size below tol")

    def budget(self, st, info, it, nq, num, mx, w):
        I, rep = self.d.I, self.rep
        require(rep, I, st, b_or(le(nq, mx), eqv(nq, 0)), "budget", w, "number of queries is at most max_it")
        if it:
            equal(rep, I, st, num, nq, "count", w, "reported iterations = number of queries")
        else:
            require(rep, I, st, b_or(eqv(num, mx), eqv(nq, 0)), "count", w, "budget exit reports max_it iterations")
            require(rep, I, st, b_or(le(mx - 1, nq), le(mx, 0)), "budget", w, "budget exit only when the budget is used up")


class Dc(Feas):
    QUERY = "vw::OptOracle::operator()"
    NAME = "cutting_plane_dc"
    RULE = "P02"
    INIT = SUCCESS

    def __init__(self, rep, pr, rules):
        self.rep, self.rules = rep, rules
        self.where = self.NAME
        self.d = Driver(rep, pr, self.NAME, self.QUERY)
        self.iO, self.iS, self.it, self.io = range(4)
        self.d.each(self.back, self.exit)

    def iteration(self, st, info, evs, tag):
        I, rep, d = self.d.I, self.rep, self.d
        qs, us = d.queries(evs), d.updates(evs)
        w = "%s:%s" % (self.where, info.line)
        S = d.head(info, self.iS)
        if len(qs) > 1 or len(us) > 1 or len(qs) != len(us):
            d.rough = True
            never(rep, I, st, "one-query", w, "%s: %d queries / %d updates in one iteration" % (tag, len(qs), len(us)))
            return None
        if not qs:
            return ()
        q, u = qs[0], us[0]
        if self.on(self.RULE):
            equal(rep, I, st, I.reify(q.args[0]), fun(XC, S), "query-point", w, tag + ": oracle is queried at the current centre")
            equal(rep, I, st, I.reify(q.args[1]), d.head(info, self.it), "query-t", w, tag + ": oracle sees the best-so-far value")
            equal(rep, I, st, u.before, S, "update-base", w, tag + ": the update starts from the state that was queried")
            equal(rep, I, st, I.reify(u.args[0]), outs(I, st, q.val, 0, "?"), "update-cut", w, tag + ": the update uses the cut just returned")
        s = outs(I, st, u.val, 0, "enum:CUTStatus")
        t = outs(I, st, u.val, 1, "f64")
        return (q, self.shrunk(st, q), s, t)

    def shrunk(self, st, q):
        return outs(self.d.I, st, q.val, 1, "bool")

    def incumbent(self, st, q, info):
        return fun(XC, self.d.head(info, self.iS))

    def best_locations(self):
        """loop-carried location holding the incumbent: the one whose value is
        returned as component 0"""

    def best(self, st, res):
        return fld(res, "0")

    def check_best(self, st, info, q, shr, newv, oldv, w, tag):
        I, rep = self.d.I, self.rep
        equal(rep, I, st, newv, self.incumbent(st, q, info), "incumbent", w, tag + ": improvement recorded with its own point", [shr])
        equal(rep, I, st, newv, oldv, "incumbent", w, tag + ": incumbent unchanged without improvement", [b_not(shr)])

    def bestloc(self, info):
        """the loop-carried location of the incumbent"""
        c = []
        for st, kind in self.d.parts:
            if kind[0] != "ret":
                continue
            for ev in st.events:
                pass
            i2, pre, post = self.d.split(st)
            if not self.d.queries(post) and i2.lid == info.lid:
                v = fld(kind[1], "0")
                for key, ph in i2.phis.items():
                    if isinstance(ph, Poly) and isinstance(v, Poly):
                        if peq(subst(ph, {i2.k.as_atom(): i2.kexit}), v):
                            c.append(key)
        if not c:
            raise Undecided("location of the incumbent")
        return info.mods[c[0]][0], info.phis[c[0]]

    @guard
    def back(self, st, info, evs):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        it = self.iteration(st, info, evs, "continuing iteration")
        if it is None:
            return
        if not it:
            self.d.rough = True
            never(rep, I, st, "progress", w, "an iteration continues without querying the oracle")
            return
        q, shr, s, t = it
        if not self.on(self.RULE):
            return
        tol = self.opt("tol", st)
        self.continue_rule(st, q, s, t, tol, w)
        loc, phi = self.bestloc(info)
        with At(I, st):
            nb = I.read(loc)
        self.check_best(st, info, q, shr, nb, phi, w, "continuing iteration")
        equal(rep, I, st, self.d.at(st, self.it), fun("out1:" + self.QUERY, *self.qargs(q)), "best-value", w,
              "best-so-far value is exactly what the oracle left")
        self.extra_back(st, info, q, s, w)

    def qargs(self, q):
        return [q.before] + [self.d.I.reify(a) for a in q.args]

    def continue_rule(self, st, q, s, t, tol, w):
        I, rep = self.d.I, self.rep
        require(rep, I, st, eqv(s, SUCCESS), "continue-iff", w, "loop continues only after a successful update")
        require(rep, I, st, le(tol, t), "continue-iff", w, "loop continues only while the size measure is at least tol")

    def extra_back(self, st, info, q, s, w):
        pass

    @guard
    def exit(self, st, info, evs, res):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        it = self.iteration(st, info, evs, "final iteration")
        if it is None:
            return
        ci = fld(res, "1")
        feas, num, status = fld(ci, "feasible"), fld(ci, "num_iters"), fld(ci, "status")
        nq = info.kexit + (1 if it else 0)
        if self.on("P04") and self.sure(w):
            self.budget(st, info, it, nq, num, self.opt("max_it", st), w)
        if not self.on(self.RULE):
            return
        tfin = self.d.at(st, self.it)
        equal(rep, I, st, feas, ne(tfin, sym(self.d.f["params"][self.it]["n"])), "verdict", w, "feasible iff the best value changed")
        if not it:
            equal(rep, I, st, status, P(self.INIT), "status", w, "budget exit keeps the initial status")
            return
        q, shr, s, t = it
        loc, phi = self.bestloc(info)
        self.check_best(st, info, q, shr, fld(res, "0"), phi, w, "final iteration")
        equal(rep, I, st, tfin, fun("out1:" + self.QUERY, *self.qargs(q)), "best-value", w,
              "best-so-far value is exactly what the oracle left")
        self.exit_rule(st, q, s, t, status, self.opt("tol", st), w)

    def exit_rule(self, st, q, s, t, status, tol, w):
        I, rep = self.d.I, self.rep
        equal(rep, I, st, status, s, "status", w, "failed update: its status is reported", [ne(s, SUCCESS)])
        equal(rep, I, st, status, P(SMALL), "status", w, "size below tol: smallenough", [eqv(s, SUCCESS), lt(t, tol)])
        require(rep, I, st, b_or(ne(s, SUCCESS), lt(t, tol)), "exit-iff", w, "stops early only on failure or size below tol")


class Q(Dc):
    QUERY = "vw::QOracle::operator()"
    NAME = "cutting_plane_q"
    RULE = "P03"
    INIT = NOSOLN

    def shrunk(self, st, q):
        return outs(self.d.I, st, q.val, 2, "bool")

    def more(self, st, q):
        return outs(self.d.I, st, q.val, 3, "bool")

    def incumbent(self, st, q, info):
        return outs(self.d.I, st, q.val, 1, "?")

    def iteration(self, st, info, evs, tag):
        it = Dc.iteration(self, st, info, evs, tag)
        if it and self.on("P03"):
            self.retry_arg(st, info, it[0])
        return it

    def retry_arg(self, st, info, q):
        """the flag of the first query is false; the flag of the query after
        back partition b is (status of b's update == noeffect)"""
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        r = q.args[2]
        r = r if isinstance(r, Bool) else ne(r, 0)
        i0 = initial(I, info)
        equal(rep, I, info.entry, subst_val(r, i0), FALSE, "retry", w, "first query is not a retry")
        for b, _ in info.back:
            us = self.d.updates(b.events)
            if len(us) != 1:
                rep.und("retry", w, "no single update in the previous iteration")
                continue
            s = outs(I, b, us[0].val, 0, "enum:CUTStatus")
            with inloop(info):
                equal(rep, I, b, subst_val(r, following(I, info, b)), eqv(s, NOEFF), "retry", w,
                      "the next query is a retry exactly after a cut without effect")

    def continue_rule(self, st, q, s, t, tol, w):
        I, rep = self.d.I, self.rep
        require(rep, I, st, ne(s, NOSOLN), "continue-iff", w, "loop does not continue after an infeasible update")
        require(rep, I, st, b_or(ne(s, NOEFF), self.more(st, q)), "continue-iff", w, "a cut without effect is followed by another query only if alternatives remain")
        require(rep, I, st, le(tol, t), "continue-iff", w, "loop continues only while the size measure is at least tol")

    def exit_rule(self, st, q, s, t, status, tol, w):
        I, rep = self.d.I, self.rep
        more = self.more(st, q)
        equal(rep, I, st, status, P(NOSOLN), "status", w, "infeasible update: nosoln", [eqv(s, NOSOLN)])
        equal(rep, I, st, status, P(NOSOLN), "status", w, "no alternative cut left: nosoln", [eqv(s, NOEFF), b_not(more)])
        equal(rep, I, st, status, P(SMALL), "status", w, "size below tol: smallenough", [b_or(eqv(s, SUCCESS), eqv(s, SMALL)), lt(t, tol)])
        require(rep, I, st, b_or(eqv(s, NOSOLN), b_and(eqv(s, NOEFF), b_not(more)), lt(t, tol)), "exit-iff", w,
                "stops early only when infeasible, out of alternatives or below tol")


class Bs(Feas):
    def __init__(self, rep, pr, rules, oracle, t):
        self.rep, self.rules = rep, rules
        self.where = "bsearch<%s>" % t
        self.t = t

        def bracket(I, lvs, this):
            # lower <= upper is the caller's duty; nothing more may be asserted
            iv = lvs[1]
            I.require(le(I.read(iv.sub("f", "first", t)), I.read(iv.sub("f", "second", t))))
        self.d = Driver(rep, pr, "bsearch", oracle, lambda f: oracle.split("::operator")[0] + " " in f["targs"],
                        {"asserts": True}, bracket)
        if "P05" in rules:
            for st, kind in self.d.parts:
                if kind[0] == "throw":
                    never(rep, self.d.I, st, "precondition", self.where, "an assertion fails although lower <= upper")
        self.iO, self.iS, self.io = range(3)
        self.d.each(self.back, self.exit)

    def ends(self, st):
        with At(self.d.I, st) as I:
            return (I.read(self.d.lvs[self.iS].sub("f", "first", self.t)), I.read(self.d.lvs[self.iS].sub("f", "second", self.t)))

    def half(self, p):
        return p * Fraction(1, 2) if self.t == "f64" else fun("idiv", p, P(2))

    def iteration(self, st, info, evs, tag):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        qs = self.d.queries(evs)
        if len(qs) > 1:
            self.d.rough = True
            never(rep, I, st, "one-query", w, "%s: %d queries in one iteration" % (tag, len(qs)))
            return None
        return qs[0] if qs else ()

    @guard
    def back(self, st, info, evs):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        q = self.iteration(st, info, evs, "continuing iteration")
        if q is None:
            return
        if not q:
            self.d.rough = True
            never(rep, I, st, "progress", w, "an iteration continues without querying the predicate")
            return
        if not self.on("P05"):
            return
        lo, up = self.ends(info.entry)
        lo2, up2 = self.ends(st)
        tau = self.half(up - lo)
        mid = lo + tau
        arg = I.reify(q.args[0])
        equal(rep, I, st, arg, mid, "probe", w, "the probe is the midpoint of the current interval")
        ans = q.val if isinstance(q.val, Bool) else ne(q.val, 0)
        equal(rep, I, st, up2, arg, "bracket", w, "feasible probe becomes the upper end", [ans])
        equal(rep, I, st, lo2, lo, "bracket", w, "feasible probe leaves the lower end", [ans])
        equal(rep, I, st, lo2, arg, "bracket", w, "infeasible probe becomes the lower end", [b_not(ans)])
        equal(rep, I, st, up2, up, "bracket", w, "infeasible probe leaves the upper end", [b_not(ans)])
        require(rep, I, st, le(self.opt("tol", st), tau), "continue-iff", w, "probes only while the half-width is at least tol")

    @guard
    def exit(self, st, info, evs, res):
        I, rep = self.d.I, self.rep
        w = "%s:%s" % (self.where, info.line)
        q = self.iteration(st, info, evs, "final iteration")
        if q is None:
            return
        feas, num, status = fld(res, "feasible"), fld(res, "num_iters"), fld(res, "status")
        nq = info.kexit + (1 if q else 0)
        mx = self.opt("max_it", st)
        if self.on("P04") and self.sure(w):
            require(rep, I, st, le(nq, mx), "budget", w, "number of probes is at most max_it")
            equal(rep, I, st, num, nq + 1, "count", w, "reported iterations = probes + 1")
        if not self.on("P05"):
            return
        lo, up = self.ends(st)
        equal(rep, I, st, feas, ne(up, self.u0()), "verdict", w, "feasible iff the upper end moved")
        tau = self.half(up - lo)
        tol = self.opt("tol", st)
        require(rep, I, st, b_or(le(mx, nq), lt(tau, tol)), "exit-iff", w, "stops only when the budget is used or the interval is small")
        equal(rep, I, st, status, P(SUCCESS), "status", w, "budget exit keeps status success", [le(tol, tau)])
        equal(rep, I, st, status, P(SMALL), "status", w, "small interval has status smallenough", [lt(nq, mx)])

    def u0(self):
        with At(self.d.I, self.d.I.st) as I:
            return I.read(self.d.lvs[self.iS].sub("f", "second", self.t))


def p01(rep):
    pr = prog()
    rep.use(pr)
    section(rep, "Feas", Feas, rep, pr, ("P01",))


def p02(rep):
    pr = prog()
    rep.use(pr)
    section(rep, "Dc", Dc, rep, pr, ("P02",))


def p03(rep):
    pr = prog()
    rep.use(pr)
    section(rep, "Q", Q, rep, pr, ("P03",))


def p04(rep):
    pr = prog()
    rep.use(pr)
    section(rep, "Feas", Feas, rep, pr, ("P04",))
    section(rep, "Dc", Dc, rep, pr, ("P04",))
    section(rep, "Q", Q, rep, pr, ("P04",))
    section(rep, "Bs", Bs, rep, pr, ("P04",), "vw::Pred::operator()", "f64")
    section(rep, "Bs", Bs, rep, pr, ("P04",), "vw::PredI::operator()", "i32")
    from . import network
    section(rep, "max_parametric", network.budgets, rep)


def p05(rep):
    pr = prog()
    rep.use(pr)
    section(rep, "Bs", Bs, rep, pr, ("P05",), "vw::Pred::operator()", "f64")
    section(rep, "Bs", Bs, rep, pr, ("P05",), "vw::PredI::operator()", "i32")
    section(rep, "Bs", Bs, rep, pr, ("P05",), "vw::PredL::operator()", "i64")
    section(rep, "bsearch", wide, rep, pr)


def wide(rep, pr):
    """bracket ends and half widths of a wide integer bracket are never
    converted to a narrower integer (conversions the narrow instance makes too
    concern other values)"""
    def lossy(f):
        return sorted(n.get("l") or 0 for n in frontend.walk_nodes([f["body"]] + (f.get("inits") or []))
                      if n.get("k") == "cast" and WIDTH.get(n.get("ft"), 0) > WIDTH.get(n.get("t"), 99))
    seen = 0
    for f in pr.fns.values():
        ta = (f.get("targs") or "").strip("<> ")
        if f["name"] == "bsearch" and "vw::PredL " in f["targs"]:
            g = [h for h in pr.fns.values() if h["name"] == "bsearch" and "vw::PredI " in h["targs"]]
        elif "half_nonnegative.hpp" in f["file"] and any(t == "long" for t in ta.replace(",", " ").split()):
            g = [h for h in pr.fns.values() if h["file"] == f["file"] and h["line"] == f["line"] and "int" in (h.get("targs") or "").replace(",", " ").split()]
        else:
            continue
        seen += 1
        w = "%s<wide>:%d" % (strip(f["qn"]), f["line"])
        known = [l for h in g for l in lossy(h)]
        bad = [l for l in lossy(f) if l not in known]
        if bad:
            rep.bad("narrowing", w, "a wide integer is narrowed at line %s" % bad[0])
        else:
            rep.ok("narrowing", w, "no bracket value is narrowed")
    if not seen:
        raise Broken("no wide instance of bsearch")


# -- bisection adaptor ---------------------------------------------------------

FE = "cutting_plane_feas"
WIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}


def p06(rep):
    pr = prog()
    rep.use(pr)
    op = [f for f in pr.find(name="operator()") if (f.get("cls") or "").startswith("bsearch_adaptor")]
    if len(op) != 1:
        raise Broken("bsearch_adaptor::operator(): %d instances" % len(op))
    if not pr.find(name=FE):
        raise Broken("cutting_plane_feas not found")
    # the adaptor is built and called by the analysis driver; the feasibility
    # run is an uninterpreted effect
    w = "bsearch_adaptor::operator():%d" % op[0]["line"]
    for name in ("use_adaptor", "use_adaptor_default"):
        f = pr.one(name=name)
        I, parts, lvs, _ = analyse(pr, f, {"opaque": [FE]}, rep=rep)
        for st, kind in parts:
            if kind[0] != "ret":
                rep.und("summary", w, "partition not summarised: %s" % (kind[1:],))
                continue
            try:
                opt = None
                if name == "use_adaptor":
                    with At(I, st):
                        opt = [I.step_read(I.read(lvs[2]), ("f", x, t)) for x, t in OPTS]
                else:
                    opt = [P(2000), P(Fraction(1, 10 ** 8))]
                adaptor_part(rep, I, st, kind[1], lvs, w, opt)
            except Undecided as e:
                rep.und("summary", w, str(e))
    f = pr.one(name="use_adaptor_best")
    I, parts, lvs, _ = analyse(pr, f, {"opaque": [FE]}, rep=rep)
    for st, kind in parts:
        if kind[0] != "ret":
            rep.und("summary", "bsearch_adaptor::x_best", "partition not summarised: %s" % (kind[1:],))
            continue
        equal(rep, I, st, I.reify(kind[1]), fun(XC, sym("S")), "best", "bsearch_adaptor::x_best", "best point is the committed centre")


OPTS = (("max_it", "u32"), ("tol", "f64"))


def adaptor_part(rep, I, st, res, lvs, w, opt):
    evs = [e for e in st.events if e.kind == "call"]
    run = [e for e in evs if e.name == FE]
    upd = [e for e in evs if e.name == "vw::FeasOracle::update"]
    if len(run) != 1:
        never(rep, I, st, "one-run", w, "%d feasibility runs for one answer" % len(run))
        return
    run = run[0]
    if len(upd) != 1:
        never(rep, I, st, "update-once", w, "the oracle parameter is set %d times" % len(upd))
        return
    if evs.index(upd[0]) > evs.index(run):
        never(rep, I, st, "update-first", w, "the oracle parameter is set after the run")
        return
    rep.ok("update-first", w, "parameter set exactly once, before the run")
    S0, O0 = sym("S"), sym("P")
    equal(rep, I, st, I.reify(upd[0].args[0]), sym("t"), "update-value", w, "the parameter handed to the oracle is the probed value")
    equal(rep, I, st, I.reify(upd[0].before), O0, "update-value", w, "the caller's oracle object is the one updated")
    a0, a1, a2 = (I.reify(x) for x in run.args[:3])
    equal(rep, I, st, a0, afterof(I, upd[0]), "update-value", w, "the run uses the updated oracle")
    cp = [fun("call:vw::Space::copy", S0), S0]
    if a1.key == S0.key:
        # a copy constructor is transparent: the caller's object must not change
        rep.ok("copy", w, "run starts from the caller's search space")
    else:
        equal(rep, I, st, a1, cp[0], "copy", w, "run starts from a copy of the caller's search space")
    for (fl, t), want in zip(OPTS, opt):
        with At(I, st):
            equal(rep, I, st, I.step_read(run.args[2], ("f", fl, t)), want, "options", w,
                  "the run uses the options given at construction: " + fl)
    with At(I, st):
        ret = run.val
        feas = I.step_read(ret, ("f", "feasible", "bool"))
        now = I.reify(I.read(lvs[1]))
    after = fun("out1:" + FE, *[I.reify(x) for x in run.args])
    equal(rep, I, st, res, feas, "verdict", w, "the answer is the verdict of the run")
    sets = [e for e in evs if e.name == "vw::Space::set_xc"]
    if sets:
        e = sets[-1]
        require(rep, I, st, feas, "commit", w, "centre committed only on a feasible run")
        equal(rep, I, st, I.reify(e.args[0]), fun(XC, runspace(I, run)), "commit", w, "committed centre is the one the run stopped at")
        if len(sets) == 1:
            equal(rep, I, st, e.before, S0, "commit", w, "the caller's search space is the one committed to")
        equal(rep, I, st, now, afterof(I, e), "commit", w, "nothing else of the caller's search space changes")
    else:
        require(rep, I, st, b_not(feas), "commit", w, "a feasible run commits its centre")
        equal(rep, I, st, now, S0, "commit", w, "an infeasible probe leaves the caller's search space untouched")


def runspace(I, run):
    return fun("out1:" + run.name, *[I.reify(x) for x in run.args])


def afterof(I, e):
    return fun("after:" + e.name, e.before, *[I.reify(x) for x in e.args])

"""Negative cycles, parametric search and the network oracles (P15, P16)."""
from engine import frontend, harness, loops
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, fun
from engine.values import *
from engine.interp import AbortPath

_PR = []


def prog(rep):
    if not _PR:
        _PR.append(frontend.load(["tu:graph"]))
    rep.use(_PR[0])
    return _PR[0]


# name -> (nodes in the graph's order, edges in the graph's order)
QUICK = {
    "empty": ((), ()),
    "no edges": ((0, 1), ()),
    "self-loop": ((0,), ((0, 0),)),
    "two-cycle": ((0, 1), ((0, 1), (1, 0))),
    "two-cycle, other order": ((1, 0), ((0, 1), (1, 0))),
    "parallel edges": ((0, 1), ((0, 1), (0, 1), (1, 0))),
    "two-cycle and self-loop": ((0, 1), ((0, 1), (1, 0), (1, 1))),
    "tail": ((0, 1, 2), ((0, 1), (1, 2), (2, 1))),
    "tail, cycle first": ((2, 1, 0), ((2, 1), (1, 2), (0, 1))),
    "leaf": ((2, 0, 1), ((0, 1), (1, 0), (1, 2))),
    "triangle": ((0, 1, 2), ((0, 1), (1, 2), (2, 0))),
    "triangle, other order": ((1, 2, 0), ((2, 0), (1, 2), (0, 1))),
    "diamond": ((3, 1, 2, 0), ((0, 1), (0, 2), (1, 3), (2, 3))),
    "chain": ((0, 1, 2), ((1, 2), (0, 1))),
    "triangle with chord": ((0, 1, 2), ((0, 1), (1, 2), (2, 0), (1, 0))),
    "two cycles": ((0, 1, 2, 3), ((0, 1), (1, 0), (2, 3), (3, 2))),
    "figure eight": ((0, 1, 2), ((0, 1), (1, 0), (0, 2), (2, 0))),
    "square": ((0, 1, 2, 3), ((0, 1), (1, 2), (2, 3), (3, 0))),
    "square, other order": ((2, 0, 3, 1), ((3, 0), (1, 2), (2, 3), (0, 1))),
    "two tails": ((0, 1, 2, 3), ((0, 2), (1, 2), (2, 3), (3, 2))),
}
PASSES = 6


def edge(i, e):
    return Struct("vw::Edge", None, {"id": P(i), "u": P(e[0]), "v": P(e[1])})


def graph(ns, es):
    return Struct("vw::Net", None, {"nodes": Seq(None, tuple(P(i) for i in ns)),
                                    "list": Seq(None, tuple(edge(i, e) for i, e in enumerate(es)))})


def weight(I, n, fr):
    o = I.read(I.resolve_lv(I.intr.obj(n, fr)))
    e = I.rv(n["args"][0], fr)
    if isinstance(o, Poly) and isinstance(e, Poly):
        return fun("weight", o, e)      # not an edge of the graph
    if not isinstance(o, Poly) or not isinstance(e, Struct) or e.fields["id"].const() is None:
        raise Undecided("weight of an unknown edge")
    return fun("weight", o, e.fields["id"])


CFG = {"unroll": 4 * PASSES, "fork_loops": True, "asserts": True, "maplike": ("vw::Dist",),
       "intrinsics": {"vw::Weight::operator()": weight}}


def cases(I, st, cond, yes, no):
    """both ways a comparison of the specification can go in this partition"""
    with At(I, st):
        k = I.known(cond)
    if k is not None:
        return (yes if k else no)(st)
    for c, f in ((cond, yes), (b_not(cond), no)):
        s2 = st.clone()
        I0, I.st = I.st, s2
        try:
            I.assume(c)
        except AbortPath:
            continue
        finally:
            I.st = I0
        f(s2)


def cycles(pred):
    """the cycles of a predecessor relation, as tuples of heads"""
    out = set()
    for v in pred:
        path = []
        while v in pred and v not in path:
            path.append(v)
            v = pred[v][1]
        if v in path:
            out.add(frozenset(path[path.index(v):]))
    return out


def simulate(I, st, es, dist, w, done):
    """the specified search; done(state, dist, recorded edges or None)"""
    def passes(s, dist, pred, n):
        if n > PASSES:
            return done(s, None, None)

        def end(s, dist, pred, changed):
            if not changed:
                return done(s, dist, None)
            if cycles(pred):
                return done(s, dist, pred)
            passes(s, dist, pred, n + 1)

        def step(s, i, dist, pred, changed):
            if i == len(es):
                return end(s, dist, pred, changed)
            u, v = es[i]
            d = dist[u] + w(i)
            cases(I, s, lt(d, dist[v]),
                  lambda s2: step(s2, i + 1, {**dist, v: d}, {**pred, v: (i, u)}, True),
                  lambda s2: step(s2, i + 1, dist, pred, changed))
        step(s, 0, dist, pred, False)
    passes(st, dist, {}, 1)


def reported(rep, I, st, got, es, dist, pred, w, where, tx):
    """the result of the search against the specified outcome"""
    if not isinstance(got, Seq) or got.base is not None:
        rep.und("cycle", where, tx + ": result is not a list of edges")
        return
    ids = []
    for e in got.items:
        c = e.fields["id"].const() if isinstance(e, Struct) and isinstance(e.fields.get("id"), Poly) else None
        if c is None and isinstance(e, Poly):
            never(rep, I, st, "cycle", where, tx + ": something that is no edge of the graph is reported")
            return
        if c is None:
            rep.und("cycle", where, tx + ": unknown edge reported")
            return
        ids.append(int(c))
    if pred is None:
        if ids:
            never(rep, I, st, "none", where, tx + ": edges %s are reported although no pass changes a distance any more" % ids)
        else:
            rep.ok("none", where, tx)
        return
    if not ids:
        never(rep, I, st, "none", where, tx + ": nothing is reported although the recorded edges %s contain a cycle" % sorted(i for i, _ in pred.values()))
        return
    cyc = [frozenset(pred[v][0] for v in c) for c in cycles(pred)]
    if len(set(ids)) != len(ids) or frozenset(ids) not in cyc:
        never(rep, I, st, "cycle", where, tx + ": edges %s are reported, the cycles of recorded edges are %s" % (ids, sorted(map(sorted, cyc))))
        return
    nxt = [(ids[i], ids[(i + 1) % len(ids)]) for i in range(len(ids))]
    if not (all(es[a][0] == es[b][1] for a, b in nxt) or all(es[a][1] == es[b][0] for a, b in nxt)):
        never(rep, I, st, "cycle", where, tx + ": edges %s are not in cycle order" % ids)
        return
    rep.ok("cycle", where, tx)
    tot = ZERO
    for i in ids:
        tot = tot + w(i)
    require(rep, I, st, lt(tot, 0), "negative", where, tx + ": the reported cycle is negative")


def search(rep, pr, fn, gname, ns, es, dn, wn):
    f = pr.one(qn="vw::" + fn)
    where = "negCycleFinder::find_neg_cycle"
    tx = "graph '%s'%s" % (gname, "" if fn == "find" else ", second search")
    I, parts, lvs, _ = analyse(pr, f, CFG, rep=rep, args={"G": graph(ns, es)})
    w = lambda i: fun("weight", sym(wn), P(i))
    dl = next(l for l, p in zip(lvs, f["params"]) if p["n"] == dn)
    nd = set(ns) | {x for e in es for x in e}
    for st, kd in parts:
        endless = kd[0] == "undecided" and "does not end" in str(kd[1])
        if kd[0] == "throw":
            never(rep, I, st, "assertion", where, tx + ": an assertion fails")
            continue
        if kd[0] != "ret" and not endless:
            rep.und("summary", where, tx + ": " + str(kd)[:150])
            continue

        def done(s, dist, pred):
            if dist is None:
                if not endless:
                    rep.und("summary", where, tx + ": more than %d passes" % PASSES)
                return
            if endless:
                never(rep, I, s, "ends", where, tx + ": the search does not end although at most %d passes are due" % PASSES)
                return
            reported(rep, I, s, kd[1], es, dist, pred, w, where, tx)
            for v in sorted(nd):
                with At(I, s):
                    got = I.read(dl.sub("m", P(v), "f64"))
                equal(rep, I, s, got, dist[v], "relax", where, tx + ": distance of node %d" % v)
        simulate(I, st, es, {v: fun(dn + "[]", P(v)) for v in nd}, w, done)


def every_graph(n, most):
    """every set of at most `most` edges on n nodes, up to renaming, in two
    node orders"""
    from itertools import combinations, permutations
    pairs = [(u, v) for u in range(n) for v in range(n)]
    seen = set()
    for m in range(1, most + 1):
        for es in combinations(pairs, m):
            form = min(tuple(sorted((q[u], q[v]) for u, v in es)) for q in permutations(range(n)))
            if form in seen:
                continue
            seen.add(form)
            yield "%d nodes %s" % (n, es), (tuple(range(n)), es)
            yield "%d nodes %s, reversed" % (n, es), (tuple(range(n))[::-1], es[::-1])


def p15(rep):
    pr = prog(rep)
    gs = dict(QUICK)
    again = ("self-loop", "two-cycle", "parallel edges", "leaf")
    if harness.TIER == "thorough":
        gs.update(every_graph(3, 4))
        again = QUICK
    for g, (ns, es) in gs.items():
        section(rep, "negCycleFinder::find_neg_cycle", search, rep, pr, "find", g, ns, es, "d", "w")
    for g in again:
        ns, es = gs[g]
        section(rep, "negCycleFinder::find_neg_cycle", search, rep, pr, "find_again", g, ns, es, "e", "x")


# -- the search as a contract ---------------------------------------------------------

EDGES = ((0, 1), (1, 0), (0, 1), (1, 2), (2, 0))
CYCLES = ((1, 0), (2, 1), (0, 3, 4))


class Searches:
    """negCycleFinder::find_neg_cycle reports some cycle of the graph or none,
    and leaves arbitrary distances; what is asked is recorded"""

    def table(self):
        return {"negCycleFinder::find_neg_cycle": self.find, "vw::WeightAt::operator()": self.weight_at,
                "vw::Cost::operator()": self.cost, "vw::CostL::operator()": self.cost,
                "vw::Cancel::operator()": self.cancel, "vw::Param::eval": self.par("eval"), "vw::Param::grad": self.par("grad")}

    @staticmethod
    def id(e):
        x = e.fields.get("id") if isinstance(e, Struct) else None
        if not isinstance(x, Poly) or x.const() is None:
            raise Undecided("function of an unknown edge")
        return x

    def obj(self, I, n, fr):
        o = I.read(I.resolve_lv(I.intr.obj(n, fr)))
        return o if isinstance(o, Poly) else I.reify(o)

    def weight_at(self, I, n, fr):
        return fun("weight_at", self.obj(I, n, fr), I.num(n["args"][0], fr), self.id(I.rv(n["args"][1], fr)))

    def cost(self, I, n, fr):
        return fun("of", self.obj(I, n, fr), self.id(I.rv(n["args"][0], fr)))

    def par(self, what):
        def f(I, n, fr):
            return fun(what, self.obj(I, n, fr), self.id(I.rv(n["args"][0], fr)), I.num(n["args"][1], fr))
        return f

    def cancel(self, I, n, fr):
        c = I.rv(n["args"][0], fr)
        if not isinstance(c, Seq) or c.base is not None:
            raise Undecided("ratio of an unknown cycle")
        return fun("cancel", self.obj(I, n, fr), *sorted((self.id(e) for e in c.items), key=lambda p: p.const()))

    def find(self, I, n, fr):
        from engine.interp import Event
        fn = I.rv(n["args"][1], fr)
        if not isinstance(fn, Closure):
            raise Undecided("weight function is not a closure")
        g = I.prog.fns.get(fn.fn)
        if g is None:
            raise Undecided("weight function")
        w = [I.topoly(I.invoke(g, [I.newroot("e", edge(i, e))], fn.this, fn.env, n.get("l"))) for i, e in enumerate(EDGES)]
        d = I.resolve_lv(I.lvof(n["args"][0], fr))
        k = sum(1 for e in I.st.events if e.kind == "search")
        I.write(d, MapV(sym("dist~%d" % k)))
        ids = ()
        for j, c in enumerate(CYCLES):
            if I.decide(ne(sym("found%d.%d" % (k, j)), 0)):
                ids = c
                break
        r = Seq(None, tuple(edge(i, EDGES[i]) for i in ids))
        I.st.events.append(Event("search", "find_neg_cycle", d, [], (ids, w), I.where()[0], n.get("l")))
        return r

    def cfg(self):
        return dict(CFG, intrinsics=self.table())


def ids_of(v):
    if not isinstance(v, Seq) or v.base is not None:
        return None
    try:
        return tuple(int(Searches.id(e).const()) for e in v.items)
    except Undecided:
        return None


def asked(st):
    return [e.val for e in st.events if e.kind == "search"]


def same_cycle(rep, I, st, got, ids, where, tx):
    """the returned list is the cycle that was remembered"""
    c = ids_of(got)
    if c is None:
        rep.und("cycle", where, tx + ": result is not a list of known edges")
    elif sorted(c) != sorted(ids):
        never(rep, I, st, "cycle", where, tx + ": edges %s are returned, the cycle of the returned value is %s" % (list(c), list(ids)))
    else:
        rep.ok("cycle", where, tx + ": the cycle belongs to the value")


def lower(rep, I, st, kd, n, r0, r1, weights, ratio, where, tx):
    """one partition of the parametric search against its specification"""
    ss = asked(st)
    if len(ss) > n:
        never(rep, I, st, "ends", where, tx + ": %d searches with a budget of %d" % (len(ss), n))
        return

    def end(s, r, C, why):
        equal(rep, I, s, r1, r, "value", where, tx + ": the parameter after %d searches" % len(ss))
        same_cycle(rep, I, s, kd[1], C, where, tx)

    def step(s, i, r, C):
        if i == len(ss):
            if i < n:
                never(rep, I, s, "ends", where, tx + ": stops after %d searches although the last cycle lowers the parameter" % i)
            else:
                end(s, r, C, "budget")
            return
        ids, w = ss[i]
        for j, (g, e) in enumerate(zip(w, weights(r))):
            equal(rep, I, s, g, e, "weight", where, tx + ": weight of edge %d in search %d" % (j, i + 1))
        last = i + 1 == len(ss)

        def stop(s2, why):
            if last:
                end(s2, r, C, why)
            else:
                never(rep, I, s2, "ends", where, tx + ": searches again although " + why)
        if not ids:
            return stop(s, "there is no negative cycle")
        rm = ratio(ids)
        cases(I, s, lt(rm, r), lambda s2: step(s2, i + 1, rm, ids), lambda s2: stop(s2, "the cycle does not lower the parameter"))
    step(st, 0, r0, ())


def solver(rep, pr, fn, where, n, weights, ratio):
    f = pr.one(qn="vw::" + fn)
    S = Searches()
    I, parts, lvs, _ = analyse(pr, f, S.cfg(), rep=rep, args={"G": graph((0, 1, 2), EDGES), "n": P(n)})
    tx = "budget %d" % n
    rl = next(l for l, p in zip(lvs, f["params"]) if p["n"] == "r")
    for st, kd in parts:
        if kd[0] == "throw":
            never(rep, I, st, "value", where, tx + ": throws")
            continue
        if kd[0] != "ret":
            rep.und("summary", where, tx + ": " + str(kd)[:150])
            continue
        with At(I, st):
            r1 = I.topoly(I.read(rl))
        lower(rep, I, st, kd, n, sym("r"), r1, weights, ratio, where, tx)


def budgets(rep):
    """P04: the parametric search asks for at most as many cycles as allowed"""
    pr = prog(rep)
    f = pr.one(qn="vw::parametric")
    w = "max_parametric"
    for n in range(4 if harness.TIER == "thorough" else 3):
        S = Searches()
        I, parts, lvs, _ = analyse(pr, f, S.cfg(), rep=rep, args={"G": graph((0, 1, 2), EDGES), "n": P(n)})
        for st, kd in parts:
            if kd[0] == "undecided":
                rep.und("budget", w, str(kd)[:150])
            elif len(asked(st)) > n:
                never(rep, I, st, "budget", w, "%d searches with a budget of %d" % (len(asked(st)), n))
            else:
                rep.ok("budget", w, "%d searches with a budget of %d" % (len(asked(st)), n))


def p16(rep):
    pr = prog(rep)
    es = range(len(EDGES))
    of = lambda o, i: fun("of", sym(o), P(i))
    for n in range(4 if harness.TIER == "thorough" else 3):
        section(rep, "max_parametric", solver, rep, pr, "parametric", "max_parametric", n,
                lambda r: [fun("weight_at", sym("w"), r, P(i)) for i in es],
                lambda c: fun("cancel", sym("z"), *map(P, sorted(c))))
        for fn, kind in (("ratio", ""), ("ratio_l", ", integer costs and times"),
                         ("ratio_ld", ", integer costs and real times"), ("ratio_dl", ", real costs and integer times")):
            section(rep, "min_cycle_ratio", solver, rep, pr, fn, "min_cycle_ratio" + kind, n,
                    lambda r: [of("c", i) - r * of("t", i) for i in es],
                    lambda c: sum((of("c", i) for i in c), ZERO) / sum((of("t", i) for i in c), ZERO))


# -- the oracles over networks -----------------------------------------------------------

def net_parts(rep, pr, fn, where, args=None):
    f = pr.one(qn="vw::" + fn)
    S = Searches()
    I, parts, lvs, _ = analyse(pr, f, S.cfg(), rep=rep, args=dict(args or {}, G=graph((0, 1, 2), EDGES)))
    out = []
    for st, kd in parts:
        if kd[0] == "throw":
            never(rep, I, st, "verdict", where, "an assertion or look-up fails")
        elif kd[0] != "ret":
            rep.und("summary", where, str(kd)[:150])
        else:
            out.append((st, kd[1]))
    return I, out, {p["n"]: l for l, p in zip(lvs, f["params"])}


def check_weights(rep, I, st, w, want, where, tx):
    for j, (g, e) in enumerate(zip(w, want)):
        equal(rep, I, st, g, e, "valid-cut", where, tx + "the search sees edge %d at its constraint's value" % j)


def network(rep, pr, fn, hist):
    from . import oracle as O
    where = "network_oracle::operator()"
    I, parts, lvs = net_parts(rep, pr, fn, where)
    h, x = sym("h"), sym("x")
    ev = lambda i: fun("eval", h, P(i), x)
    gr = lambda i: fun("grad", h, P(i), x)
    for st, r in parts:
        ss = asked(st)[hist:]
        if not ss:
            never(rep, I, st, "verdict", where, "answers without a search")
            continue
        ids, w = ss[-1]
        check_weights(rep, I, st, w, [ev(i) for i in range(len(EDGES))], where, "")
        if not isinstance(r, Struct) or r.cls != "std::optional" or "has" not in r.fields:
            rep.und("verdict", where, "answer " + vkey(r)[:80])
            continue
        equal(rep, I, st, r.fields["has"], TRUE if ids else FALSE, "verdict", where, "a cut exactly when a negative cycle is found")
        if not ids or r.fields["has"] is FALSE or r.fields["has"].key == FALSE.key:
            continue
        equal(rep, I, st, O.comp(r, "1"), -sum((ev(i) for i in ids), ZERO), "valid-cut", where, "offset: minus the cycle's total")
        equal(rep, I, st, O.comp(r, "0"), -sum((gr(i) for i in ids), ZERO), "valid-cut", where, "direction: minus the cycle's total derivative")


def forwarded(rep, pr):
    where = "network_oracle::update"
    I, parts, lvs = net_parts(rep, pr, "network_update", where)
    for st, r in parts:
        up = [e for e in st.events if e.kind == "call" and e.name.endswith("Param::update")]
        if len(up) != 1:
            never(rep, I, st, "valid-cut", where, "the parameter is passed on %d times" % len(up))
            continue
        a = up[0].args[0]
        equal(rep, I, st, a[0] if isinstance(a, tuple) else a, sym("t"), "valid-cut", where, "the new parameter reaches the constraint function")


def ratio_oracle(rep, pr):
    """maximise x subject to sum (cost - x time) >= 0 on every cycle"""
    from . import oracle as O
    where = "cycle_ratio_oracle::operator()"
    I, parts, lvs = net_parts(rep, pr, "cycle_ratio", where)
    x, t = sym("x"), sym("t")
    of = lambda o, i: fun("of", sym(o), P(i))
    ev = lambda i: of("c", i) - of("m", i) * x
    for st, r in parts:
        ss = asked(st)
        with At(I, st):
            t1 = I.topoly(I.read(lvs["t"]))
        for ids, w in ss:
            check_weights(rep, I, st, w, [ev(i) for i in range(len(EDGES))], where, "")
        ids = ss[-1][0] if ss else None
        g, b, up = O.comp(r, "0", "0"), O.comp(r, "0", "1"), O.comp(r, "1")
        isup = up.key == TRUE.key
        fns = [(x * 0 - 1, (t1 if isup else t) - x, "target - x", None)]
        if ids:
            fns.append((sum((of("m", i) for i in ids), ZERO), -sum((ev(i) for i in ids), ZERO), "minus the cycle's total", ids))
        one_of(rep, I, st, where, (g, b), fns)
        if not ids and not isup:
            require(rep, I, st, le(x, t), "verdict", where, "a cut although no constraint is violated and the point improves")
        if isup:
            if ids is None:
                never(rep, I, st, "feasible", where, "improvement without a search for negative cycles")
            elif ids:
                never(rep, I, st, "feasible", where, "improvement although cycle %s is negative" % (ids,))
            else:
                for i, g in enumerate(ss[-1][1]):
                    equal(rep, I, st, g, ev(i), "feasible", where, "the search behind an improvement sees edge %d at the queried point" % i)
        O.target(rep, I, st, where, "", up, t1, t, [("the new target is the parameter", eqv(t1, x)), ("the old target was below it", lt(t, x))], [])


def one_of(rep, I, st, where, cut, fns):
    """the cut is value and gradient of one of the functions [(g, value, name, _)]"""
    g, b = cut
    for fg, fv, name, _ in fns:
        if peq(g, fg) and peq(b, fv):
            rep.ok("valid-cut", where, "value and gradient of " + name)
            return
    best = max(fns, key=lambda f: bool(peq(g, f[0])) + 2 * bool(peq(b, f[1])))
    equal(rep, I, st, b, best[1], "valid-cut", where, "offset is the value of " + best[2])
    equal(rep, I, st, g, best[0], "valid-cut", where, "direction is the gradient of " + best[2])


def scaling(rep, pr):
    """minimise x0 - x1 subject to x1 <= cost <= x0 in log scale on every cycle"""
    from . import oracle as O
    where = "optscaling_oracle::operator()"
    I, parts, lvs = net_parts(rep, pr, "optscaling", where, {"x": lambda I: O.vec("x", 2)})
    x0, x1 = O.ix("x", 2)
    t = sym("t")
    c = lambda i: fun("of", sym("c"), P(i))
    ev = lambda i: x0 - c(i) if EDGES[i][0] < EDGES[i][1] else c(i) - x1
    gr = lambda i: (ONE, ZERO) if EDGES[i][0] < EDGES[i][1] else (ZERO, -ONE)
    for st, r in parts:
        ss = asked(st)
        with At(I, st):
            t1 = I.topoly(I.read(lvs["t"]))
        for ids, w in ss:
            check_weights(rep, I, st, w, [ev(i) for i in range(len(EDGES))], where, "")
        ids = ss[-1][0] if ss else None
        up = O.comp(r, "1")
        isup = up.key == TRUE.key
        b = O.comp(r, "0", "1")
        g = tuple(O.elem(I, st, O.comp(r, "0", "0"), i) for i in range(2))
        fns = [((ONE, -ONE), x0 - x1 - (t1 if isup else t), "x0 - x1 - target")]
        if ids:
            fns.append((tuple(-sum((gr(i)[k] for i in ids), ZERO) for k in range(2)), -sum((ev(i) for i in ids), ZERO), "minus the cycle's total"))
        for fg, fv, name in fns:
            if peq(b, fv) and all(peq(p, q) for p, q in zip(g, fg)):
                rep.ok("valid-cut", where, "value and gradient of " + name)
                break
        else:
            fg, fv, name = max(fns, key=lambda f: 2 * bool(peq(b, f[1])) + sum(bool(peq(p, q)) for p, q in zip(g, f[0])) / 2)
            equal(rep, I, st, b, fv, "valid-cut", where, "offset is the value of " + name)
            for k in range(2):
                equal(rep, I, st, g[k], fg[k], "valid-cut", where, "component %d is the derivative of %s" % (k, name))
        if not ids and not isup:
            require(rep, I, st, le(t, x0 - x1), "verdict", where, "a cut although no constraint is violated and the point improves")
        if isup:
            if ids is None:
                never(rep, I, st, "feasible", where, "improvement without a search for negative cycles")
            elif ids:
                never(rep, I, st, "feasible", where, "improvement although cycle %s is negative" % (ids,))
            else:
                for i, g in enumerate(ss[-1][1]):
                    equal(rep, I, st, g, ev(i), "feasible", where, "the search behind an improvement sees edge %d at the queried point" % i)
        O.target(rep, I, st, where, "", up, t1, t, [("the new target is the ratio attained", eqv(t1, x0 - x1)), ("the old target was above it", lt(x0 - x1, t))], [])


def oracles(rep):
    pr = prog(rep)
    section(rep, "network_oracle::operator()", network, rep, pr, "network", 0)
    section(rep, "network_oracle::operator()", network, rep, pr, "network_again", 1)
    section(rep, "network_oracle::update", forwarded, rep, pr)
    section(rep, "cycle_ratio_oracle::operator()", ratio_oracle, rep, pr)
    section(rep, "optscaling_oracle::operator()", scaling, rep, pr)


"""Signed-digit conversion: the digit recurrence of both encoders (remainder
invariant, weights, adjacency, digit budget, termination) and the decoder's
positional evaluation."""
from engine import frontend
from engine.harness import *
from engine.poly import P, ZERO, ONE, fun, Poly, Undecided, subst, atoms_of, pow2, affine_in
from engine.values import *

UNITS = ["lib/src/csd.cpp"]
DIGIT = {48: 0, 43: 1, 45: -1}
DOT = 46


def chars(s):
    out = []
    for p in s.parts:
        if isinstance(p, Poly) and p.const() is not None:
            p = int(p.const())
        out.append(p)
    return out


class Group:
    """one summarised conversion loop (entered in one particular way)"""

    def __init__(self, rep, I, info, fixed, w, args, entry):
        self.rep, self.I, self.info, self.fixed, self.w, self.args = rep, I, info, fixed, w, args
        self.entry = entry
        self.S = self.R = self.C = None
        for key, (loc, kind, init) in info.mods.items():
            if kind != "scalar" or key in info.closed:
                continue
            if isinstance(init, Str):
                if self.S:
                    raise Undecided("two strings are built in the loop")
                self.S = (key, loc, init)
            elif isinstance(init, Poly) and isinstance(info.phis[key], Poly):
                t = loc.root.split(":", 1)[-1] if not loc.path else "?"
                if peq(init, args[0]):
                    self.R = (key, loc, init)
                elif fixed and t[:1] in "iu" and (peq(init, args[1]) or init.const() == 0):
                    if self.C:
                        raise Undecided("two digit counters")
                    self.C = (key, loc, init)
                else:
                    raise Undecided("unrecognised loop state %s" % key)
            else:
                raise Undecided("unrecognised loop state %s" % key)
        if self.S is None or self.R is None:
            raise Undecided("the loop does not build a string from a remainder")
        self.k = info.k
        self.rphi = info.phis[self.R[0]].as_atom()
        self.sphi = info.phis[self.S[0]].parts[0]
        self.iters = [(s, None) for s, _ in info.back] + [(s, kd) for s, kd in info.exits if self.full(s, kd)]

    def full(self, st, kd):
        """does the loop end within an iteration (after changing something)?"""
        if kd[0] not in ("rot", "break"):
            return False
        with At(self.I, st):
            return any(vkey(self.I.read(x[1])) != vkey(self.info.phis[x[0]]) for x in (self.S, self.R, self.C) if x)

    def point(self):
        """index of the iteration that emits the point"""
        K = None
        for st, _ in self.iters:
            if DOT not in self.added(st):
                continue
            for c in st.pc:
                if c.kind == "sg" and c.b == frozenset((0,)):
                    af = affine_in(c.a, self.k.as_atom())
                    if af and af[0] and self.rphi not in atoms_of(c.a):
                        v = -af[1] * (1 / af[0])
                        if K is not None and not peq(K, v):
                            raise Undecided("two places for the point")
                        K = v
        return K

    def added(self, st):
        with At(self.I, st):
            v = self.I.read(self.S[1])
        if not isinstance(v, Str) or not v.parts or vkey(v.parts[0]) != vkey(self.sphi):
            raise Undecided("string not extended at the end")
        return chars(v)[1:]

    def scaled(self, st, K):
        """the partition with the remainder expressed in units of the weight
        2^(K-k) of the previous position: returns (state, x, remainder')"""
        I = self.I
        x = sym("x")
        W = pow2(K - self.k)
        mp = {self.rphi: x * W}
        ns = st.clone()
        ns.signs, ns.pc = {}, []
        ns.ge = [q for q in ns.ge if self.rphi not in atoms_of(q)]
        ns.gt = [q for q in ns.gt if self.rphi not in atoms_of(q)]
        ns.eqs = [q for q in ns.eqs if self.rphi not in atoms_of(q)]
        with At(I, st):
            r2 = I.topoly(I.read(self.R[1]))
        r2 = subst(r2, mp) / W
        lits = []
        for c in st.pc:
            c = c.subst(mp)
            if c.kind == "sg":
                q = c.a / W
                if not any(a.kind == "pow2" for a in atoms_of(q)) and q.key != c.a.key and x.as_atom() in atoms_of(q):
                    c = sign(q, c.b)
            lits.append(c)
        return ns, x, r2, lits

    def iteration(self, st, kd, K):
        rep, I, w = self.rep, self.I, self.w
        ad = self.added(st)
        ds = [c for c in ad if c != DOT]
        ns, x, r2, lits = self.scaled(st, K)
        inv = [le(x, P("2/3")), le(P("-2/3"), x)]
        cphi = cval = None
        if self.C:
            cphi = self.info.phis[self.C[0]]
            with At(I, st):
                cval = I.topoly(I.read(self.C[1]))
            left = cphi if peq(self.C[2], self.args[1]) else self.args[1] - cphi
            left2 = cval if peq(self.C[2], self.args[1]) else self.args[1] - cval
            inv.append(le(0, left))
            inv.append(b_or(ne(left, 0), eqv(x, 0)))
        with At(I, ns):
            try:
                for c in lits + inv:
                    if I.known(c) is False:
                        return
                    I.assume(c)
                if self.C and I.known(eqv(left, 0)) is True:
                    I.assume(eqv(x, 0))
                    for c in lits:
                        if I.known(c.subst({x.as_atom(): ZERO})) is False:
                            return
            except AbortPath:
                return
            ns = I.st.clone()
        ns.pc = lits + inv
        d = DIGIT.get(ds[0]) if len(ds) == 1 else None
        if d is None:
            never(rep, I, ns, "one-digit", w, "an iteration appends exactly one of the digits + - 0 (appended %s)" % (ad,))
            return
        at = eqv(self.k, K)
        if DOT in ad:
            require(rep, I, ns, at if ad[0] == DOT and ad.count(DOT) == 1 else FALSE, "point", w,
                    "the point is appended before the first digit of weight 1/2, once")
        else:
            require(rep, I, ns, b_not(at), "point", w, "the point is not missing at its position")
        if any(e.kind == "wrap" for e in st.events):
            never(rep, I, ns, "count", w, "the digit budget is not decremented below zero")
            return
        done = FALSE
        if self.C:
            equal(rep, I, ns, left2, left - (1 if d else 0), "count", w, "a nonzero digit uses exactly one of the budget, a zero none")
            done = eqv(left2, 0)
            require(rep, I, ns, b_or(b_not(done), eqv(r2, 0)), "spent", w,
                    "the remainder is dropped as soon as the budget is used up")
        half = P("1/2")
        step = x - half * d
        if peq(r2, step):
            rep.ok("weight", w, "digit %+d subtracts its weight 2^(K-k-1)" % d)
        else:
            require(rep, I, ns, b_or(eqv(r2, step), b_and(done, eqv(r2, 0))), "weight", w,
                    "digit %+d subtracts %+d * 2^(K-k-1) from the remainder" % (d, d))
        ex = [b_not(done)] if self.C and d else []
        require(rep, I, ns, b_and(le(step, P("1/3")), le(P("-1/3"), step)), "bound", w,
                "the new remainder is at most two thirds of the next weight")
        if d:
            require(rep, I, ns, lt(P("1/3"), x) if d > 0 else lt(x, P("-1/3")), "digit", w,
                    "a nonzero digit is emitted only for a remainder beyond two thirds of its weight, of its sign")
            require(rep, I, ns, b_and(le(step, P("1/6")), le(P("-1/6"), step)), "nonadjacent", w,
                    "after a nonzero digit the remainder is too small for another one")
        else:
            require(rep, I, ns, b_and(le(x, P("1/3")), le(P("-1/3"), x)), "zero", w,
                    "a zero digit is emitted only for a remainder within two thirds of its weight")
        if self.C and kd is None:
            # liveness: after the point the loop only goes on while there is
            # budget and remainder (which then cannot stay below its weight)
            require(rep, I, ns, b_or(lt(self.k, K), b_and(lt(0, left), ne(x, 0))), "terminates", w,
                    "past the point the loop continues only with budget and remainder left", )

    def start(self, K):
        rep, I, w = self.rep, self.I, self.w
        st = self.entry.clone()
        ini = chars(self.S[2])
        if all(c == 48 for c in ini):
            rep.ok("start", w, "the string starts without digits or point")
        else:
            rep.bad("start", w, "the string starts with %s" % (ini,))
        y = self.args[0]
        facts = []
        for a in sorted(atoms_of(K) | {a for c in st.pc for q in c.polys() for a in atoms_of(q)}, key=lambda z: z.key):
            if a.kind == "f" and a.args[0] == "ceil":
                arg = a.args[1][0].as_atom()
                if arg is not None and arg.kind == "f" and arg.args[0] == "log2":
                    facts.append(le(arg.args[1][0], pow2(P(a))))
                    facts.append(le(P(arg), P(a)))
                    with At(I, st):
                        if I.known(lt(1, arg.args[1][0])):
                            facts.append(lt(0, P(arg)))
                    with At(I, st):
                        z = I.known(eqv(P(a), 0))
                    if z is True:
                        facts.append(le(arg.args[1][0], 1))
        b = fun("abs", y)
        try:
            with At(I, st):
                for f in facts:
                    I.assume(f)
                st = I.st.clone()
        except AbortPath:
            return False
        st.pc = [c for c in st.pc if not phis_in(c)] + facts
        require(rep, I, st, le(b * 3, pow2(K) * 2), "entry", w, "the value is at most two thirds of the weight above the first digit")
        require(rep, I, st, le(0, K), "entry", w, "the point does not come before the first digit")
        if self.C:
            left = self.args[1]
            require(rep, I, st, b_or(ne(left, 0), eqv(y, 0)), "spent", w, "an empty budget is not used")
        return True

    def run(self):
        rep, I, w = self.rep, self.I, self.w
        K = self.point()
        if K is None:
            raise Undecided("no iteration appends the point")
        if not self.start(K):
            return None
        for st, kd in self.iters:
            self.iteration(st, kd, K)
        return K


def conv(rep, pr, name, fixed):
    fs = [f for f in pr.fns.values() if f["name"] == name]
    if not fs:
        raise Broken("function %s" % name)
    f = fs[0]
    w = "%s:%d" % (name, f["line"])
    a = [sym("num"), sym("count" if fixed else "places")]
    aff.INT.add(a[1].key.strip("{}").replace("1*", ""))
    ps = [p["n"] for p in f["params"]]
    cfg = {"wrap": True, "free_phi": True}
    if fixed:
        aff.NONNEG.add("count")
    else:
        cfg["assume_ge"] = [a[1]]
    I, parts, _, _ = analyse(pr, f, cfg, rep=rep, args=dict(zip(ps, a)))
    groups = {}
    loops = 0
    for st, k in parts:
        if k[0] != "ret":
            if k[0] == "undecided":
                rep.und("summary", w, "partition not summarised: %s" % (k[1:],))
            else:
                rep.bad("summary", w, "partition ends with %s" % k[0])
            continue
        try:
            if not st.loops:
                ns = st.clone()
                z = isinstance(k[1], Str) and chars(k[1]) == [48]
                if not z:
                    rep.und("zero", w, "returns %s without a loop" % vkey(k[1])[:60])
                    continue
                cond = b_or(eqv(a[0], 0), eqv(a[1], 0)) if fixed else eqv(a[0], 0)
                require(rep, I, ns, cond, "zero", w, "the constant \"0\" stands for zero%s" % (" or an empty budget" if fixed else ""))
                continue
            if len(st.loops) != 1:
                raise Undecided("more than one loop")
            info = st.loops[0]
            if id(info) not in groups:
                groups[id(info)] = None
                ent = st.clone()
                ent.pc = [c for c in st.pc if not phis_in(c)]
                g = Group(rep, I, info, fixed, w, a, ent)
                groups[id(info)] = (g, g.run())
                loops += 1
            if groups[id(info)] is None:
                continue
            g, K = groups[id(info)]
            if K is None:
                rep.ok("entry", w, "infeasible entry")
                continue
            res(rep, I, st, k[1], g, K, fixed, w, a)
        except Undecided as e:
            rep.und("summary", w, str(e))
    if not loops:
        rep.und("summary", w, "no conversion loop")


def res(rep, I, st, v, g, K, fixed, w, a):
    """what is returned, and when the loop stops"""
    info = g.info
    if not isinstance(v, Str) or not v.parts:
        raise Undecided("result is not the built string")
    base = v.parts[0].as_atom() if isinstance(v.parts[0], Poly) else None
    if base is None or str(base.args[0]) != str(g.sphi.as_atom().args[0]):
        raise Undecided("result is not the built string")
    rotated = g.full(st if not hasattr(info, "chosen") else info.exits[info.chosen][0], info.exit_kind)
    if not rotated:
        if len(v.parts) == 1:
            rep.ok("result", w, "the built string is returned")
        else:
            rep.bad("result", w, "%s is appended after the loop" % (chars(v)[1:],))
    kx = base.args[1][-1]
    if rotated:
        kx = kx + 1
    if not fixed:
        if info.trip is None:
            raise Undecided("number of digits has no closed form")
        require(rep, I, st, eqv(kx, K + a[1]), "places", w, "exactly the requested number of places is produced")
        return
    ex = info.exits[info.chosen][0] if hasattr(info, "chosen") else st
    for ex, kd in info.exits:
        r = g.scaled(ex, K)
        ns, x, r2, lits = r
        cphi = info.phis[g.C[0]]
        down = peq(g.C[2], a[1])
        left = cphi if down else a[1] - cphi
        with At(I, ex):
            cv = I.topoly(I.read(g.C[1]))
        l2 = cv if down else a[1] - cv
        ns = ns.clone()
        inv = [le(0, left), b_or(ne(left, 0), eqv(x, 0)), le(x, P("2/3")), le(P("-2/3"), x)]
        with At(I, ns):
            dead = False
            try:
                for c in lits + inv:
                    I.assume(c)
            except AbortPath:
                dead = True
            ns = I.st.clone()
        if dead:
            continue
        ns.pc = lits + inv
        kk = g.k + (1 if g.full(ex, kd) else 0)
        require(rep, I, ns, le(K, kk), "complete", w, "all positions above the point are written")
        require(rep, I, ns, b_or(eqv(l2, 0), eqv(r2, 0)), "stop", w,
                "the loop ends only when the budget is used up or nothing remains")


def decode(rep, pr):
    fs = [f for f in pr.fns.values() if f["name"] == "to_decimal"]
    if not fs:
        raise Broken("function to_decimal")
    f = fs[0]
    w = "to_decimal:%d" % f["line"]
    I, parts, _, _ = analyse(pr, f, {"wrap": True, "free_phi": True}, rep=rep, args={f["params"][0]["n"]: sym("s")})
    done = {}
    for st, k in parts:
        if k[0] != "ret":
            rep.und("summary", w, "partition not summarised: %s" % (k[1:],))
            continue
        try:
            if len(st.loops) != 1:
                raise Undecided("expected one loop over the characters")
            info = st.loops[0]
            if id(info) not in done:
                done[id(info)] = None
                done[id(info)] = chars_loop(rep, I, info, w)
            if done[id(info)] is None:
                continue
            acc, pos, c = done[id(info)]
            kx = info.kexit
            last = {info.k.as_atom(): kx}
            A, p0 = subst(acc, last), pos[1]
            p = subst(pos[0], last)
            v = I.topoly(k[1])
            n = fun("len", sym("s"))
            equal(rep, I, st, kx, n, "all-characters", w, "every character is read")
            inr = [b_or(eqv(p, p0), b_and(le(p - c, n - 1), le(0, p - c)))]
            if p0.const() is not None and c.const() is not None and p0.const() == 0:
                inr.append(le(p, n))
            # no point so far <=> the position still has its initial value
            require(rep, I, st, b_or(b_not(eqv(p, p0)), eqv(v, A)), "scale", w, "without a point the digits are units", extra=inr)
            ns = st.clone()
            scaled = v * pow2(n - 1 - (p - c))
            if peq(scaled, A):
                rep.ok("scale", w, "the value is divided by 2^(digits after the point)")
            else:
                require(rep, I, ns, b_or(eqv(p, p0), eqv(scaled, A)), "scale", w,
                        "with a point the value is divided by 2^(digits after the point)", extra=inr)
        except Undecided as e:
            rep.und("summary", w, str(e))


def chars_loop(rep, I, info, w):
    acc = pos = None
    for key, (loc, kind, init) in info.mods.items():
        if key in info.closed or kind != "scalar":
            continue
        t = loc.root.split(":", 1)[-1]
        if t == "f64":
            if acc:
                raise Undecided("two accumulators")
            acc = (info.phis[key], loc, init)
        elif t[:1] in "iu":
            if pos:
                raise Undecided("two positions")
            pos = (info.phis[key], loc, init)
        else:
            raise Undecided("unrecognised loop state %s" % key)
    if not acc or not pos:
        raise Undecided("accumulator or position not found")
    ch = None
    for st, _ in info.back:
        for b in st.pc:
            for q in b.polys():
                for a in atoms_of(q):
                    if a.kind == "f" and a.args[0] != "len" and len(a.args[1]) and any(peq(z, info.k) for z in a.args[1] if isinstance(z, Poly)) \
                            and "phi" not in str(a.args[0]):
                        if ch is not None and ch.as_atom() is not a and ch.key != P(a).key:
                            raise Undecided("several characters are read per iteration")
                        ch = P(a)
    if ch is None:
        raise Undecided("the character is not examined")
    equal(rep, I, info.entry, acc[2], ZERO, "start", w, "the value starts at zero")
    c = None
    cases = [(48, 0), (43, 1), (45, -1), (DOT, None), (None, None)]
    for st, _ in info.back:
        with At(I, st):
            a2, p2 = I.topoly(I.read(acc[1])), I.topoly(I.read(pos[1]))
        for code, d in cases:
            cond = eqv(ch, code) if code else b_and(*[ne(ch, x) for x in (48, 43, 45, DOT)])
            with At(I, st):
                try:
                    if I.known(cond) is False:
                        continue
                except AbortPath:
                    continue
            name = "'%c'" % code if code else "any other character"
            if d is not None:
                equal(rep, I, st, a2, acc[0] * 2 + d, "digit", w, "%s doubles the value and adds %d" % (name, d), extra=[cond])
            else:
                equal(rep, I, st, a2, acc[0], "digit", w, "%s leaves the value" % name, extra=[cond])
            if code == DOT:
                cc = p2 - info.k
                if peq(p2, pos[0]):
                    never(rep, I, st, "point", w, "the point is recorded", extra=[cond])
                elif cc.const() is None:
                    rep.und("point", w, "position of the point is %s" % p2)
                else:
                    c = cc
                    require(rep, I, st, ne(p2, pos[2]), "point", w, "a point at any position is distinguished from no point", extra=[cond, le(0, info.k)])
            else:
                equal(rep, I, st, p2, pos[0], "point", w, "%s does not move the point" % name, extra=[cond])
    if c is None:
        raise Undecided("no partition for the point")
    return acc[0], (pos[0], pos[2]), c


def p18(rep):
    pr = frontend.load(UNITS)
    rep.use(pr)
    section(rep, "to_csd", conv, rep, pr, "to_csd", False)
    section(rep, "to_csdfixed", conv, rep, pr, "to_csdfixed", True)
    section(rep, "to_decimal", decode, rep, pr)

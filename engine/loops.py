"""Loop summarisation: one generic iteration kappa over phi-symbols for every
location the body may modify, closed forms of the recurrences (constants,
induction variables, sum reductions, one-step shifts, geometric), trip count
from the exit literal, element writes at iteration-dependent indices recorded
as a time-stamped access log."""
from .poly import Poly, P, ZERO, ONE, atom, fun, sym, subst, sum_over, pow2, atoms_of, affine_in, eq as peq, Undecided
from .values import *
from . import values as V
from . import aff
from .interp import (LoopInfo, Event, BreakX, ContinueX, ReturnX, ThrowX, AbortPath, subst_val, Access, Ref, LV)


def ltype(lv):
    for s in reversed(lv.path):
        if s[0] == "f":
            return s[2] or "?"
        return "?"
    return lv.root.split(":", 1)[1] if ":" in lv.root else "?"


def fprefix(lv):
    out = []
    for s in lv.path:
        if s[0] != "f":
            return LV(lv.root, out), s
        out.append(s)
    return LV(lv.root, out), None


def read_raw(st, lv, I):
    saved = I.st
    I.st = st
    try:
        v = st.store[lv.root]
        for s in lv.path:
            v = I.step_read(v, s)
        return v
    finally:
        I.st = saved


def write_raw(st, lv, val, I):
    saved = I.st
    I.st = st
    try:
        st.store[lv.root] = I.step_write(st.store[lv.root], lv.path, val)
    finally:
        I.st = saved


class Fork(Exception):
    pass


class NoFork:
    def choose(self, n):
        raise Fork()


class Loop:
    def __init__(self, I, node, fr):
        self.I, self.node, self.fr = I, node, fr

    def phi(self, loc, v, key):
        I = self.I
        name = "phi%s:%s" % (self.lid, key)
        if isinstance(v, Poly):
            t = ltype(loc)
            if (t[:1] in "iu" and t[1:].isdigit()) or t.startswith("enum") or t == "char":
                aff.INTF.add(name)
                if t[0] == "u":
                    aff.NONNEG.add(name)
            return fun(name, self.k)
        if isinstance(v, Bool):
            aff.INTF.add("b?" + name)
            return ne(fun("b?" + name, self.k), 0)
        if isinstance(v, Arr):
            k = self.k
            return Arr(v.rank, v.shape, lambda ix, ctx: fun(name, k, *ix), "%s(%s)" % (name, k.key))
        if isinstance(v, Struct):
            return Struct(v.cls, fun(name, self.k))
        if isinstance(v, MapV):
            return MapV(fun(name, self.k))
        if isinstance(v, Seq):
            return Seq(fun(name, self.k))
        if isinstance(v, Str):
            return Str([fun(name, self.k)])
        raise Undecided("loop-carried %s" % type(v).__name__)

    def has_phi(self, p):
        pre = "phi%s:" % self.lid
        for a in atoms_of(p):
            if a.kind == "f" and (str(a.args[0]).startswith(pre) or str(a.args[0]).startswith("b?" + pre)):
                return True
        return False

    def variant(self, idx):
        for p in idx:
            for a in p.syms():
                if a.key.startswith("k~") and a.key not in self.outer:
                    return True
        return False

    def setup(self, closed):
        st = self.entry.clone()
        for key, (loc, kind, val) in self.mods.items():
            if kind == "traced":
                v = read_raw(st, loc, self.I)
                if isinstance(v, TArr) and v.ts is None:
                    continue
                t = TArr("%s/%s" % (self.lid, key), v)
                t.ts = None
                st.tarr[t.tid] = v
                write_raw(st, loc, t, self.I)
            elif key in closed:
                write_raw(st, loc, closed[key], self.I)
            else:
                write_raw(st, loc, self.phis[key], self.I)
        return st

    def add_mod(self, lv):
        """returns True when the set of modified locations grew"""
        if lv.root not in self.entry.store:
            return False
        loc, step = fprefix(lv)
        if step is not None and step[0] == "i":
            v = read_raw(self.entry, loc, self.I)
            if self.I_is_traced(loc):
                return False
            if any(self.covers(l, loc) for l, kind, _ in self.mods.values() if kind != "cell"):
                return False
            if self.variant(step[1]):
                for k in [k for k, (l, kind, _) in self.mods.items() if kind != "traced" and self.covers(loc, l)]:
                    del self.mods[k]
                    self.phis.pop(k, None)
                self.mods[loc.key] = (loc, "traced", None)
                return True
            if loc.key in self.mods:
                return False
            cell = LV(loc.root, loc.path + (("i", tuple(step[1])),))
            if cell.key in self.mods:
                return False
            cv = read_raw(self.entry, cell, self.I)
            self.mods[cell.key] = (cell, "scalar", cv)
            self.phis[cell.key] = self.phi(LV("x:f64"), cv, cell.key)
            return True
        for l, kind, _ in self.mods.values():
            if self.covers(l, loc):
                if kind == "traced":
                    if step is None:
                        raise Undecided("array both replaced and element-written in a loop")
                return False
        try:
            v = read_raw(self.entry, loc, self.I)
        except Undecided:
            v = None
        if isinstance(v, Ref):
            raise Undecided("loop-carried reference")
        if isinstance(v, TArr) and v.ts is None:
            raise Undecided("traced array replaced in a loop")
        if v is None or (isinstance(v, Struct) and v.name is None and not v.fields):
            # declared outside, uninitialised: first value comes from the body
            v = fun("uninit", sym(loc.key))
        for k in [k for k, (l, kind, _) in self.mods.items() if self.covers(loc, l)]:
            del self.mods[k]
            self.phis.pop(k, None)
        if isinstance(v, Struct) and v.fields and v.name is None and step is None:
            grew = False
            for f, x in v.fields.items():
                t = {Bool: "bool"}.get(type(x), "?")
                grew |= self.add_mod(loc.sub("f", f, self.ftype(v.cls, f)))
            return grew
        self.mods[loc.key] = (loc, "scalar", v)
        self.phis[loc.key] = self.phi(loc, v, loc.key)
        return True

    def ftype(self, cls, f):
        r = self.I.prog.records.get(cls)
        if r:
            for x in r["fields"]:
                if x["n"] == f:
                    return x["t"]
        return "?"

    def I_is_traced(self, loc):
        try:
            v = read_raw(self.entry, loc, self.I)
        except Undecided:
            return False
        return isinstance(v, TArr) and v.ts is None

    @staticmethod
    def covers(a, b):
        """location a is a prefix of location b"""
        return a.root == b.root and len(a.path) <= len(b.path) and all(
            vkey(x) == vkey(y) for x, y in zip(a.path, b.path))

    # -- recurrences ------------------------------------------------------------
    def close(self, key):
        loc, kind, init = self.mods[key]
        phi = self.phis[key]
        nx = []
        for st, _ in self.back:
            v = read_raw(st, loc, self.I)
            if not any(vkey(v) == vkey(w) for w in nx):
                nx.append(v)
        if not nx:
            return init
        return self.close_val(init, phi, nx, loc)

    def close_val(self, init, phi, nx, loc):
        if isinstance(phi, Poly):
            if not all(isinstance(v, Poly) for v in nx):
                return None
            if not all(peq(v, nx[0]) for v in nx[1:]):
                return None
            return self.close_poly(init, phi, nx[0])
        if isinstance(phi, Bool):
            if not all(isinstance(v, Bool) for v in nx):
                return None
            if any(v.key != nx[0].key for v in nx[1:]):
                return None
            n = nx[0]
            if n.key == phi.key:
                return init
            if n.key == init.key and not n.symset():
                return init
            if any(self.has_phi(p) for p in n.polys()):
                return None
            ka = self.k.as_atom()
            sh = n.subst({ka: self.k - 1})
            if n.subst({ka: P(-1)}).key == init.key:
                return sh
            return V.ite(eqv(self.k, 0), init, sh)
        if isinstance(phi, Arr):
            if phi.rank is None:
                return init if all(v.key == phi.key for v in nx) else None
            ph = tuple(sym("#e%d" % d) for d in range(phi.rank))
            saved = self.I.st
            self.I.st = self.entry.clone()
            try:
                i0 = init.elem(ph, self.I)
                p0 = phi.elem(ph, self.I)
                ns = [v.elem(ph, self.I) for v in nx if isinstance(v, Arr) and (v.rank == phi.rank)]
            finally:
                self.I.st = saved
            if len(ns) != len(nx) or not all(peq(v, ns[0]) for v in ns[1:]):
                return None
            c = self.close_poly(i0, p0, ns[0])
            if c is None:
                return None
            phs = [p.as_atom() for p in ph]
            return Arr(phi.rank, phi.shape, lambda ix, ctx: subst(c, dict(zip(phs, [P(i) for i in ix]))),
                       "closed(%s)" % c.key)
        if all(vkey(v) == vkey(phi) for v in nx):
            return init
        return None

    def close_poly(self, init, phi, n):
        if peq(n, phi):
            return init
        d = n - phi
        ka = self.k.as_atom()
        if not self.has_phi(d):
            kk = atom("s", "k~%s'" % self.lid)
            return init + sum_over(kk, 0, self.k, subst(d, {ka: P(kk)}))
        if not self.has_phi(n):
            if peq(subst(n, {ka: P(-1)}), init):
                return subst(n, {ka: self.k - 1})
            return V.ite(eqv(self.k, 0), init, subst(n, {ka: self.k - 1}))
        q = n / phi
        c = q.const()
        if c is not None and c in (2, P("1/2").const() if False else None):
            return init * pow2(self.k)
        if c is not None:
            from fractions import Fraction
            if c == 2:
                return init * pow2(self.k)
            if c == Fraction(1, 2):
                return init * pow2(-self.k)
        return None

    def common(self):
        """path literals without carried values shared by all back partitions"""
        out = None
        for st, _ in self.back:
            ls = {}
            for b in st.pc:
                if b.kind == "sg" and not self.has_phi(b.a) and self.k.as_atom() in b.a.syms():
                    ls[b.key] = b
            out = ls if out is None else {k: v for k, v in out.items() if k in ls}
        return list((out or {}).values())

    def stops(self, cond, f2):
        """the loop test, evaluated at the end of the iteration, is known to
        fail without splitting the partition"""
        I = self.I
        saved, ch, stack = I.st, I.ch, list(I.stack)
        I.st = saved.clone()
        I.ch = NoFork()
        try:
            r = I.known(I.tobool(I.rv(cond, f2))) is False
        except (Fork, Undecided, AbortPath, ThrowX):
            r = False
        I.ch, I.stack = ch, stack
        if not r:
            I.st = saved
        return r

    # -- main ------------------------------------------------------------------------
    def run(self, rng, cond, inc, body, post, cv):
        I, node, fr = self.I, self.node, self.fr
        st0 = I.st
        I.stats["loops"] += 1
        st0.n += 1
        st0.clock += 1
        self.lid = "L%d" % st0.n
        self.k = sym("k~" + self.lid)
        ka = self.k.as_atom()
        self.outer = set(p.key.strip("{}").replace("1*", "") for p in st0.prefix if isinstance(p, Poly))
        self.outer = set()
        for p in st0.prefix:
            if isinstance(p, Poly):
                for a in p.syms():
                    self.outer.add(a.key)
        for c in list(st0.ge) + list(st0.gt):
            for a in c.syms():
                if a.key.startswith("k~"):
                    self.outer.add(a.key)
        e = st0.clone()
        e.writes, e.events, e.loops, e.log, e.pc = [], [], [], [], []
        e.prefix = st0.prefix + (st0.clock, self.k)
        e.clock = 0
        e.ge.append(self.k)
        self.entry = e
        self.mods, self.phis = {}, {}
        trip = None
        rv = None
        if rng is not None:
            rlv, var = rng
            trip, getter = I.intr.range_info(rlv, var)

        def one_iter():
            f2 = dict(fr, env=dict(fr["env"]))
            try:
                if rng is not None:
                    if trip is not None:
                        I.require(lt(self.k, trip))
                    x = getter(self.k)
                    if isinstance(x, LV) and not var.get("ref"):
                        x = I.read(x)
                    f2["env"][var["id"]] = x if isinstance(x, LV) else I.newroot(var["n"], x, var.get("t"))
                if cv:
                    I.ex(cv, f2)
                if cond is not None and not post:
                    if not I.decide(I.tobool(I.rv(cond, f2))):
                        return ("cond",)
                try:
                    I.ex(body, f2)
                except ContinueX:
                    pass
                if inc is not None:
                    I.ev(inc, f2)
                if post:
                    if not I.decide(I.tobool(I.rv(cond, f2))):
                        return ("cond",)
                elif cond is not None and cv is None and rng is None and self.stops(cond, f2):
                    # rotated test: an iteration after which the loop is known
                    # to stop is an exit of its own
                    return ("rot",)
                return ("back",)
            except BreakX:
                return ("break",)
            except ReturnX as r:
                return ("return", r.v)
            except ThrowX as x:
                return ("throw", x)

        closed = {}
        for rnd in range(24):
            st = self.setup(closed)
            parts = I.enumerate(st, one_iter)
            grew = False
            for s, kind in parts:
                if kind[0] != "back":
                    continue
                for w in s.writes:
                    grew |= self.add_mod(w)
            # element writes on exit partitions still need a traced array
            for s, kind in parts:
                if kind[0] == "back":
                    continue
                for w in s.writes:
                    loc, step = fprefix(w)
                    if step is not None and step[0] == "i" and w.root in e.store and self.variant(step[1]):
                        grew |= self.add_mod(w)
            if grew:
                closed = {k: v for k, v in closed.items() if k in self.mods}
                continue
            self.back = [(s, k) for s, k in parts if k[0] == "back"]
            new = 0
            for key, (loc, kind, init) in self.mods.items():
                if kind == "traced" or key in closed:
                    continue
                c = self.close(key)
                if c is not None:
                    closed[key] = c
                    new += 1
                    break
            if not new:
                break
        else:
            raise Undecided("loop summary does not stabilise")
        exits = [(s, k) for s, k in parts if k[0] != "back"]
        info = LoopInfo()
        info.lid, info.k, info.fn, info.line = self.lid, self.k, I.where()[0], node.get("l")
        info.phis, info.closed, info.back, info.entry, info.mods = self.phis, closed, self.back, st, self.mods
        info.node = node
        if rng is not None:
            s = self.setup(closed)
            exits.append((s, ("cond",)))
        # trip count
        info.trip = trip if rng is not None else None
        conds = [x for x in exits if x[1][0] == "cond"]
        if rng is None and len(conds) == 1 and len(conds[0][0].pc) == 1 and conds[0][0].pc[0].kind == "sg":
            info.trip = self.tripcount(conds[0][0].pc[0], st0)
        info.exits = exits
        if not exits:
            if self.back and not I.cfg.get("quiet_endless"):
                raise Undecided("a loop that never ends (%s:%s)" % (I.where()[0], node.get("l")))
            raise AbortPath()
        st0 = I.st
        i = I.ch.choose(len(exits)) if len(exits) > 1 else 0
        s, kind = exits[i]
        s = s.clone()
        info.chosen = i
        kx = self.k
        mp = {}
        if kind[0] == "cond" and info.trip is not None:
            if not self.I.decide(sign(info.trip, (0, 1))):
                info.trip = ZERO
            kx = info.trip
            mp = {ka: kx}
            if not kx.t:
                # zero trips: the phis are their initial values
                m0 = {}
                for key, ph in self.phis.items():
                    i0 = self.mods[key][2] if key in self.mods else None
                    a = ph.as_atom() if isinstance(ph, Poly) else None
                    if a is not None and isinstance(i0, Poly):
                        m0[a] = i0
                if m0:
                    s = self.subst_state(s, m0, e)
            s = self.subst_state(s, mp, e)
        else:
            if info.trip is not None and kind[0] != "cond":
                s.ge.append(info.trip - self.k - 1)
            elif info.trip is None:
                # the previous iteration went through a back partition
                lits = self.common()
                if lits:
                    keep = I.st
                    I.st = s
                    try:
                        if I.ch.choose(2) == 0:
                            I.assume_q(eqv(self.k, 0))
                        else:
                            I.assume_q(lt(0, self.k))
                            for b in lits:
                                I.assume_q(b.subst({ka: self.k - 1}))
                    finally:
                        I.st = keep
        # facts decided after the loop head (trip count sign) live in I.st
        for q in I.st.ge[len(e.ge) - 1:]:
            s.ge.append(q)
        for q in I.st.gt[len(e.gt):]:
            s.gt.append(q)
        for q in I.st.eqs[len(e.eqs):]:
            s.eqs.append(q)
        for kq, vq in I.st.signs.items():
            if kq not in s.signs:
                s.signs[kq] = vq
        exitpc = s.pc
        exitev = s.events
        info.exit_events = exitev
        info.exit_pc = exitpc
        info.exit_kind = kind
        info.kexit = kx
        s.pc = list(I.st.pc) + exitpc
        s.events = list(st0.events) + [Event("loop", self.lid, None, [], info, info.fn, info.line)] + exitev
        s.loops = list(st0.loops) + [info] + s.loops
        ws = list(st0.writes)
        for b, _ in self.back:
            ws += [w for w in b.writes if w.root in e.store]
        ws += [w for w in s.writes if w.root in e.store]
        s.writes = ws
        lg = list(st0.log)
        for b, _ in self.back:
            for a in b.log:
                lg.append(Access(a.tid, a.idx, a.val, a.ts, [(ka, ZERO, kx)] + a.rng, a.fn, a.line, a.pc + list(b.pc)))
        lg += s.log
        s.log = lg
        s.prefix, s.clock = st0.prefix, st0.clock + 1
        s.n = max(s.n, st0.n, max([b.n for b, _ in self.back] + [0]))
        I.st = s
        if kind[0] == "return":
            raise ReturnX(kind[1])
        if kind[0] == "throw":
            raise kind[1]

    def subst_state(self, s, mp, e):
        s.store = {r: (subst_val(v, mp)) for r, v in s.store.items()}
        sg = {}
        for k, (p, fs) in s.signs.items():
            if isinstance(p, Poly):
                q = subst(p, mp)
                if q.const() is None:
                    sg[q.key] = (q, fs)
            else:
                sg[k] = (p, fs)
        s.signs = sg
        s.ge = [subst(p, mp) for p in s.ge]
        s.gt = [subst(p, mp) for p in s.gt]
        s.eqs = [subst(p, mp) for p in s.eqs]
        s.ge = [p for p in s.ge if p.const() is None]
        s.gt = [p for p in s.gt if p.const() is None]
        s.eqs = [p for p in s.eqs if p.const() is None]
        s.pc = [subst_val(b, mp) for b in s.pc]
        s.events = [subst_val(x, mp) for x in s.events]
        s.log = [a.subst(mp) for a in s.log]
        return s

    def tripcount(self, lit, st0):
        I = self.I
        p, S = lit.a, lit.b
        ka = self.k.as_atom()
        af = affine_in(p, ka)
        if af is None or af[0] == 0:
            return None
        a, r = af
        if a < 0:
            a, r, S = -a, -r, frozenset(-x for x in S)
        r = r * (1 / a)
        a = 1
        if not aff.is_int_poly(r):
            return None
        if S == frozenset((0, 1)):
            K = -r
        elif S == frozenset((1,)):
            K = -r + 1
        elif S == frozenset((0,)):
            # an equality exit is reached only from below
            K = -r
            return K
        else:
            return None
        return K


def unroll(I, node, fr, rng, cond, inc, body, post, cv, limit):
    """execute a loop whose test is a constant at every iteration (the
    dimension was instantiated); False when the test is not a constant --
    the remaining iterations are then summarised"""
    trip = None
    if rng is not None:
        rlv, var = rng
        trip, getter = I.intr.range_info(rlv, var)
        trip = trip.const() if trip is not None else None
        if trip is None:
            return False
    elif cond is None and not I.cfg.get("fork_loops"):
        return False
    n = 0
    first = post
    while True:
        f2 = dict(fr, env=dict(fr["env"]))
        if rng is not None:
            if n >= trip:
                return True
        elif not first and cond is not None:
            saved, ch, stack = I.st, I.ch, list(I.stack)
            I.st = saved.clone()
            I.ch = NoFork()
            try:
                if cv:
                    I.ex(cv, f2)
                r = I.known(I.tobool(I.rv(cond, f2)))
            except (Fork, AbortPath, ThrowX):
                r = None
            finally:
                I.ch, I.stack = ch, stack
            if r is None and I.cfg.get("fork_loops"):
                # the test splits the partition, iteration by iteration
                I.st = saved
                if cv:
                    I.ex(cv, f2)
                r = I.decide(I.tobool(I.rv(cond, f2)))
            if r is None:
                I.st = saved
                return False
            if r is False:
                return True
        first = False
        n += 1
        if n > limit:
            raise Undecided("loop does not end within %d instantiated iterations" % limit)
        try:
            if rng is not None:
                x = getter(P(n - 1))
                if isinstance(x, LV) and not var.get("ref"):
                    x = I.read(x)
                f2["env"][var["id"]] = x if isinstance(x, LV) else I.newroot(var["n"], x, var.get("t"))
                if cv:
                    I.ex(cv, f2)
            I.ex(body, f2)
        except ContinueX:
            pass
        except BreakX:
            return True
        if inc is not None:
            I.ev(inc, f2)


def run(I, node, fr, rng, cond, inc, body, post, cv):
    lim = I.cfg.get("unroll")
    if lim and unroll(I, node, fr, rng, cond, inc, body, post, cv, lim):
        I.stats["loops"] += 1
        return
    Loop(I, node, fr).run(rng, cond, inc, body, post, cv)

"""Array dataflow: which write reaches a read.  Writes are the time-stamped
accesses recorded by the loop summaries (index functions and iteration domains
are affine); the last write before the read that touches the element is found
by exact affine reasoning, splitting the partition where it depends on the
element."""
from .poly import Poly, P, ZERO, ONE, atoms_of, affine_in, subst, sum_over, atom, Undecided, norm_scale, eq as peq
from . import poly, aff
from .values import *
from .interp import subst_val

BEFORE, AFTER, SAME = -1, 1, 0


class Resolver:
    def __init__(self, I, depth=40):
        self.I = I
        self.memo = {}
        self.depth = depth
        self.stack = []
        self.bound = set()
        self.outer = []

    def arrays(self):
        """tid -> initial array"""

    def dec(self, b):
        k = self.I.known(b)
        if k is not None:
            return k
        if self.bound and any(s in self.bound for p in b.polys() for s in p.syms()):
            raise Undecided("element of a sum reached by different writes")
        v = self.I.decide(b)
        for st in self.outer:
            cur, self.I.st = self.I.st, st
            try:
                self.I.assume(b if v else b_not(b))
            finally:
                self.I.st = cur
        return v

    # -- ordering -----------------------------------------------------------
    def cmp(self, t1, t2):
        """order of two time stamps; splits when it depends on the element"""
        I = self.I
        for x, y in zip(t1, t2):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return BEFORE if x < y else AFTER
                continue
            d = P(x) - P(y)
            c = d.const()
            if c is not None:
                if c:
                    return BEFORE if c < 0 else AFTER
                continue
            if self.dec(lt(d, 0)):
                return BEFORE
            if self.dec(lt(0, d)):
                return AFTER
        return SAME

    # -- reaching write -------------------------------------------------------
    def solve(self, a, idx):
        """(substitution for the iteration symbols, unresolved symbols, residual
        equations)"""
        ks = [k for k, lo, hi in a.rng]
        sol = {}
        eqs = [P(x) - P(y) for x, y in zip(a.idx, idx)]
        progress = True
        while progress:
            progress = False
            rest = []
            for e in eqs:
                e = subst(e, sol)
                hit = None
                free = [k for k in ks if k not in sol and k in e.syms()]
                if len(free) == 1:
                    af = affine_in(e, free[0])
                    if af and abs(af[0]) == 1:
                        hit = (free[0], -af[1] * (1 / af[0]))
                if hit:
                    sol[hit[0]] = hit[1]
                    sol = {k: subst(v, {hit[0]: hit[1]}) for k, v in sol.items()}
                    progress = True
                else:
                    rest.append(e)
            eqs = rest
        return sol, [k for k in ks if k not in sol], eqs

    def domain(self, a, sol):
        """conditions under which the (solved) access instance is executed"""
        cs = []
        for k, lo, hi in a.rng:
            v = sol.get(k)
            if v is None:
                continue
            cs.append(le(subst(lo, sol), v))
            cs.append(lt(v, subst(hi, sol)))
        for b in a.pc:
            b = subst_val(b, sol)
            if any(self.uses(p, [k for k, _, _ in a.rng if k not in sol]) for p in b.polys()):
                raise Undecided("conditional write inside an unresolved loop")
            cs.append(b)
        return cs

    @staticmethod
    def uses(p, ks):
        s = p.syms()
        return any(k in s for k in ks)

    def reach(self, tid, idx, ts):
        """the write reaching element idx at time ts: (access, substitution) or
        None when the initial value does"""
        I = self.I
        best = None
        for a in I.st.log:
            if a.tid != tid or len(a.idx) != len(idx):
                if a.tid == tid:
                    raise Undecided("rank of an element access")
                continue
            sol, free, eqs = self.solve(a, idx)
            ok = True
            for e in eqs:
                if self.uses(e, free):
                    raise Undecided("non-affine element access")
                k = I.known(eqv(e, 0))
                if k is False or (k is None and not self.dec(eqv(e, 0))):
                    ok = False
                    break
            if not ok:
                continue
            # quick refutations before splitting
            cs = self.domain(a, sol)
            if any(I.known(c) is False for c in cs):
                continue
            if free:
                inst = self.last_instance(a, sol, free, ts)
                if inst is None:
                    continue
                sol = inst
                cs = self.domain(a, sol)
                if any(I.known(c) is False for c in cs):
                    continue
            t = tuple(subst(x, sol) if isinstance(x, Poly) else x for x in a.ts)
            dead = False
            for c in cs:
                if not self.dec(c):
                    dead = True
                    break
            if dead:
                continue
            if self.cmp(t, ts) != BEFORE:
                continue
            if best is None or self.cmp(best[2], t) == BEFORE:
                best = (a, sol, t)
        return best

    def last_instance(self, a, sol, free, ts):
        """the innermost iteration symbol does not occur in the index: the last
        iteration before ts performs the reaching write"""
        if len(free) != 1 or free[0] is not a.rng[-1][0]:
            raise Undecided("element rewritten by an outer loop")
        k, lo, hi = a.rng[-1]
        lo, hi = subst(lo, sol), subst(hi, sol)
        t0 = tuple(subst(x, sol) if isinstance(x, Poly) else x for x in a.ts)
        # position of k in the stamp
        pos = [i for i, x in enumerate(a.ts) if isinstance(x, Poly) and x.as_atom() is k]
        if len(pos) != 1:
            raise Undecided("time stamp")
        c = self.cmp(t0[:pos[0]], ts[:pos[0]])
        if c == AFTER:
            return None
        s2 = dict(sol)
        if c == BEFORE or len(ts) <= pos[0]:
            if not self.dec(lt(lo, hi)):
                return None
            s2[k] = hi - 1
            return s2
        # the read happens inside the same loop instance
        kk = ts[pos[0]]
        after = self.cmp(t0[pos[0] + 1:], ts[pos[0] + 1:])
        v = kk if after == BEFORE else kk - 1
        if not self.dec(le(lo, v)):
            return None
        if not self.dec(lt(v, hi)):
            v = hi - 1
            if not self.dec(le(lo, v)):
                return None
        s2[k] = v
        return s2

    # -- values -----------------------------------------------------------------
    def init(self, tid, idx):
        v = self.I.st.tarr.get(tid)
        if v is None:
            raise Undecided("initial value of " + tid)
        return self.value(v.elem(idx, self.I))

    def read(self, tid, idx, ts):
        key = (tid, tuple(p.key for p in idx), tuple(getattr(t, "key", t) for t in ts))
        if key in self.stack or len(self.stack) > self.depth:
            raise Undecided("recurrent array element " + tid)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.stack.append(key)
        try:
            w = self.reach(tid, idx, ts)
            if w is None:
                r = self.init(tid, idx)
            else:
                a, sol, t = w
                r = self.value(subst(a.val, sol))
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def value(self, p):
        """rewrite every traced read in p"""
        if not any(a.kind == "rd" for a in atoms_of(p)):
            return p
        r = ZERO
        for m, c in p.t.items():
            q = P(c)
            for a, e in m:
                q = q * (self.atom(a) ** e)
            r = r + q
        return r

    def arg(self, x):
        if isinstance(x, Poly):
            return self.value(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, Bool):
            return self.cond(x)
        return x

    def cond(self, b):
        if b.kind == "sg":
            return sign(self.value(b.a), b.b)
        if b.kind == "and":
            return b_and(*[self.cond(x) for x in b.a])
        if b.kind == "or":
            return b_or(*[self.cond(x) for x in b.a])
        return b

    def atom(self, a):
        if not any(b.kind == "rd" for b in atoms_of(a)):
            return P(a)
        if a.kind == "rd":
            idx = tuple(self.value(x) for x in a.args[1])
            return self.read(a.args[0], idx, a.args[2])
        if a.kind == "f":
            return poly.rebuild_fun(a.args[0], tuple(self.arg(x) for x in a.args[1]))
        if a.kind == "sel":
            return poly.sel(a.args[0], tuple(self.value(x) for x in a.args[1]))
        if a.kind == "sqrt":
            return poly.sqrt(self.value(a.args[0]))
        if a.kind == "exp":
            return poly.exp(self.value(a.args[0]))
        if a.kind == "log":
            return poly.log(self.value(a.args[0]))
        if a.kind == "pow2":
            return poly.pow2(self.value(a.args[0]))
        if a.kind == "poly":
            return self.value(a.args[0])
        if a.kind == "ite":
            c = self.cond(a.args[0])
            k = self.I.known(c)
            if k is True:
                return self.value(a.args[1])
            if k is False:
                return self.value(a.args[2])
            return ite(c, self.value(a.args[1]), self.value(a.args[2]))
        if a.kind == "sum":
            rng, mono = poly._open(a)
            I = self.I
            saved, memo = I.st, self.memo
            I.st = I.st.clone()
            self.outer.append(saved)
            self.memo = dict(memo)
            new = set()
            try:
                nr = []
                for v, lo, hi in rng:
                    lo, hi = self.value(lo), self.value(hi)
                    nr.append((v, lo, hi))
                    new.add(v)
                    aff.INT.add(v.args[0])
                    I.st.ge.append(P(v) - lo)
                    I.st.ge.append(hi - 1 - P(v))
                self.bound |= new
                body = ONE
                for x, e in mono:
                    body = body * (self.atom(x) ** e)
            finally:
                I.st, self.memo = saved, memo
                self.outer.pop()
                self.bound -= new
            for v, lo, hi in reversed(nr):
                body = sum_over(v, lo, hi, body)
            return body
        raise Undecided("element read inside " + a.kind)

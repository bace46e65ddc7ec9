"""Abstract interpreter over the extracted program.

Domain: per-location values in the normal forms of poly.py/values.py, a
sign-set per branch condition, and affine facts.  Branches that the domain
cannot decide split the trace partition; loops are summarised (generic
iteration + closed forms of the recurrences, no unrolling); repository
functions are inlined, everything declared-only is an uninterpreted effect.
"""
from fractions import Fraction
from .poly import (Poly, Atom, P, atom, ZERO, ONE, sym, sel, fun, subst, sum_over, pow2, Undecided,
                   atoms_of, norm_scale, eq as peq, affine_in)
from . import poly, aff
from .values import *
from . import values as V


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class ThrowX(Exception):
    def __init__(self, what=None):
        self.what = what


class OutOfRange(ThrowX):
    """an element outside a container of known extent is used (cfg "bounds")"""


class AbortPath(Exception):
    pass


class Ref(Val):
    """reference-valued field / pointer"""

    def __init__(self, lv):
        self.lv = lv

    @property
    def key(self):
        return "&" + self.lv.key


class State:
    __slots__ = ("store", "signs", "ge", "gt", "eqs", "pc", "events", "loops", "writes", "log",
                 "prefix", "clock", "n", "tarr")

    def __init__(self):
        self.store = {}
        self.signs = {}
        self.ge, self.gt, self.eqs = [], [], []
        self.pc = []
        self.events = []
        self.loops = []
        self.writes = []
        self.log = []
        self.prefix = ()
        self.clock = 0
        self.n = 0
        self.tarr = {}

    def clone(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.signs = dict(self.signs)
        s.ge, s.gt, s.eqs = list(self.ge), list(self.gt), list(self.eqs)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.loops = list(self.loops)
        s.writes = list(self.writes)
        s.log = list(self.log)
        s.tarr = dict(self.tarr)
        s.prefix, s.clock, s.n = self.prefix, self.clock, self.n
        return s


class Chooser:
    def __init__(self, pre):
        self.pre = pre
        self.taken = []
        self.arity = []

    def choose(self, n):
        i = len(self.taken)
        c = self.pre[i] if i < len(self.pre) else 0
        self.taken.append(c)
        self.arity.append(n)
        return c


class Access:
    __slots__ = ("tid", "idx", "val", "ts", "rng", "fn", "line", "pc")

    def __init__(self, tid, idx, val, ts, rng, fn, line, pc):
        self.tid, self.idx, self.val, self.ts, self.rng = tid, idx, val, ts, rng
        self.fn, self.line, self.pc = fn, line, pc

    def subst(self, mp):
        return Access(self.tid, tuple(subst(i, mp) for i in self.idx), subst_val(self.val, mp),
                      tuple(subst(t, mp) if isinstance(t, Poly) else t for t in self.ts),
                      [(k, subst(lo, mp), subst(hi, mp)) for k, lo, hi in self.rng],
                      self.fn, self.line, [subst_val(b, mp) for b in self.pc])


class LoopInfo:
    def __init__(self):
        self.lid = self.fn = self.line = self.k = None
        self.phis = {}      # location -> phi value
        self.closed = {}    # location -> closed form
        self.inits = {}
        self.back = []      # list of (State, kind)
        self.exits = []
        self.trip = None
        self.entry = None
        self.start = 0


class Event:
    def __init__(self, kind, name, obj, args, val, fn, line, before=None):
        self.kind, self.name, self.obj, self.args, self.val = kind, name, obj, args, val
        self.fn, self.line, self.before = fn, line, before

    def __repr__(self):
        return "%s %s(%s)@%s" % (self.kind, self.name, ",".join(vkey(a) for a in self.args), self.line)


def subst_val(v, mp):
    if isinstance(v, Poly):
        return subst(v, mp)
    if isinstance(v, Bool):
        return v.subst(mp)
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, Struct):
        return Struct(v.cls, v.name, {k: subst_val(x, mp) for k, x in v.fields.items()})
    if isinstance(v, Seq):
        return Seq(subst_val(v.base, mp), [subst_val(x, mp) for x in v.items])
    if isinstance(v, MapV):
        return MapV(subst_val(v.base, mp), [(subst_val(a, mp), subst_val(b, mp)) for a, b in v.writes], v.empty)
    if isinstance(v, Str):
        return Str([subst_val(p, mp) if not isinstance(p, (int, str)) else p for p in v.parts])
    if isinstance(v, TArr):
        if v.ts is None:
            return v
        n = TArr(v.tid, v.parent)
        n.ts = tuple(subst(t, mp) if isinstance(t, Poly) else t for t in v.ts)
        return n
    if isinstance(v, Arr):
        if not mp:
            return v
        return Arr(v.rank, tuple(subst(s, mp) for s in v.shape) if v.shape else v.shape,
                   lambda idx, ctx: subst(v.elem(idx, ctx), mp), "sub(%s)" % v.key, base=v.base)
    if isinstance(v, Ref):
        return Ref(subst_val(v.lv, mp))
    if isinstance(v, LV):
        return LV(v.root, tuple(tuple(subst_val(x, mp) if not isinstance(x, str) else x for x in s) for s in v.path))
    if isinstance(v, Event):
        return Event(v.kind, v.name, subst_val(v.obj, mp), [subst_val(a, mp) for a in v.args],
                     subst_val(v.val, mp), v.fn, v.line, subst_val(v.before, mp))
    return v


def percall(e):
    """does an initialiser mention variables or the object?"""
    if isinstance(e, dict):
        return e.get("k") in ("ref", "this") and not e.get("fn") or any(percall(x) for x in e.values())
    if isinstance(e, list):
        return any(percall(x) for x in e)
    return False


def modulo(p, t):
    """a constant of an unsigned type"""
    c = p.const()
    if c is None or t not in ("u32", "u64") or c.denominator != 1:
        return p
    return P(int(c) % 2 ** int(t[1:]))


class Interp:
    MAXPART = 400

    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.cfg = cfg or {}
        self.abbr = self.cfg.get("abbr", {})     # value key -> named value
        self.defs = self.cfg.get("defs", {})     # name atom -> value
        self.opaque = set(self.cfg.get("opaque", ()))
        self.st = State()
        self.ch = Chooser([])
        self.stack = []
        self.ntid = 0
        self.stats = {"functions": set(), "partitions": 0, "loops": 0, "branches": 0}
        self.lines = []
        from . import intrin
        self.intr = intrin.Intrinsics(self)

    # -- partitions ---------------------------------------------------------
    def enumerate(self, st0, run, top=False):
        out = []
        work = [[]]
        saved = (self.st, self.ch, list(self.stack))
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > self.MAXPART:
                raise Undecided("too many partitions")
            self.st, self.ch, self.stack = st0.clone(), Chooser(pre), list(saved[2])
            kind = None
            try:
                kind = run()
            except AbortPath:
                pass
            except Undecided as e:
                if not top:
                    raise
                kind = ("undecided", str(e))
            t, a = self.ch.taken, self.ch.arity
            for i in range(len(t) - 1, len(pre) - 1, -1):
                for alt in range(t[i] + 1, a[i]):
                    work.append(t[:i] + [alt])
            if kind is not None:
                out.append((self.st, kind))
        self.st, self.ch, self.stack = saved
        self.stats["partitions"] += n
        return out

    # -- conditions -----------------------------------------------------------
    def autofacts(self, polys):
        ge, gt = [], []
        seen = set()
        for p in polys:
            for m in p.t:
                if m and m not in seen and (len(m) > 1 or m[0][1] != 1):
                    seen.add(m)
                    if all(e % 2 == 0 or self.posatom(a) for a, e in m):
                        (gt if all(self.posatom(a) for a, e in m) else ge).append(Poly({m: Fraction(1)}))
                for a, e in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.kind == "sqrt" or (a.kind == "f" and a.args[0] in ("size", "len", "shape", "abs")):
                        ge.append(P(a))
                    elif a.kind in ("exp", "pow2") or a.kind == "f" and a.args[0] in self.cfg.get("posfun", ()):
                        gt.append(P(a))
                    elif a.kind in "sf" and (a.args[0] in aff.NONNEG or a.args[0] in self.cfg.get("nonneg", ())):
                        ge.append(P(a))
                    elif a.kind == "s" and a.args[0] in self.cfg.get("positive", ()):
                        gt.append(P(a))
        for p in self.cfg.get("assume_ge", ()):
            ge.append(p)
        return ge, gt

    def related(self, p):
        """facts connected with p through shared monomials"""
        ms = set(m for m in p.t if m)
        pool = [("ge", q) for q in self.st.ge] + [("gt", q) for q in self.st.gt] + [("eq", q) for q in self.st.eqs]
        a, b = self.autofacts([p] + [q for _, q in pool])
        pool += [("ge", q) for q in a] + [("gt", q) for q in b]
        out = []
        ch = True
        while ch and pool:
            ch = False
            rest = []
            for k, q in pool:
                qm = set(m for m in q.t if m)
                if qm & ms:
                    ms |= qm
                    out.append((k, q))
                    ch = True
                else:
                    rest.append((k, q))
            pool = rest
        return ([q for k, q in out if k == "ge"], [q for k, q in out if k == "gt"], [q for k, q in out if k == "eq"])

    def signset(self, p):
        """feasible signs of p (normalised poly)"""
        c = p.const()
        if c is not None:
            return frozenset(((c > 0) - (c < 0),))
        cur = self.st.signs.get(p.key)
        cur = cur[1] if cur else ALL
        if len(cur) <= 1:
            return cur
        ge, gt, eqs = self.related(p)
        fs = set()
        for s in cur:
            if s > 0:
                bad = aff.infeasible(ge, gt + [p], eqs)
            elif s < 0:
                bad = aff.infeasible(ge, gt + [-p], eqs)
            else:
                bad = aff.infeasible(ge, gt, eqs + [p])
            if not bad:
                fs.add(s)
        return frozenset(fs)

    def solved(self):
        """substitution from the equalities of the partition"""
        key = tuple(q.key for q in self.st.eqs)
        if self._solved and self._solved[0] == key:
            return self._solved[1]
        mp = {}
        for q in self.st.eqs:
            q = poly.subst(q, mp)
            for m, c in sorted(q.t.items(), key=lambda x: str(x[0])):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("s", "sel", "f"):
                    a = m[0][0]
                    rest = P(a) - q * (1 / c)
                    if a in atoms_of(rest):
                        continue
                    mp = {k: poly.subst(v, {a: rest}) for k, v in mp.items()}
                    mp[a] = rest
                    break
        self._solved = (key, mp)
        return mp

    _solved = None

    def known(self, b, depth=0):
        if b.kind == "c":
            return b.a
        if b.kind == "sg":
            p = self.simp(b.a)
            q, s = norm_scale(p)
            bs = b.b if s > 0 else frozenset(-x for x in b.b)
            if not q.t or (any(a.kind == "poly" and e < 0 for m in q.t for a, e in m) and poly.eq(q, ZERO)):
                return 0 in bs
            fs = self.signset(q)
            if not fs:
                raise AbortPath()
            if fs <= bs:
                return True
            if not (fs & bs):
                return False
            if depth == 0 and self.st.eqs:
                mp = self.solved()
                if mp and any(a in mp for a in atoms_of(q)):
                    try:
                        return self.known(sign(poly.subst(q, mp), bs), 1)
                    except Undecided:
                        return None
            return None
        if b.kind == "at":
            r = self.st.signs.get("at:" + b.a.key)
            if r is None:
                return None
            return r[1] == b.b
        if b.kind == "and":
            r = True
            for x in b.a:
                k = self.known(x)
                if k is False:
                    return False
                if k is None:
                    r = None
            return r
        r = False
        for x in b.a:
            k = self.known(x)
            if k is True:
                return True
            if k is None:
                r = None
        return r

    def posatom(self, a):
        """atom known positive without arithmetic"""
        if a.kind in ("exp", "pow2") or a.kind == "f" and a.args[0] in self.cfg.get("posfun", ()):
            return True
        if a.kind == "s" and a.args[0] in self.cfg.get("positive", ()):
            return True
        if a.kind == "sqrt":
            q = a.args[0].single()
            if q and q[1] > 0 and all(self.posatom(x) for x, _ in q[0]):
                return True
        k = P(a).key
        return any(g.key == k for g in self.st.gt)

    def simp(self, p):
        """resolve ite atoms whose condition is known; clear positive factors"""
        p = self.simp_ite(p)
        lo = {}
        for a in set(a for m in p.t for a, e in m):
            es = [dict(m).get(a, 0) for m in p.t]
            if a.kind == "poly":
                if min(es) < 0:
                    lo[a] = min(es)
            elif min(es) != 0 and (min(es) < 0 or all(es)):
                lo[a] = min(es)
        for a, e in sorted(lo.items(), key=lambda x: x[0].key):
            if a.kind == "poly":
                fs = self.signset(norm_scale(a.args[0])[0]) if e % 2 else None
                q = a.args[0]
                if fs is not None:
                    n, s = norm_scale(q)
                    if fs != {1} and fs != {-1}:
                        continue
                    if (fs == {1}) != (s > 0):
                        q = -q
                r = ZERO
                for m, c in p.t.items():
                    d = dict(m)
                    k = d.pop(a, 0) - e
                    t = Poly({poly._mkmono(d): c})
                    for _ in range(k):
                        t = t * a.args[0]
                    r = r + t
                p = r if q is a.args[0] or e % 2 == 0 else -r
            elif self.posatom(a):
                p = poly._scale(p, ((a, -e),))
        return p

    def simp_ite(self, p):
        """resolve ite atoms whose condition is known"""
        for a in list(atoms_of(p)):
            if a.kind == "ite":
                k = self.known(a.args[0])
                if k is not None:
                    p = poly.subst(p, {a: a.args[1] if k else a.args[2]})
                    return self.simp_ite(p)
        return p

    def assume(self, b):
        st = self.st
        st.pc.append(b)
        if b.kind == "sg":
            p = self.simp(b.a)
            q, s = norm_scale(p)
            bs = b.b if s > 0 else frozenset(-x for x in b.b)
            if not q.t:
                return
            fs = self.signset(q) & bs
            if not fs:
                raise AbortPath()
            st.signs[q.key] = (q, fs)
            if fs == {1}:
                st.gt.append(q)
            elif fs == {-1}:
                st.gt.append(-q)
            elif fs == {0}:
                st.eqs.append(q)
            elif fs == {0, 1}:
                st.ge.append(q)
            elif fs == {0, -1}:
                st.ge.append(-q)
        elif b.kind == "at":
            st.signs["at:" + b.a.key] = (b.a, b.b)
        elif b.kind == "and":
            for x in b.a:
                self.assume_q(x)
        elif b.kind == "or":
            pass

    def assume_q(self, b):
        """assume without recording twice"""
        n = len(self.st.pc)
        self.assume(b)
        del self.st.pc[n:]

    def decide(self, b):
        if isinstance(b, Poly):
            b = ne(b, 0)
        if b.kind == "and":
            for x in b.a:
                if not self.decide(x):
                    return False
            return True
        if b.kind == "or":
            for x in b.a:
                if self.decide(x):
                    return True
            return False
        k = self.known(b)
        if k is not None:
            return k
        self.stats["branches"] += 1
        v = self.ch.choose(2) == 0
        self.assume(b if v else b_not(b))
        return v

    def require(self, b):
        """constrain the partition (assert / declared assumption)"""
        if isinstance(b, Poly):
            b = ne(b, 0)
        if self.known(b) is False:
            raise AbortPath()
        if self.known(b) is None:
            self.assume(b)

    def tobool(self, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Poly):
            return ne(v, 0)
        if isinstance(v, Arr):
            return ne(v.elem((), self), 0)
        if isinstance(v, Struct) and v.cls == "std::optional":
            return v.fields["has"]
        raise Undecided("bool of %s" % vkey(v)[:60])

    def topoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            if v.kind == "c":
                return ONE if v.a else ZERO
            if v.kind == "sg" and v.b == frozenset((-1, 1)) and self.isboolish(v.a):
                return v.a
            return V.ite(v, ONE, ZERO)
        if isinstance(v, Arr):
            if v.rank == 0:
                return v.elem((), self)
            raise Undecided("array used as scalar")
        raise Undecided("scalar of %s" % vkey(v)[:60])

    def isboolish(self, p):
        a = p.as_atom()
        return a is not None and (a.key.startswith("b?") or (a.kind == "f" and str(a.args[0]).startswith("b?")))

    def same_index(self, w, idx):
        allz = True
        for x, y in zip(w, idx):
            d = P(x) - P(y)
            c = d.const()
            if c is not None:
                if c != 0:
                    return False
                continue
            q, _ = norm_scale(d)
            fs = self.signset(q)
            if 0 not in fs:
                return False
            if fs != {0}:
                allz = False
        return True if allz else None

    # -- symbolic values -----------------------------------------------------------
    def symval(self, t, name, idx=()):
        """symbolic value of IR type t; name may be an Atom key or str; idx adds
        functional arguments"""
        t = t or "?"
        if t == "bool":
            return ne(self.symnum("b?" + str(name), idx, True), 0)
        if t[0] in "iu" and t[1:].isdigit() or t.startswith("enum:") or t == "char":
            if t[0] == "u":
                aff.NONNEG.add(name if isinstance(name, str) else name.key)
            return self.symnum(name, idx, True)
        if t[0] == "f" and t[1:].isdigit():
            return self.symnum(name, idx, False)
        if t.startswith("R:xt::"):
            return self.symarr(name, idx)
        if t == "R:std::basic_string":
            return Str([self.symnum(name, idx, False)])
        if t in ("R:std::vector", "R:gsl::span", "R:std::initializer_list"):
            return Seq(self.symnum(name, idx, False))
        if t in V.MAPS or t.startswith("R:") and any(b in V.MAPS for b in self.mapbases(t[2:])):
            return MapV(self.symnum(name, idx, False))
        if t.startswith("R:vw::") and t[2:] in self.cfg.get("maplike", ()):
            return MapV(self.symnum(name, idx, False))
        if t.startswith("R:vw::") or t == "?" or t == "R:lambda":
            return self.symnum(name, idx, False)
        if t.startswith("R:"):
            if idx:
                return Struct(t[2:], fun(name, *idx))
            return Struct(t[2:], str(name))
        return self.symnum(name, idx, False)

    def symnum(self, name, idx, integer):
        if idx:
            if integer:
                aff.INTF.add(name)
            return fun(name, *idx)
        if isinstance(name, Poly):
            return name
        if integer:
            aff.INT.add(name)
        return sym(name)

    def symarr(self, name, idx=()):
        cfg = self.cfg.get("arrays", {})
        nm = name
        if isinstance(name, Poly):
            a = name.as_atom()
            nm = a.args[0] if a.kind == "f" else a.key
        sp = cfg.get(nm) or cfg.get(nm.rsplit(".", 1)[-1])
        rank = shape = None
        if sp is not None:
            if isinstance(sp, int):
                rank = sp
                shape = tuple(fun("shape", sym(nm), *(tuple(idx) + (P(d),))) for d in range(rank))
            else:
                shape = tuple(P(x) for x in sp)
                rank = len(shape)
        if isinstance(name, Poly):
            return Arr(rank, shape, lambda ix, ctx: fun("el", name, *ix), name.key)
        return Arr.mk(nm, rank, shape, tuple(P(i) for i in idx))

    def mknamed(self, t, name, extra):
        """functional value: result component 'name' applied to extra args"""
        return self.symval(t, name, tuple(extra))

    # -- locations ----------------------------------------------------------------
    def newroot(self, name, val, t=None):
        self.st.n += 1
        r = "%s#%d:%s" % (name, self.st.n, t or "?")
        if self.abbr and isinstance(val, Poly):
            val = self.abbr.get(val.key, val)
        self.st.store[r] = V.rebase(val, "@self", r)
        return LV(r)

    def now(self):
        self.st.clock += 1
        return self.st.prefix + (self.st.clock,)

    def read(self, lv, t=None):
        if lv.root not in self.st.store:
            raise Undecided("unknown location " + lv.root)
        v = self.st.store[lv.root]
        for s in lv.path:
            v = self.step_read(v, s)
        if isinstance(v, Ref) and t != "ptr":
            return self.read(v.lv, t)
        if isinstance(v, TArr) and v.ts is None:
            n = TArr(v.tid, v.parent)
            n.ts = self.now()
            return n
        return v

    def step_read(self, v, s):
        if isinstance(v, Ref):
            v = self.read(v.lv)
        k = s[0]
        if k == "f":
            if isinstance(v, Struct):
                if s[1] in v.fields:
                    return v.fields[s[1]]
                if v.name is None:
                    raise Undecided("field %s of %s is not initialised" % (s[1], v.cls))
                if isinstance(v.name, Poly):
                    return self.symval(s[2], "fld:" + s[1], (v.name,))
                return self.symval(s[2], v.name + "." + s[1])
            if isinstance(v, Poly):
                return self.symval(s[2], "fld:" + s[1], (v,))
            raise Undecided("field of %s" % vkey(v)[:60])
        if k == "i":
            if isinstance(v, Arr):
                self.bounds(v, s[1])
                return v.elem(s[1], self)
            raise Undecided("element of %s" % vkey(v)[:60])
        if k == "m":
            return self.map_read(v, s[1], s[2])
        if k == "o":
            if isinstance(v, Struct) and v.cls == "std::optional":
                if "val" in v.fields:
                    return v.fields["val"]
                if v.name is not None:
                    return self.symval(s[1], "val", (P(v.name) if isinstance(v.name, Poly) else sym(v.name),))
                raise Undecided("content of an empty optional")
            if isinstance(v, Poly):
                return self.symval(s[1], "val", (v,))
            raise Undecided("optional content")
        if k == "v":
            if not isinstance(v, Arr):
                raise Undecided("view of non-array")
            return self.view(v, s[1])
        raise Undecided("step " + k)

    def view(self, a, spec):
        """spec: tuple of ('ix',p) | ('all',) | ('rng',lo,hi)"""
        if a.rank is None:
            a.rank = len(spec)
            a.shape = tuple(fun("shape", sym(a.key), P(d)) for d in range(a.rank))
        shape = []
        spec = list(spec) + [("all",)] * (a.rank - len(spec))
        for d, s in enumerate(spec):
            if s[0] == "all":
                shape.append(a.shape[d])
            elif s[0] == "rng":
                shape.append(s[2] - s[1])
        if isinstance(a, TArr) and a.ts is None:
            n = TArr(a.tid, a.parent)
            n.ts = self.now()
            a = n

        def fn(idx, ctx):
            return a.elem(self.view_index(spec, idx), ctx)
        return Arr(len(shape), tuple(shape), fn, "view(%s;%s)" % (a.key, vkey(tuple(spec))))

    @staticmethod
    def view_index(spec, idx):
        out = []
        it = iter(idx)
        for s in spec:
            if s[0] == "ix":
                out.append(s[1])
            elif s[0] == "all":
                out.append(next(it))
            else:
                out.append(next(it) + s[1])
        return tuple(out)

    def map_read(self, v, key, t):
        if isinstance(v, Seq):
            n = self.seq_len(v)
            c = P(key).const() if isinstance(key, Poly) else None
            if v.items:
                base_len = n - len(v.items)
                for i in range(len(v.items) - 1, -1, -1):
                    if self.decide(eqv(key, base_len + i)):
                        return v.items[i]
            if v.base is None:
                raise Undecided("index outside a known sequence")
            return self.elemval(v.base, t, (key,))
        if isinstance(v, MapV):
            for k, x in reversed(v.writes):
                if self.same_key(k, key):
                    return x
            if isinstance(v, V.Sized):
                if t and (t in V.MAPS or t.startswith("R:") and any(b in V.MAPS for b in self.mapbases(t[2:]))):
                    return MapV(sym("empty"), (), True)
                raise Undecided("element of a sized vector")
            return self.elemval(v.base, t, (key,))
        if isinstance(v, Poly):
            return self.elemval(v, t, (key,))
        if isinstance(v, Struct):
            n = v.name
            if isinstance(n, str) and not v.fields:
                return self.elemval(sym(n), t, (key,))
        if isinstance(v, Arr):
            return v.elem((P(key),), self)
        if isinstance(v, Str):
            raise Undecided("string indexing")
        raise Undecided("index of %s" % vkey(v)[:60])

    def mapbases(self, cls):
        r = self.prog.records.get(cls)
        return [str(b) for b in r.get("bases", ())] if r else ()

    def elemval(self, base, t, key):
        a = base.as_atom() if isinstance(base, Poly) else None
        if a is not None and a.kind == "s":
            return self.symval(t, a.args[0] + "[]", tuple(self.reify(k) for k in key))
        return self.symval(t, "at", (base,) + tuple(self.reify(k) for k in key))

    def same_key(self, a, b):
        if vkey(a) == vkey(b):
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.decide(eqv(a, b))
        raise Undecided("key comparison")

    def seq_len(self, v):
        if isinstance(v, V.Sized):
            return v.n
        if isinstance(v, Seq):
            b = ZERO if v.base is None else fun("len", v.base)
            return b + len(v.items)
        if isinstance(v, Poly):
            return fun("len", v)
        if isinstance(v, Struct) and isinstance(v.name, str):
            return fun("len", sym(v.name))
        if isinstance(v, Arr):
            if v.rank == 1:
                return v.shape[0]
            raise Undecided("size of array of rank %s" % v.rank)
        if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Poly):
            return fun("len", v.parts[0])
        raise Undecided("length of %s" % vkey(v)[:40])

    def resolve_lv(self, lv):
        """follow Refs stored along the path"""
        if lv.root not in self.st.store:
            raise Undecided("unknown location " + lv.root)
        v = self.st.store[lv.root]
        for i, s in enumerate(lv.path):
            if isinstance(v, Ref):
                return self.resolve_lv(LV(v.lv.root, v.lv.path + lv.path[i:]))
            if s[0] == "i" or s[0] == "v":
                return lv
            v = self.step_read(v, s)
        if isinstance(v, Ref):
            return self.resolve_lv(v.lv)
        return lv

    def write(self, lv, val):
        lv = self.resolve_lv(lv)
        self.st.writes.append(lv)
        if isinstance(val, TArr) and val.ts is None:
            raise Undecided("aliasing of traced array")
        if self.abbr and isinstance(val, Poly):
            val = self.abbr.get(val.key, val)
        self.st.store[lv.root] = self.step_write(self.st.store[lv.root], lv.path, val)

    def bounds(self, a, ix):
        if not self.cfg.get("bounds") or a.shape is None or len(ix) != len(a.shape):
            return
        for i, n in zip(ix, a.shape):
            c, m = P(i).const(), P(n).const()
            if c is not None and m is not None and not 0 <= c < m:
                raise OutOfRange("index %s of an extent of %s in %s:%s" % (c, m, *self.where()))

    def step_write(self, v, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        if s[0] == "f":
            if isinstance(v, Poly):
                v = Struct("?", v)
            if not isinstance(v, Struct):
                raise Undecided("field write into %s" % vkey(v)[:40])
            sub = self.step_read(v, s) if rest else None
            return v.set(s[1], self.step_write(sub, rest, val))
        if s[0] == "i":
            if not isinstance(v, Arr):
                raise Undecided("element write into %s" % vkey(v)[:40])
            val = self.topoly(val)
            self.bounds(v, s[1])
            if isinstance(v, TArr):
                ts = self.now()
                self.st.log.append(Access(v.tid, tuple(s[1]), val, ts, [], self.where()[0], self.where()[1], []))
                return v
            if isinstance(v, AStore):
                # drop an overwritten identical index
                ws = [w for w in v.writes if vkey(w[0]) != vkey(tuple(s[1]))]
                return AStore(v.parent, ws + [(tuple(s[1]), val)])
            return AStore(v, [(tuple(s[1]), val)])
        if s[0] == "m":
            if isinstance(v, Poly):
                v = MapV(v)
            if isinstance(v, MapV):
                sub = self.step_read(v, s) if rest else None
                nv = self.step_write(sub, rest, val)
                ws = [w for w in v.writes if vkey(w[0]) != vkey(s[1])]
                if isinstance(v, V.Sized):
                    return V.Sized(v.n, ws + [(s[1], nv)])
                return MapV(v.base, ws + [(s[1], nv)], v.empty)
            if isinstance(v, Arr) and not rest:
                return self.step_write(v, (("i", (P(s[1]),)),), val)
            if isinstance(v, Seq) and v.base is None and v.items:
                c = P(s[1]).const() if isinstance(s[1], Poly) else None
                if c is None or not 0 <= c < len(v.items):
                    raise Undecided("write into a known sequence")
                nv = self.step_write(v.items[int(c)] if rest else None, rest, val)
                return Seq(None, v.items[:int(c)] + (nv,) + v.items[int(c) + 1:])
            if isinstance(v, Seq):
                return self.step_write(MapV(v.base if not v.items else None), path, val) if not v.items else self.bad("seq write")
            raise Undecided("index write into %s" % vkey(v)[:40])
        if s[0] == "o":
            if isinstance(v, Struct) and v.cls == "std::optional":
                return v.set("val", self.step_write(v.fields.get("val"), rest, val))
        if s[0] == "v" and not rest:
            if not isinstance(v, Arr) or isinstance(v, TArr):
                raise Undecided("view write")
            spec = s[1]
            old = v

            def fn(idx, ctx):
                conds = []
                sub = []
                for d, sp in enumerate(spec):
                    if sp[0] == "ix":
                        conds.append(eqv(idx[d], sp[1]))
                    elif sp[0] == "all":
                        sub.append(idx[d])
                    else:
                        conds.append(le(sp[1], idx[d]))
                        conds.append(lt(idx[d], sp[2]))
                        sub.append(idx[d] - sp[1])
                nv = val.elem(tuple(sub), ctx) if isinstance(val, Arr) else val
                c = b_and(*conds)
                k = ctx.known(c)
                if k is True:
                    return nv
                if k is False:
                    return old.elem(idx, ctx)
                return V.ite(c, nv, old.elem(idx, ctx))
            return Arr(v.rank, v.shape, fn, "vstore(%s;%s;%s)" % (v.key, vkey(spec), vkey(val)))
        raise Undecided("write step " + s[0])

    def bad(self, m):
        raise Undecided(m)

    def traced_read(self, ta, idx):
        ts = ta.ts if ta.ts is not None else self.now()
        return P(atom("rd", ta.tid, tuple(idx), tuple(ts)))

    def where(self):
        return self.stack[-1] if self.stack else ("", 0)

    # -- opaque application ------------------------------------------------------
    def reify(self, v):
        if isinstance(v, (Poly, Bool)):
            return v
        if isinstance(v, Struct):
            if v.name is not None and not v.fields:
                return v.name if isinstance(v.name, Poly) else sym(v.name)
            items = tuple(self.reify(x) for _, x in sorted(v.fields.items()))
            names = ",".join(sorted(v.fields))
            return fun("obj:%s{%s}" % (v.cls, names), *((() if v.name is None else (v.name if isinstance(v.name, Poly) else sym(v.name),)) + items))
        if isinstance(v, Arr):
            if v.base is not None and v.key == v.base:
                return sym(v.base)
            if v.rank is None:
                raise Undecided("array of unknown rank as argument")
            ph = tuple(sym("#e%d" % d) for d in range(v.rank))
            return fun("arr%d" % v.rank, v.elem(ph, self), *ph)
        if isinstance(v, Seq):
            return fun("seq", *(([] if v.base is None else [v.base]) + [self.reify(i) for i in v.items])) if v.items or v.base is None else v.base
        if isinstance(v, MapV):
            if not v.writes and not v.empty:
                return v.base
            return fun("map", *([v.base] + [self.reify(x) for w in v.writes for x in w]))
        if isinstance(v, Str):
            return fun("str", *[p if isinstance(p, Poly) else sym("'%s'" % p) for p in v.parts])
        if isinstance(v, Closure):
            return sym("closure:" + v.fn)
        if isinstance(v, Ref):
            return self.reify(self.read(v.lv))
        if isinstance(v, LV):
            return self.reify(self.read(v))
        if isinstance(v, FnRef):
            return sym(v.key)
        if isinstance(v, tuple):
            return fun("tup", *[self.reify(x) for x in v])
        raise Undecided("argument %s" % type(v).__name__)

    def opaque_call(self, n, obj, args):
        """args: list of (value, lv or None, mode)"""
        qn = n.get("qn") or n.get("name") or n["fn"]
        vals = []
        for v, lv, mode in args:
            vals.append(self.reify(v))
        allargs = list(vals)
        before = None
        if obj is not None:
            before = self.reify(self.read(obj))
            allargs = [before] + allargs
        mutating = (obj is not None and not n.get("mconst") and not n.get("mstatic") and n["k"] == "call")
        outs = [(i, lv) for i, (v, lv, mode) in enumerate(args) if lv is not None and mode == "r"]
        if not allargs and not (n["k"] == "ctor"):
            pass
        if n.get("retref") and obj is not None and (n.get("oper") == "[]"):
            return obj.sub("m", self.key_of(args[0][0]), n["t"])
        val = self.symval(n["t"], "call:" + qn, tuple(allargs)) if n["t"] != "void" else VOID
        if mutating or outs:
            ev = Event("call", qn, obj, [a[0] for a in args], val, self.where()[0], n.get("l"), before)
            self.st.events.append(ev)
        if mutating:
            self.write(obj, self.symval_obj("after:" + qn, tuple(allargs)))
        for i, lv in outs:
            old = self.read(lv)
            self.write(lv, self.like(old, "out%d:%s" % (i, qn), tuple(allargs)))
        return val

    def symval_obj(self, name, args):
        return fun(name, *args)

    def like(self, old, name, args):
        """fresh value of the same shape as old"""
        if isinstance(old, Poly):
            if aff.is_int_poly(old) and old.t:
                aff.INTF.add(name)
            return fun(name, *args)
        if isinstance(old, Bool):
            aff.INTF.add("b?" + name)
            return ne(fun("b?" + name, *args), 0)
        if isinstance(old, Arr):
            r = old.rank
            return Arr(r, old.shape, lambda ix, ctx: fun(name, *(tuple(args) + tuple(ix))), "%s(%s)" % (name, vkey(tuple(args))))
        if isinstance(old, Struct):
            if old.fields:
                return Struct(old.cls, None if old.name is None else fun(name, *args),
                              {k: self.like(v, name + "." + k, args) for k, v in old.fields.items()})
            return Struct(old.cls, fun(name, *args))
        if isinstance(old, MapV):
            return MapV(fun(name, *args))
        if isinstance(old, Seq):
            return Seq(fun(name, *args))
        if isinstance(old, Str):
            return Str([fun(name, *args)])
        if isinstance(old, Ref):
            return old
        raise Undecided("havoc of %s" % type(old).__name__)

    def key_of(self, v):
        if isinstance(v, (Poly,)):
            return v
        if isinstance(v, Bool):
            return self.topoly(v)
        return self.reify(v)

    # -- expressions ----------------------------------------------------------------
    def ev(self, n, fr):
        v = getattr(self, "e_" + n["k"], None)
        if v is None:
            raise Undecided("expression kind " + n["k"])
        return v(n, fr)

    def rv(self, n, fr):
        """r-value: references are read"""
        v = self.ev(n, fr)
        if isinstance(v, LV):
            return self.read(v, n.get("t"))
        return v

    def lvof(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, LV):
            return v
        if isinstance(v, Ref) and n.get("t") != "ptr":
            return v.lv
        return self.newroot("tmp", v)

    def num(self, n, fr):
        return self.topoly(self.rv(n, fr))

    def e_int(self, n, fr):
        return P(int(n["v"]))

    def e_float(self, n, fr):
        return P(Fraction(repr(float(n["v"]))))    # the shortest decimal: 0.3 is 3/10

    def e_char(self, n, fr):
        return P(int(n["v"]))

    def e_bool(self, n, fr):
        return TRUE if n["v"] else FALSE

    def e_enum(self, n, fr):
        return P(int(n["v"]))

    def e_str(self, n, fr):
        return Str([ord(c) for c in n["v"]])

    def e_ref(self, n, fr):
        if n["dk"] in ("var", "param", "bind"):
            lv = fr["env"].get(n["id"])
            if lv is not None:
                return lv
        if "cv" in n:
            cv = n["cv"]
            if isinstance(cv, bool):
                return TRUE if cv else FALSE
            return P(Fraction(str(cv)))
        if n["dk"] == "fn":
            return FnRef(n)
        qn = n.get("qn") or n["n"]
        g = self.prog.globals.get(qn)
        if g is not None and g.get("const") and g.get("e") is not None:
            r = "g:" + qn
            if r not in self.st.store:
                self.st.store[r] = self.rv(g["e"], {"env": {}, "this": None})
            return LV(r)
        if g is not None:
            r = "g:" + qn
            if r not in self.st.store:
                self.st.store[r] = self.symval(n["t"], "global." + qn)
            return LV(r)
        raise Undecided("name " + n["n"])

    def e_this(self, n, fr):
        if fr["this"] is None:
            raise Undecided("this")
        return Ref(fr["this"])

    def e_mem(self, n, fr):
        if n.get("arrow"):
            b = self.ev(n["o"], fr)
            if isinstance(b, LV):
                b = self.read(b, "ptr")
            if isinstance(b, Ref):
                base = b.lv
            elif isinstance(b, Struct) and b.cls == "mapit":
                base = self.intr.mapit_deref(b)
            elif isinstance(b, Struct) and b.cls == "elemref":
                base = b.fields["lv"].lv
            else:
                raise Undecided("arrow through %s" % vkey(b)[:40])
        else:
            base = self.lvof(n["o"], fr)
        return base.sub("f", n["n"], n["t"])

    def e_un(self, n, fr):
        op = n["op"]
        if op == "*":
            b = self.ev(n["a"], fr)
            if isinstance(b, LV):
                b = self.read(b, "ptr")
            if isinstance(b, Ref):
                return b.lv
            raise Undecided("dereference of %s" % vkey(b)[:40])
        if op == "&":
            return Ref(self.lvof(n["a"], fr))
        if op == "!":
            return b_not(self.tobool(self.rv(n["a"], fr)))
        if op in ("++", "--"):
            lv = self.lvof(n["a"], fr)
            old = self.topoly(self.read(lv))
            new = modulo(old + 1, n.get("t")) if op == "++" else old - 1
            if op == "--" and n.get("t", "").startswith("u"):
                new = self.nowrap(new, n)
            self.write(lv, new)
            return old if n.get("post") else lv
        v = self.rv(n["a"], fr)
        if op == "-":
            if isinstance(v, Arr):
                return self.amap(lambda x: -x, v, key="neg")
            return -self.topoly(v)
        if op == "+":
            return v
        if op == "~":
            return -self.topoly(v) - 1
        raise Undecided("unary " + op)

    def nowrap(self, p, n):
        """unsigned subtraction: must be provably non-negative, otherwise the
        result is not the mathematical one"""
        q, s = norm_scale(p)
        if not q.t:
            return p
        if p.const() is not None:
            return modulo(p, n.get("t"))
        fs = self.signset(q)
        bad = -1 if s > 0 else 1
        if bad in fs:
            if not self.decide(sign(p, (0, 1))):
                if self.cfg.get("wrap"):
                    # the language's value; the partition is marked
                    self.st.events.append(Event("wrap", "unsigned", None, [p], None, self.where()[0], n.get("l")))
                    return p + P(2 ** 32 if "32" in n.get("t", "u32") else 2 ** 64)
                raise Undecided("unsigned wrap-around at line %s" % n.get("l"))
        return p

    def arith(self, op, a, b, t, n):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not (isinstance(a, Arr) and a.rank == 0 or isinstance(b, Arr) and b.rank == 0):
                f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                     "/": lambda x, y: x / y}.get(op)
                if f is None:
                    raise Undecided("array operator " + op)
                a = a if isinstance(a, Arr) else self.topoly(a)
                b = b if isinstance(b, Arr) else self.topoly(b)
                return self.amap(f, a, b, key=op)
        a, b = self.topoly(a), self.topoly(b)
        if op == "+":
            return modulo(a + b, t)
        if op == "-":
            r = a - b
            if t and t.startswith("u"):
                r = self.nowrap(r, n)
            return r
        if op == "*":
            return modulo(a * b, t)
        if op == "/":
            if t and (t[0] in "iu"):
                ca, cb = a.const(), b.const()
                if ca is not None and cb:
                    q = abs(int(ca)) // abs(int(cb))
                    return P(q if (ca < 0) == (cb < 0) else -q)
                if "idiv" in self.cfg:
                    r = self.cfg["idiv"](a, b)
                    if r is not None:
                        return r
                return fun("idiv", a, b)
            return a / b
        if op == "%":
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                q = abs(int(ca)) % abs(int(cb))
                return P(q if ca >= 0 else -q)
            return fun("imod", a, b)
        if op == "<<" and b.const() is not None:
            return a * P(2 ** int(b.const()))
        if op == "&&":
            pass
        if op == ">>" and b.const() is not None:
            return fun("idiv", a, P(2 ** int(b.const())))
        if op in ("&", "|", "^", "<<", ">>"):
            return fun("bit" + op, a, b)
        raise Undecided("operator " + op)

    def amap(self, f, *arrs, key=""):
        arrs = [self.read(a) if isinstance(a, LV) else a for a in arrs]
        return arr_map(f, *arrs, key=key)

    def compare(self, op, a, b):
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == "==":
                return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
            if op == "!=":
                return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        if isinstance(a, Str) or isinstance(b, Str):
            raise Undecided("string comparison")
        a, b = self.topoly(a), self.topoly(b)
        return {"<": lt, ">": lambda x, y: lt(y, x), "<=": le, ">=": lambda x, y: le(y, x),
                "==": eqv, "!=": ne}[op](a, b)

    def e_bin(self, n, fr):
        op = n["op"]
        if op == "&&":
            a = self.tobool(self.rv(n["a"], fr))
            k = self.known(a)
            if k is False:
                return FALSE
            if self.pure(n["b"]):
                b = self.tobool(self.rv(n["b"], fr))
                return b if k is True else b_and(a, b)
            if not self.decide(a):
                return FALSE
            return self.tobool(self.rv(n["b"], fr))
        if op == "||":
            a = self.tobool(self.rv(n["a"], fr))
            k = self.known(a)
            if k is True:
                return TRUE
            if self.pure(n["b"]):
                b = self.tobool(self.rv(n["b"], fr))
                return b if k is False else b_or(a, b)
            if self.decide(a):
                return TRUE
            return self.tobool(self.rv(n["b"], fr))
        if op == ",":
            self.ev(n["a"], fr)
            return self.ev(n["b"], fr)
        a = self.rv(n["a"], fr)
        b = self.rv(n["b"], fr)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Struct) and isinstance(b, Struct):
                return self.intr.struct_cmp(op, a, b)
            return self.compare(op, a, b)
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("&", "|"):
            return b_and(a, b) if op == "&" else b_or(a, b)
        return self.arith(op, a, b, n.get("t"), n)

    def pure(self, n):
        """no side effect and cannot fork: plain comparison of names"""
        if isinstance(n, dict):
            if n.get("k") in ("call", "ctor", "asg", "casg", "lambda", "cond"):
                return False
            if n.get("k") == "un" and n["op"] in ("++", "--", "*"):
                return False
            return all(self.pure(v) for v in n.values())
        if isinstance(n, list):
            return all(self.pure(v) for v in n)
        return True

    def e_asg(self, n, fr):
        v = self.rv(n["b"], fr)
        lv = self.lvof(n["a"], fr)
        v = self.conv(v, n["a"].get("t"))
        self.write(lv, v)
        return lv

    def conv(self, v, t):
        if isinstance(v, Init):
            return self.give(v, t)
        return v

    def e_casg(self, n, fr):
        b = self.rv(n["b"], fr)
        lv = self.lvof(n["a"], fr)
        a = self.read(lv)
        ct = n.get("ct") or n.get("t")
        op = n["op"].rstrip("=")
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("&", "|"):
            r = b_and(a, b) if op == "&" else b_or(a, b)
        else:
            r = self.arith(op, a, b, ct, n)
        t = n["a"].get("t", "")
        if t[:1] in "iu" and (ct or "")[:1] == "f":
            r = self.trunc(r)
        self.write(lv, r)
        return lv

    def trunc(self, p):
        c = p.const()
        if c is not None:
            return P(int(c))
        if aff.is_int_poly(p):
            return p
        a = p.as_atom()
        if a is not None and a.kind == "f" and a.args[0] in ("ceil", "floor", "round", "trunc"):
            return p
        return fun("trunc", p)

    def e_cond(self, n, fr):
        c = self.tobool(self.rv(n["c"], fr))
        return self.ev(n["a"] if self.decide(c) else n["b"], fr)

    def e_assert(self, n, fr):
        c = self.tobool(self.rv(n["c"], fr))
        if self.cfg.get("asserts"):
            if not self.decide(c):
                raise ThrowX("assertion")
            return VOID
        self.require(c)
        return VOID

    def e_lambda(self, n, fr):
        env = {}
        for c in n.get("caps", []):
            lv = fr["env"].get(c["id"])
            if lv is None:
                raise Undecided("capture")
            if c.get("ref") or c.get("byref"):
                env[c["id"]] = lv
            else:
                env[c["id"]] = self.newroot("cap", self.read(lv))
        return Closure(n["op"], env, None, fr["this"] if n.get("this") else None)

    def e_init(self, n, fr):
        refs = n.get("rfields") or ()
        items = []
        for i, x in enumerate(n["e"]):
            if refs and x is not None and n["fields"][i] in refs:
                y = self.ev(x, fr)
                if isinstance(y, LV):
                    y = Ref(y)
                items.append(y if isinstance(y, Ref) else Ref(self.newroot("tmp", y)))
            else:
                items.append(self.rv(x, fr) if x is not None else None)
        v = Init(items, n.get("fields"))
        return self.give(v, n.get("t"))

    def give(self, v, t):
        if not isinstance(v, Init) or not t or t == "?":
            return v
        if t.startswith("R:") and v.fields:
            return Struct(t[2:], None, dict(zip(v.fields, v.items)))
        if t.startswith("R:xt::"):
            return self.intr.arr_literal(v)
        if not t.startswith("R:") and len(v.items) == 1:
            return v.items[0]
        if not t.startswith("R:") and len(v.items) == 0:
            return FALSE if t == "bool" else ZERO
        return v

    def e_zero(self, n, fr):
        t = n.get("t", "")
        if t == "bool":
            return FALSE
        return ZERO

    def e_idx(self, n, fr):
        b = self.ev(n["o"] if "o" in n else n["a"], fr)
        i = self.num(n["i"] if "i" in n else n["b"], fr)
        if isinstance(b, Ref):
            b = b.lv
        if not isinstance(b, LV):
            b = self.newroot("tmp", b)
        return b.sub("m", i, n["t"])

    def e_throw(self, n, fr):
        raise ThrowX()

    def e_cast(self, n, fr):
        c, ft, t = n.get("c"), n.get("ft", ""), n.get("t", "")
        v = self.rv(n["a"], fr)
        if t == "bool":
            return self.tobool(v)
        if ft == "bool":
            return self.topoly(v)
        if t[:1] in "iu" and ft[:1] == "f":
            return self.trunc(self.topoly(v))
        if t.startswith("u") and ft.startswith("i") and isinstance(v, Poly):
            cc = v.const()
            if cc is not None and cc < 0:
                return P(cc + 2 ** int(t[1:]))
        return v

    # -- calls -----------------------------------------------------------------------
    def e_call(self, n, fr):
        return self.intr.call(n, fr)

    def e_ctor(self, n, fr):
        return self.intr.ctor(n, fr)

    def bind_args(self, f, argn, fr):
        """evaluate call arguments in the caller frame -> list of LVs"""
        out = []
        for i, p in enumerate(f["params"]):
            if i >= len(argn):
                raise Undecided("missing argument")
            a = argn[i]
            v = self.ev(a, fr)
            if p.get("ref"):
                if isinstance(v, LV):
                    out.append(v)
                elif isinstance(v, Ref) and a.get("t") != "ptr":
                    out.append(v.lv)
                else:
                    out.append(self.newroot("tmp", self.conv(v, p.get("t"))))
            else:
                if isinstance(v, LV):
                    v = self.read(v, a.get("t"))
                out.append(self.newroot(p["n"] or "p", self.conv(v, p.get("t")), p.get("t")))
        return out

    def invoke(self, f, lvs, this, env=None, line=None):
        if len(self.stack) > 24:
            raise Undecided("call depth")
        if sum(1 for s in self.stack if s[0] == f["key"]) >= 2:
            raise Undecided("recursion in " + f["name"])
        self.stats["functions"].add(f["key"])
        e = dict(env or {})
        for p, lv in zip(f["params"], lvs):
            e[p["id"]] = lv
        fr = {"env": e, "this": this, "fn": f}
        self.stack.append((f["key"], line))
        depth = len(self.stack)
        try:
            for ini in f.get("inits", []) or []:
                self.do_init(ini, fr)
            self.ex(f["body"], fr)
            r = VOID
        except ReturnX as x:
            r = x.v
        del self.stack[depth - 1:]
        return r

    def do_init(self, ini, fr):
        this = fr["this"]
        if ini.get("delegate") or ini.get("base"):
            e = ini["e"]
            if e is None:
                return
            if e["k"] == "ctor":
                self.intr.ctor_into(e, fr, this)
                return
            raise Undecided("base initialiser")
        fld = ini["field"]
        if ini.get("ref"):
            lv = self.ev(ini["e"], fr)
            if isinstance(lv, LV):
                v = Ref(lv)
            else:
                v = lv if isinstance(lv, Ref) else Ref(self.newroot("tmp", lv))
        elif ini.get("e") is None:
            return
        else:
            v = self.rv(ini["e"], fr)
            if isinstance(v, Init):
                t = ini.get("t")
                v = self.give(v, t) if t else v
        cur = self.st.store[this.root] if not this.path else self.read(this)
        if isinstance(cur, Struct):
            tl = self.resolve_lv(this)
            self.st.store[tl.root] = self.step_write(self.st.store[tl.root], tl.path + (("f", fld, ini.get("t")),), v)
            self.st.writes.append(tl.sub("f", fld, ini.get("t")))
        else:
            raise Undecided("constructor target")

    # -- statements --------------------------------------------------------------------
    def ex(self, s, fr):
        if s is None:
            return
        k = s["k"]
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], s.get("l", self.stack[-1][1]))
        getattr(self, "s_" + k, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Undecided("statement " + s["k"])

    def s_null(self, s, fr):
        pass

    def s_block(self, s, fr):
        for x in s["s"]:
            self.ex(x, fr)

    def s_decls(self, s, fr):
        for x in s.get("s") or s.get("d") or []:
            self.ex(x, fr)

    def s_expr(self, s, fr):
        self.ev(s["e"], fr)

    def s_var(self, s, fr):
        v, e = s["v"], s.get("e")
        if v.get("static") and (not v.get("const") or percall(e)):
            return      # whatever an earlier call left there (see e_ref)
        if e is None:
            t = v.get("t", "")
            if t.startswith("R:"):
                val = Struct(t[2:], None)
            else:
                val = fun("uninit", sym("%s@%s" % (v["n"], s.get("l"))))
            fr["env"][v["id"]] = self.newroot(v["n"], val, v.get("t"))
            return
        x = self.ev(e, fr)
        if v.get("ref"):
            if isinstance(x, LV):
                fr["env"][v["id"]] = self.resolve_lv(x) if not any(st[0] in "iv" for st in x.path) else x
                return
            if isinstance(x, Ref):
                fr["env"][v["id"]] = x.lv
                return
        if isinstance(x, LV):
            x = self.read(x, v.get("t"))
        x = self.conv(x, v.get("t"))
        fr["env"][v["id"]] = self.newroot(v["n"], x, v.get("t"))

    def component(self, x, i):
        """name of the i-th component of a tuple-like object"""
        v = self.read(x)
        while isinstance(v, Ref):
            v = self.read(v.lv)
        return ("first", "second")[i] if isinstance(v, Struct) and v.cls == "std::pair" else str(i)

    def s_bind(self, s, fr):
        v = s["v"]
        x = self.ev(s["e"], fr)
        if not (v.get("ref") and isinstance(x, LV)):
            if isinstance(x, LV):
                x = self.read(x)
            x = self.newroot("bind", x)
        for i, b in enumerate(s["b"]):
            f = b.get("field")
            fr["env"][b["id"]] = x.sub("f", f if f else self.component(x, i), b["t"])

    def s_if(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        if s.get("cv"):
            self.ex(s["cv"], fr)
        c = s["c"]
        if s.get("constexpr"):
            pass
        b = self.tobool(self.rv(c, fr))
        if self.decide(b):
            self.ex(s["a"], fr)
        elif s.get("b"):
            self.ex(s["b"], fr)

    def s_return(self, s, fr):
        e = s.get("e")
        if e is None:
            raise ReturnX(VOID)
        v = self.ev(e, fr)
        f = fr.get("fn")
        if f is not None and f.get("retref"):
            if isinstance(v, Ref) and e.get("t") != "ptr":
                v = v.lv
            raise ReturnX(v)
        if isinstance(v, LV):
            v = self.read(v, e.get("t"))
        if isinstance(v, Init) and f is not None:
            v = self.give(v, f.get("ret"))
        raise ReturnX(v)

    def s_break(self, s, fr):
        raise BreakX()

    def s_continue(self, s, fr):
        raise ContinueX()

    def s_switch(self, s, fr):
        c = self.num(s["c"], fr)
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        flat = []

        def flatten(x):
            if x["k"] == "case":
                flat.append(("case", x["v"]))
                flatten(x["s"])
            elif x["k"] == "default":
                flat.append(("default", None))
                flatten(x["s"])
            else:
                flat.append(("stmt", x))
        for x in body:
            flatten(x)
        start = None
        for i, (k, v) in enumerate(flat):
            if k == "case":
                vv = self.num(v, fr) if isinstance(v, dict) else P(int(v))
                if self.decide(eqv(c, vv)):
                    start = i
                    break
        if start is None:
            for i, (k, v) in enumerate(flat):
                if k == "default":
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    self.ex(x, fr)
        except BreakX:
            pass

    def s_while(self, s, fr):
        self.loop(s, fr, None, s["c"], None, s["body"], cv=s.get("cv"))

    def s_do(self, s, fr):
        self.loop(s, fr, None, s["c"], None, s["body"], post=True)

    def s_for(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        self.loop(s, fr, None, s.get("c"), s.get("inc"), s["body"])

    def s_rfor(self, s, fr):
        d = s["v"]
        deref = d.get("e") or {}
        while deref.get("k") in ("cast", "tmp", "mat"):
            deref = deref.get("e") or deref.get("a") or {}
        if "bg" in s and (deref.get("k") == "call" and deref.get("repo") or self.own_begin(s["bg"])):
            # program-defined iterators: the language's own expansion
            for x in ("rg", "bg", "en"):
                self.ex(s[x], fr)
            self.loop(s, fr, None, s["cd"], s["ic"], {"k": "block", "l": s.get("l"), "s": [d, s["body"]]})
            return
        r = self.ev(s["range"], fr)
        if not isinstance(r, LV):
            r = self.newroot("range", r)
        v = d["v"] if d.get("k") in ("var", "bind") else d
        body = s["body"]
        if d.get("k") == "bind":
            v = dict(v, id=v.get("id", "#bind%s" % s.get("l")))
            v.setdefault("n", "bind")
            body = {"k": "block", "l": s.get("l"), "s": [{"k": "rbind", "src": v["id"], "b": d["b"], "l": s.get("l")}, body]}
        self.loop(s, fr, (r, v), None, None, body)

    def own_begin(self, bg):
        """the range's begin() is a program function with a body"""
        x = bg.get("v", bg).get("init") or bg.get("e") or {}
        while x.get("k") in ("cast", "tmp", "mat"):
            x = x.get("e") or x.get("a") or {}
        return x.get("k") == "call" and x.get("fn") in self.prog.fns

    def s_rbind(self, s, fr):
        x = fr["env"][s["src"]]
        for i, b in enumerate(s["b"]):
            fr["env"][b["id"]] = x.sub("f", b.get("field") or self.component(x, i), b["t"])

    # -- loops ---------------------------------------------------------------------------
    def loop(self, node, fr, rng, cond, inc, body, post=False, cv=None):
        from . import loops
        loops.run(self, node, fr, rng, cond, inc, body, post, cv)

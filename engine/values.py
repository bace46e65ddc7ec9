"""Abstract values."""
from .poly import Poly, Atom, P, atom, ZERO, ONE, sym, sel, fun, norm_scale, subst, Undecided, _hooks
from . import aff

NEG, ZER, POS = -1, 0, 1
ALL = frozenset((NEG, ZER, POS))


MAPS = ("R:std::unordered_map", "R:std::unordered_set", "R:std::map")


class Bool:
    """Condition: constant / sign literal / boolean atom / and / or."""
    __slots__ = ("kind", "a", "b", "key")

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b
        if kind == "c":
            self.key = str(a)
        elif kind == "sg":
            self.key = "sg[%s:%s]" % (a.key, "".join("-0+"[x + 1] for x in sorted(b)))
        elif kind == "at":
            self.key = ("" if b else "!") + a.key
        else:
            self.key = kind + "(" + ",".join(x.key for x in a) + ")"

    def __repr__(self):
        return self.key

    def symset(self):
        if self.kind == "sg":
            return set(self.a.syms())
        if self.kind == "at":
            return set(self.a.syms)
        if self.kind in ("and", "or"):
            s = set()
            for x in self.a:
                s |= x.symset()
            return s
        return set()

    def level(self):
        if self.kind == "sg":
            return max((a.lvl for m in self.a.t for a, _ in m), default=0)
        if self.kind == "at":
            return self.a.lvl
        if self.kind in ("and", "or"):
            return max(x.level() for x in self.a)
        return 0

    def polys(self):
        if self.kind == "sg":
            return [self.a]
        if self.kind == "at":
            return [self.a]
        if self.kind in ("and", "or"):
            return [y for x in self.a for y in x.polys()]
        return []

    def subst(self, mp):
        if self.kind == "sg":
            return sign(subst(self.a, mp), self.b)
        if self.kind == "at":
            r = subst(P(self.a), mp).as_atom()
            if r is None:
                raise Undecided("bool subst")
            return Bool("at", r, self.b)
        if self.kind == "and":
            return b_and(*[x.subst(mp) for x in self.a])
        if self.kind == "or":
            return b_or(*[x.subst(mp) for x in self.a])
        return self


TRUE = Bool("c", True)
FALSE = Bool("c", False)


def sign(p, signs):
    """literal: sign(p) in signs"""
    signs = frozenset(signs)
    c = p.const()
    if c is not None:
        s = (c > 0) - (c < 0)
        return TRUE if s in signs else FALSE
    if signs == ALL:
        return TRUE
    if not signs:
        return FALSE
    d = _two_valued(p)
    if d is not None:
        c, x, y = d
        x = TRUE if ((x > 0) - (x < 0)) in signs else FALSE
        y = TRUE if ((y > 0) - (y < 0)) in signs else FALSE
        return b_or(b_and(c, x), b_and(b_not(c), y))
    q, s = norm_scale(p)
    if s < 0:
        signs = frozenset(-x for x in signs)
    return Bool("sg", q, signs)


def _two_valued(p):
    """p = c*ite(b, x, y) + d with constants x, y: (b, value, value)"""
    if len(p.t) > 2:
        return None
    hit, off = None, 0
    for m, c in p.t.items():
        if not m:
            off = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite" and hit is None:
            a = m[0][0]
            x, y = a.args[1].const(), a.args[2].const()
            if x is None or y is None:
                return None
            hit = (a.args[0], c * x, c * y)
        else:
            return None
    if hit is None:
        return None
    return hit[0], hit[1] + off, hit[2] + off


def b_atom(a, pol=True):
    return Bool("at", a, pol)


def b_not(c):
    if c.kind == "c":
        return FALSE if c.a else TRUE
    if c.kind == "sg":
        return Bool("sg", c.a, ALL - c.b)
    if c.kind == "at":
        return Bool("at", c.a, not c.b)
    if c.kind == "and":
        return b_or(*[b_not(x) for x in c.a])
    return b_and(*[b_not(x) for x in c.a])


def b_and(*cs):
    out = []
    for c in cs:
        if c.kind == "c":
            if not c.a:
                return FALSE
            continue
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Bool("and", tuple(out))


def b_or(*cs):
    out = []
    for c in cs:
        if c.kind == "c":
            if c.a:
                return TRUE
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Bool("or", tuple(out))


def lt(a, b):
    return sign(P(a) - P(b), (NEG,))


def le(a, b):
    return sign(P(a) - P(b), (NEG, ZER))


def eqv(a, b):
    return sign(P(a) - P(b), (ZER,))


def ne(a, b):
    return sign(P(a) - P(b), (NEG, POS))


class Val:
    pass


class Str(Val):
    def __init__(self, parts):
        self.parts = tuple(parts)   # characters (int) or ('base', name) / polys

    @property
    def key(self):
        return "str(" + ",".join(str(getattr(p, "key", p)) for p in self.parts) + ")"


class Struct(Val):
    """(possibly symbolic) object: identity name + overridden fields"""

    def __init__(self, cls, name=None, fields=None):
        self.cls, self.name = cls, name
        self.fields = dict(fields or {})

    @property
    def key(self):
        f = ",".join("%s=%s" % (k, vkey(v)) for k, v in sorted(self.fields.items()))
        if self.name is not None and not f:
            return self.name
        return "%s<%s>{%s}" % (self.cls, self.name or "", f)

    def set(self, f, v):
        n = dict(self.fields)
        n[f] = v
        return Struct(self.cls, self.name, n)

    def __repr__(self):
        return self.key


def rebase(v, old, new):
    """a new object's references to its own parts, moved from root old to new"""
    if isinstance(v, Struct):
        for k, x in v.fields.items():
            if type(x).__name__ == "Ref" and x.lv.root == old:
                v = v.set(k, type(x)(LV(new, x.lv.path)))
    return v


class Closure(Val):
    def __init__(self, fnkey, env, caps, this):
        self.fn, self.env, self.caps, self.this = fnkey, env, caps, this

    @property
    def key(self):
        return "closure(%s)" % self.fn


class FnRef(Val):
    def __init__(self, node):
        self.node = node

    @property
    def key(self):
        return "fn(%s)" % self.node.get("qn")


class Seq(Val):
    """std::vector-like: base identity + appended items"""

    def __init__(self, base, items=()):
        self.base, self.items = base, tuple(items)

    @property
    def key(self):
        if not self.items and self.base is not None:
            return self.base
        return "seq(%s;%s)" % (self.base, ",".join(vkey(i) for i in self.items))


class MapV(Val):
    """container indexed by opaque keys: base identity + ordered writes"""

    def __init__(self, base, writes=(), empty=False):
        self.base, self.writes, self.empty = base, tuple(writes), empty

    @property
    def key(self):
        if not self.writes and not self.empty:
            return self.base
        return "map(%s%s;%s)" % (self.base, "!" if self.empty else "",
                                 ",".join("%s->%s" % (vkey(k), vkey(v)) for k, v in self.writes))


class Sized(MapV):
    """std::vector of n value-initialised elements + element writes"""

    def __init__(self, n, writes=()):
        MapV.__init__(self, sym("sized"), writes, True)
        self.n = n

    @property
    def key(self):
        return "sized(%s;%s)" % (vkey(self.n), ",".join("%s->%s" % (vkey(k), vkey(v)) for k, v in self.writes))


class Init(Val):
    """braced list not yet given a meaning"""

    def __init__(self, items, fields=None):
        self.items, self.fields = list(items), fields

    @property
    def key(self):
        return "{" + ",".join(vkey(i) for i in self.items) + "}"


class Void(Val):
    key = "void"


VOID = Void()


class LV:
    """location: root + access path"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *step):
        return LV(self.root, self.path + (step,))

    @property
    def key(self):
        return "lv(%s%s)" % (self.root, "".join("." + vkey(s) for s in self.path))

    def __repr__(self):
        return self.key


def vkey(v):
    if isinstance(v, tuple):
        return "(" + ",".join(vkey(x) for x in v) + ")"
    return str(getattr(v, "key", v))


# -- arrays -----------------------------------------------------------------------

class Arr(Val):
    """dense array: rank (or None), shape (tuple of Poly/None) and an element
    function  elem(idx, ctx)."""

    def __init__(self, rank, shape, fn, key, base=None):
        self.rank, self.shape, self.fn, self._k, self.base = rank, shape, fn, key, base
        self.tid = None

    @property
    def key(self):
        return self._k

    def elem(self, idx, ctx):
        return self.fn(tuple(P(i) for i in idx), ctx)

    @staticmethod
    def mk(name, rank=None, shape=None, prefix=()):
        prefix = tuple(prefix)
        k = name + ("[" + ",".join(p.key for p in prefix) + "]" if prefix else "")
        a = Arr(rank, shape, lambda idx, ctx: sel(name, prefix + idx), k, base=name)
        return a


def arr_map(f, *arrs, key=""):
    rank = None
    shape = None
    for a in arrs:
        if isinstance(a, Arr):
            if a.rank is not None:
                if rank is None or a.rank > rank:
                    rank, shape = a.rank, a.shape
    if rank is None:
        raise Undecided("rank of array expression unknown")
    return Arr(rank, shape,
               lambda idx, ctx: f(*[(a.elem(idx, ctx) if isinstance(a, Arr) else a) for a in arrs]),
               key + "(" + ",".join(vkey(a) for a in arrs) + ")")


class AStore(Arr):
    """array with point writes layered on a parent"""

    def __init__(self, parent, writes):
        Arr.__init__(self, parent.rank, parent.shape, None, None, base=None)
        self.parent, self.writes = parent, tuple(writes)
        if self.rank is None and writes:
            self.rank = len(writes[0][0])
            self.shape = parent.shape

    @property
    def key(self):
        return "store(%s;%s)" % (self.parent.key, ",".join("%s:=%s" % (vkey(i), vkey(v)) for i, v in self.writes))

    def elem(self, idx, ctx):
        idx = tuple(P(i) for i in idx)
        for w, v in reversed(self.writes):
            if len(w) != len(idx):
                raise Undecided("rank mismatch")
            st = ctx.same_index(w, idx)
            if st is True:
                return v
            if st is False:
                continue
            # maybe equal
            c = b_and(*[eqv(x, y) for x, y in zip(w, idx)])
            rest = AStore(self.parent, self.writes[:self.writes.index((w, v))]).elem(idx, ctx)
            return ite(c, v, rest)
        return self.parent.elem(idx, ctx)


class TArr(Arr):
    """array traced through a loop nest; reads give 'rd' atoms"""

    def __init__(self, tid, parent):
        Arr.__init__(self, parent.rank, parent.shape, None, None)
        self.tid, self.parent = tid, parent
        self.ts = None

    @property
    def key(self):
        return "T(%s@%s)" % (self.tid, vkey(self.ts) if self.ts is not None else "live")

    def elem(self, idx, ctx):
        return ctx.traced_read(self, tuple(P(i) for i in idx))


def ite(c, a, b):
    if c.kind == "c":
        return a if c.a else b
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return P(atom("ite", c, a, b))
    if isinstance(a, Bool) and isinstance(b, Bool):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    raise Undecided("ite of compound values")


def _ite_hook(a, mp, memo):
    c, x, y = a.args
    return ite(c.subst(mp), subst(x, mp, memo), subst(y, mp, memo))


_hooks["ite"] = _ite_hook


def _rd_hook(a, mp, memo):
    tid, idx, ts = a.args
    return P(atom("rd", tid, tuple(subst(i, mp) for i in idx),
                  tuple(subst(t, mp) if isinstance(t, Poly) else t for t in ts)))


_hooks["rd"] = _rd_hook

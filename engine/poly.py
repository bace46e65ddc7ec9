"""Normal forms for the values the analysis computes.

A value is a Laurent polynomial with rational coefficients over *atoms*
(symbols, array elements, uninterpreted applications, square roots, inverse
polynomials, finite sums with bound indices).  Arithmetic is field arithmetic
over the reals; two values are equal iff their difference normalises to zero
after denominators are cleared.  Nothing here runs analysed code.
"""
from fractions import Fraction
from itertools import permutations


class Undecided(Exception):
    """The abstraction cannot represent this construct."""


_atoms = {}
_fresh = [0]


class Atom:
    __slots__ = ("kind", "args", "key", "syms", "lvl")

    def __repr__(self):
        return self.key


def _akey(x):
    if isinstance(x, (Atom, Poly)):
        return x.key
    if isinstance(x, tuple):
        return "(" + ",".join(_akey(y) for y in x) + ")"
    if hasattr(x, "key"):
        return x.key
    return str(x)


def _asyms(x, out):
    if isinstance(x, Atom):
        out |= x.syms
    elif isinstance(x, Poly):
        out |= x.syms()
    elif isinstance(x, tuple):
        for y in x:
            _asyms(y, out)
    elif hasattr(x, "symset"):
        out |= x.symset()


def _alvl(x):
    if isinstance(x, Atom):
        return x.lvl
    if isinstance(x, Poly):
        return max((a.lvl for m in x.t for a, _ in m), default=0)
    if isinstance(x, tuple):
        return max((_alvl(y) for y in x), default=0)
    if hasattr(x, "symset"):
        return x.level()
    return 0


def atom(kind, *args):
    key = kind + "(" + ",".join(_akey(a) for a in args) + ")" if kind != "s" else str(args[0])
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.key = kind, args, key
        s = set()
        if kind == "s":
            s.add(a)
        else:
            for x in args:
                _asyms(x, s)
        a.syms = frozenset(s)
        a.lvl = max((_alvl(x) for x in args), default=0) + (1 if kind == "sum" else 0)
        _atoms[key] = a
    return a


def fresh(prefix):
    _fresh[0] += 1
    return "%s~%d" % (prefix, _fresh[0])


class Poly:
    __slots__ = ("t", "_key", "_syms")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._syms = None

    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = "0"
            else:
                parts = []
                for m, c in self.t.items():
                    parts.append((" ".join(a.key if e == 1 else "%s^%d" % (a.key, e) for a, e in m), c))
                parts.sort(key=lambda z: z[0])
                self._key = "{" + " + ".join("%s*%s" % (c, k) if k else str(c) for k, c in parts) + "}"
        return self._key

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def syms(self):
        if self._syms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.syms
            self._syms = frozenset(s)
        return self._syms

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        acc = Poly({})
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                acc = acc + _mulmono(m1, m2, c1 * c2)
        return acc

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def single(self):
        """(mono, coeff) if exactly one monomial"""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def as_atom(self):
        s = self.single()
        if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1:
            return s[0][0][0]
        return None


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return Poly({(): Fraction(1)}) if x else Poly({})
    f = Fraction(x)
    return Poly({(): f}) if f != 0 else Poly({})


ONE = P(1)
ZERO = P(0)


def sym(name):
    return P(atom("s", name))


def _mkmono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda z: z[0].key))


def _mulmono(m1, m2, c):
    d = dict(m1)
    special = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.kind == "sqrt" and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            x = a.args[0] ** q
            extra = x if extra is None else extra * x
        elif a.kind == "f" and a.args[0] == "abs" and (e >= 2 or e <= -2 and a.args[1][0].single()):
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            x = a.args[1][0] ** (2 * q)
            extra = x if extra is None else extra * x
        elif a.kind == "poly" and e > 0:
            del d[a]
            x = a.args[0] ** e
            extra = x if extra is None else extra * x
    # exp(a)*exp(b): atoms are already split per monomial, nothing to merge
    r = Poly({_mkmono(d): c})
    if extra is not None:
        r = r * extra
    return r


def mono_gcd(p):
    common = None
    for m in p.t:
        d = {a: e for a, e in m}
        if common is None:
            common = d
        else:
            for a in list(common):
                if a in d:
                    e = min(common[a], d[a])
                    common[a] = e
                else:
                    common[a] = min(common[a], 0)
            for a in d:
                if a not in common and d[a] < 0:
                    common[a] = d[a]
    return {a: e for a, e in (common or {}).items() if e != 0}


def inv(p):
    if not p.t:
        return P(atom("f", "1/0"))
    s = p.single()
    if s:
        m, c = s
        return _mulmono((), tuple((a, -e) for a, e in m), 1 / c)
    g = mono_gcd(p)
    gm = _mkmono({a: -e for a, e in g.items()})
    q = _scale(p, gm)
    lead = min(q.t, key=lambda m: " ".join("%s^%d" % (a.key, e) for a, e in m))
    c = q.t[lead]
    q = Poly({m: v / c for m, v in q.t.items()})
    r = Poly({((atom("poly", q), -1),): 1 / c})
    return r * Poly({gm: Fraction(1)}) if gm else r


def _scale(p, m):
    r = ZERO
    for mm, c in p.t.items():
        r = r + _mulmono(mm, m, c)
    return r


def clear(p, limit=40):
    """Multiply p by its denominators; the result is zero iff p is zero."""
    for _ in range(limit):
        best = None
        for m in p.t:
            for a, e in m:
                if a.kind == "poly" and e < 0:
                    if best is None or (a.lvl, a.key) > (best[0].lvl, best[0].key):
                        best = (a, e)
                    if best[0] is a and e < best[1]:
                        best = (a, e)
        if best is None:
            return p
        a, e = best
        q = a.args[0]
        k = -e
        r = ZERO
        for m, c in p.t.items():
            d = dict(m)
            ex = d.pop(a, 0)
            r = r + Poly({_mkmono(d): c}) * (q ** (k + ex))
        p = r
    raise Undecided("denominators too deep")


def eq(a, b):
    d = P(a) - P(b)
    if not d.t:
        return True
    return not clear(d).t


# -- functions ---------------------------------------------------------------

def sel(base, idx):
    return P(atom("sel", base, tuple(P(i) for i in idx)))


def fun(name, *args):
    return P(atom("f", name, tuple(args)))


def sqrt(p):
    c = p.const()
    if c is not None:
        import math
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return P(Fraction(n, d))
    s = p.single()
    if s and s[1] == 1 and all(e % 2 == 0 for _, e in s[0]) and len(s[0]) and all(
            a.key.endswith("!pos") for a, _ in s[0]):
        return Poly({_mkmono({a: e // 2 for a, e in s[0]}): Fraction(1)})
    return P(atom("sqrt", p))


def exp(p):
    r = ONE
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "log" and c.denominator == 1:
            r = r * (m[0][0].args[0] ** int(c))
        elif c.denominator == 1 and m:
            r = r * P(atom("exp", Poly({m: Fraction(1)}))) ** int(c)
        else:
            r = r * P(atom("exp", Poly({m: c})))
    return r


def log(p):
    s = p.single()
    if s:
        m, c = s
        r = ZERO
        if c > 0:
            if c != 1:
                r = r + P(atom("log", P(c)))
            for a, e in m:
                if a.kind == "exp":
                    r = r + a.args[0] * e
                elif a.kind == "poly":
                    r = r + log(a.args[0]) * e
                else:
                    r = r + P(atom("log", P(a))) * e
            return r
    # exponentials common to all terms are positive factors
    if len(p.t) > 1:
        ms = [dict((a, e) for a, e in m if a.kind == "exp") for m in p.t]
        common = {a: min(m[a] for m in ms) for a in ms[0] if all(a in m for m in ms)}
        if common:
            f = ONE
            r = ZERO
            for a, e in common.items():
                f = f * P(a) ** -e
                r = r + a.args[0] * e
            return r + log(p * f)
    return P(atom("log", p))


def pow2(p):
    """2**p with integer offsets pulled out."""
    c = p.t.get((), Fraction(0))
    if c.denominator == 1 and abs(c) < 5000:
        rest = Poly({m: v for m, v in p.t.items() if m != ()})
        r = P(Fraction(2) ** int(c))
        for m, v in rest.t.items():
            if v.denominator == 1:
                r = r * P(atom("pow2", Poly({m: Fraction(1)}))) ** int(v)
            else:
                r = r * P(atom("pow2", Poly({m: v})))
        return r
    return P(atom("pow2", p))


def absv(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    n = norm_sign(p)
    if n[0].single() and n[0].single()[1] != 1:
        q, c = n[0], n[0].single()[1]
        return P(abs(c)) * P(atom("f", "abs", (q * (1 / c),)))
    return P(atom("f", "abs", (n[0],)))


def norm_sign(p):
    """(q, s) with p = s*q, s = +1/-1 and q's leading coefficient positive."""
    if not p.t:
        return p, 1
    lead = min(p.t, key=lambda m: " ".join("%s^%d" % (a.key, e) for a, e in m))
    return (p, 1) if p.t[lead] > 0 else (-p, -1)


def norm_scale(p):
    """(q, s) with q = p / |lead coeff| * s: canonical up to a positive factor
    and a sign."""
    q, s = norm_sign(p)
    if not q.t:
        return q, s
    lead = min(q.t, key=lambda m: " ".join("%s^%d" % (a.key, e) for a, e in m))
    c = q.t[lead]
    return Poly({m: v / c for m, v in q.t.items()}), s


# -- sums ----------------------------------------------------------------------

def affine_in(p, v):
    """(coeff, rest) when p = coeff*v + rest with constant coeff, else None."""
    co = Fraction(0)
    rest = {}
    for m, c in p.t.items():
        if any(v in a.syms for a, _ in m):
            if len(m) == 1 and m[0] == (v, 1):
                co += c
            else:
                return None
        else:
            rest[m] = c
    return co, Poly(rest)


def sum_over(v, lo, hi, body):
    """sum of body for integer v in [lo, hi)  (v is a symbol atom)"""
    lo, hi = P(lo), P(hi)
    n = (hi - lo).const()
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n == 1:
        return subst(body, {v: lo})
    if n is not None and n <= 8 and n.denominator == 1:
        r = ZERO
        for k in range(int(n)):
            r = r + subst(body, {v: lo + k})
        return r
    r = ZERO
    for m, c in body.t.items():
        out = [(a, e) for a, e in m if v not in a.syms]
        ins = [(a, e) for a, e in m if v in a.syms]
        outp = ONE
        for a, e in out:
            outp = outp * Poly({((a, e),): Fraction(1)}) if a.kind not in ("sqrt",) else outp * (P(a) ** e)
        if not ins:
            r = r + outp * c * (hi - lo)
        else:
            r = r + outp * c * _mksum([(v, lo, hi)], ins)
    return r


def _open(a):
    """open a sum atom with fresh bound symbols -> (ranges, mono)"""
    rng, mono = a.args
    mp = {}
    out = []
    for b, lo, hi in rng:
        nv = atom("s", fresh("k"))
        out.append((nv, subst(lo, mp), subst(hi, mp)))
        mp[b] = P(nv)
    mm = []
    for x, e in mono:
        y = subst(P(x), mp).as_atom()
        if y is None:
            raise Undecided("sum body")
        mm.append((y, e))
    return out, mm


def _mksum(rng, mono):
    rng = list(rng)
    work = list(mono)
    mono = []
    while work:
        a, e = work.pop()
        if a.kind == "sum" and e >= 1 and e <= 4:
            for _ in range(e):
                r2, m2 = _open(a)
                rng = rng + r2
                work.extend(m2)
        else:
            mono.append((a, e))
    d = {}
    for a, e in mono:
        d[a] = d.get(a, 0) + e
    mono = [(a, e) for a, e in d.items() if e != 0]
    # independent factors
    vs = [v for v, _, _ in rng]
    comp = {v: {v} for v in vs}

    def join(s):
        s = [v for v in s if v in comp]
        if len(s) > 1:
            u = set()
            for v in s:
                u |= comp[v]
            for v in u:
                comp[v] = u
    for a, e in mono:
        join([v for v in vs if v in a.syms])
    for v, lo, hi in rng:
        dep = [w for w in vs if w in lo.syms() or w in hi.syms()]
        join(dep + [v])
    seen = []
    res = ONE
    groups = []
    for v in vs:
        if not any(v in g for g in groups):
            groups.append(comp[v])
    free = [(a, e) for a, e in mono if not any(v in a.syms for v in vs)]
    for a, e in free:
        res = res * Poly({((a, e),): Fraction(1)})
    for g in groups:
        rg = [x for x in rng if x[0] in g]
        mg = [(a, e) for a, e in mono if any(v in a.syms for v in g)]
        if not mg:
            if len(rg) == 1:
                res = res * (rg[0][2] - rg[0][1])
                continue
            if not any(w in lo.syms() or w in hi.syms() for v, lo, hi in rg for w in g):
                for v, lo, hi in rg:
                    res = res * (hi - lo)
                continue
        res = res * P(_canon_sum(rg, mg))
    return res


def _canon_sum(rng, mono):
    cands = []
    lvl = max([a.lvl for a, _ in mono] + [0]) + 1
    vs = [v for v, _, _ in rng]
    # candidate shifts for every bound variable
    shifts = {}
    for v, lo, hi in rng:
        ss = {}
        for a, _ in mono:
            for x in _idx_exprs(a):
                if v in x.syms():
                    af = affine_in(x, v)
                    if af and abs(af[0]) == 1 and not any(w in af[1].syms() for w in vs if w is not v):
                        ss[(af[0], af[1].key)] = af
        if not ss:
            ss = {0: (Fraction(1), ZERO)}
        shifts[v] = list(ss.values())[:4]

    def rec(i, cur_rng, cur_mono):
        if i == len(cur_rng):
            emit(cur_rng, cur_mono)
            return
        v, lo, hi = cur_rng[i]
        for co, rest in shifts[v]:
            if co == 1 and not rest.t:
                rec(i + 1, cur_rng, cur_mono)
                continue
            # w = co*v + rest  -> v = co*(w - rest)
            w = atom("s", fresh("k"))
            rep = {v: (P(w) - rest) * co}
            if co == 1:
                nr = (w, lo + rest, hi + rest)
            else:
                nr = (w, rest - hi + 1, rest - lo + 1)
            nrng = [nr if x[0] is v else (x[0], subst(x[1], rep), subst(x[2], rep)) for x in cur_rng]
            nm = []
            for a, e in cur_mono:
                y = subst(P(a), rep).as_atom()
                if y is None:
                    break
                nm.append((y, e))
            else:
                rec(i + 1, nrng, nm)

    def emit(rg, mn):
        for perm in permutations(range(len(rg))) if len(rg) <= 4 else [tuple(range(len(rg)))]:
            pr = [rg[i] for i in perm]
            ok = True
            seen = set()
            for v, lo, hi in pr:
                dep = {w for w, _, _ in pr if w in lo.syms() or w in hi.syms()}
                if not dep <= seen:
                    ok = False
                    break
                seen.add(v)
            if not ok:
                continue
            mp = {}
            out = []
            for i, (v, lo, hi) in enumerate(pr):
                b = atom("s", "#%d_%d" % (lvl, i))
                out.append((b, subst(lo, mp), subst(hi, mp)))
                mp[v] = P(b)
            mm = []
            bad = False
            for a, e in mn:
                y = subst(P(a), mp).as_atom()
                if y is None:
                    bad = True
                    break
                mm.append((y, e))
            if bad:
                continue
            mm.sort(key=lambda z: z[0].key)
            cands.append((tuple(out), tuple(mm)))

    rec(0, list(rng), list(mono))
    if not cands:
        raise Undecided("sum canonicalisation")
    best = min(cands, key=lambda z: _akey(z))
    return atom("sum", best[0], best[1])


def _idx_exprs(a):
    if a.kind == "sel":
        for x in a.args[1]:
            yield x
    elif a.kind == "f":
        for x in a.args[1]:
            if isinstance(x, Poly):
                yield x
                for m in x.t:
                    for b, _ in m:
                        yield from _idx_exprs(b)
    elif a.kind in ("exp", "log", "sqrt", "poly", "pow2"):
        for m in a.args[0].t:
            for b, _ in m:
                yield from _idx_exprs(b)
    elif a.kind == "s":
        yield P(a)
    elif a.kind == "rd":
        for x in a.args[1]:
            yield x


# -- substitution -----------------------------------------------------------------
_hooks = {}


def subst(p, mp, memo=None):
    """simultaneous substitution of symbol atoms (or any atoms) by polys"""
    if not mp or not p.t:
        return p
    keys = set(mp)
    if all(k.kind == "s" for k in keys) and not (p.syms() & keys):
        return p
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            q = q * (_subst_atom(a, mp, memo) ** e)
        r = r + q
    return r


def _subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "s" or (all(k.kind == "s" for k in mp) and not any(k in a.syms for k in mp)):
        r = P(a)
    elif a.kind == "sel":
        r = _subst_sel(a, mp, memo)
    elif a.kind == "f":
        r = rebuild_fun(a.args[0], tuple(_subst_any(x, mp, memo) for x in a.args[1]))
    elif a.kind == "sqrt":
        r = sqrt(subst(a.args[0], mp, memo))
    elif a.kind == "exp":
        r = exp(subst(a.args[0], mp, memo))
    elif a.kind == "log":
        r = log(subst(a.args[0], mp, memo))
    elif a.kind == "pow2":
        r = pow2(subst(a.args[0], mp, memo))
    elif a.kind == "poly":
        r = subst(a.args[0], mp, memo)
    elif a.kind == "sum":
        rng, mono = _open(a)
        nr = [(v, subst(lo, mp), subst(hi, mp)) for v, lo, hi in rng]
        body = ONE
        for x, e in mono:
            body = body * (subst(P(x), mp) ** e)
        for v, lo, hi in reversed(nr):
            body = sum_over(v, lo, hi, body)
        r = body
    elif a.kind in _hooks:
        r = _hooks[a.kind](a, mp, memo)
    else:
        r = P(atom(a.kind, *(_subst_any(x, mp, memo) for x in a.args)))
    memo[a] = r
    return r


def _subst_sel(a, mp, memo):
    return sel(a.args[0], tuple(subst(x, mp, memo) for x in a.args[1]))


def rebuild_fun(name, args):
    if name == "abs" and isinstance(args[0], Poly):
        return absv(args[0])
    return fun(name, *args)


def _subst_any(x, mp, memo):
    if isinstance(x, Poly):
        return subst(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp, memo) for y in x)
    if isinstance(x, Atom):
        return x
    if hasattr(x, "subst"):
        return x.subst(mp)
    return x


def atoms_of(p, out=None, deep=True):
    """all atoms occurring in p (deeply)"""
    if out is None:
        out = set()
    if isinstance(p, Poly):
        for m in p.t:
            for a, _ in m:
                atoms_of(a, out, deep)
    elif isinstance(p, Atom):
        if p in out:
            return out
        out.add(p)
        if deep:
            for x in p.args:
                atoms_of(x, out, deep)
    elif isinstance(p, tuple):
        for x in p:
            atoms_of(x, out, deep)
    elif hasattr(p, "polys"):
        for x in p.polys():
            atoms_of(x, out, deep)
    return out


# -- differentiation ------------------------------------------------------------------

def diff(p, base, idx, extra=None):
    """d p / d base[idx] (idx: tuple of polys).  ``extra(atom)`` may supply the
    derivative of further atoms."""
    r = ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            da = _datom(a, base, idx, extra)
            if not da.t:
                continue
            rest = P(c) * e
            for j, (b, f) in enumerate(m):
                if j == k:
                    if f != 1:
                        rest = rest * (P(b) ** (f - 1))
                else:
                    rest = rest * (P(b) ** f)
            r = r + rest * da
    return r


def delta(a, b):
    """Kronecker delta; decided when the difference is constant"""
    d = P(a) - P(b)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    n, _ = norm_scale(d)
    return P(atom("f", "delta", (n,)))


def _datom(a, base, idx, extra):
    if extra is not None:
        x = extra(a)
        if x is not None:
            return x
    if a.kind == "s":
        if a.args[0] == base and not idx:
            return ONE
        return ZERO
    if a.kind == "sel":
        if a.args[0] == base:
            r = ONE
            for x, y in zip(a.args[1], idx):
                r = r * delta(x, y)
            return r
        return ZERO
    if a.kind == "exp":
        return P(a) * diff(a.args[0], base, idx, extra)
    if a.kind == "log":
        return diff(a.args[0], base, idx, extra) * inv(a.args[0])
    if a.kind == "sqrt":
        return diff(a.args[0], base, idx, extra) * inv(P(a)) * Fraction(1, 2)
    if a.kind == "poly":
        return diff(a.args[0], base, idx, extra)
    if a.kind == "sum":
        rng, mono = _open(a)
        body = ONE
        for x, e in mono:
            body = body * (P(x) ** e)
        d = diff(body, base, idx, extra)
        for v, lo, hi in reversed(rng):
            d = sum_delta(v, lo, hi, d)
        return d
    if a.kind == "f" and a.args[0] in ("delta",):
        return ZERO
    used = atoms_of(a)
    if any((b.kind == "sel" and b.args[0] == base) or (b.kind == "s" and b.args[0] == base) for b in used):
        raise Undecided("derivative of " + a.key[:80])
    return ZERO


def sum_delta(v, lo, hi, body):
    """sum_over that contracts Kronecker deltas in v (assumes the contracted
    index lies in range)"""
    r = ZERO
    for m, c in body.t.items():
        hit = None
        for a, e in m:
            if a.kind == "f" and a.args[0] == "delta" and v in a.syms and e >= 1:
                af = affine_in(a.args[1][0], v)
                if af and abs(af[0]) == 1:
                    hit = (a, af)
                    break
        if hit:
            a, (co, rest) = hit
            val = -rest * co
            q = P(c)
            for b, f in m:
                if b is a:
                    continue
                q = q * (subst(P(b), {v: val}) ** f)
            r = r + q
        else:
            r = r + sum_over(v, lo, hi, Poly({m: c}))
    return r

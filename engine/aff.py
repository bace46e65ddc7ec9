"""Affine facts: Fourier-Motzkin elimination over rationals (integer-tightened
strict inequalities).  Monomials are treated as independent variables, which is
sound for showing a set of constraints infeasible."""
from fractions import Fraction
from .poly import P, Poly

INTF = set()       # names of integer-valued functions
NONNEG = set()     # unsigned symbols / functions
INT = set()          # symbol names known to be integers


def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
            if not is_int_atom(a):
                return False
    return True


def is_int_atom(a):
    if a.kind == "s":
        return a.args[0] in INT or a.args[0].startswith("#") or a.args[0].startswith("k~")
    if a.kind == "f":
        return a.args[0] in ("size", "len", "idiv", "imod", "shape", "trunc", "ceil", "floor", "round") or a.args[0] in INTF
    return False


def _con(p, strict):
    return (dict((m, c) for m, c in p.t.items() if m != ()), p.t.get((), Fraction(0)), strict)


def infeasible(ge, gt=(), eqs=(), limit=4000):
    """True if {p>=0 for ge} & {p>0 for gt} & {p==0 for eqs} has no solution."""
    cons = []
    for p in ge:
        cons.append(_con(p, False))
    for p in gt:
        if is_int_poly(p):
            cons.append(_con(p - 1, False))
        else:
            cons.append(_con(p, True))
    eql = [_con(p, False) for p in eqs]
    # substitute equalities
    while eql:
        co, k, _ = eql.pop()
        if not co:
            if k != 0:
                return True
            continue
        v = min(co, key=lambda m: str(m))
        cv = co[v]

        def red(c):
            d, kk, s = c
            if v not in d:
                return c
            f = d[v] / cv
            nd = dict(d)
            for m, x in co.items():
                y = nd.get(m, 0) - f * x
                if y == 0:
                    nd.pop(m, None)
                else:
                    nd[m] = y
            return (nd, kk - f * k, s)
        cons = [red(c) for c in cons]
        eql = [red(c) for c in eql]
    while True:
        vs = {}
        live = []
        seen = set()
        for d, k, s in cons:
            if not d:
                if k < 0 or (s and k <= 0):
                    return True
                continue
            sc = max(abs(x) for x in d.values())
            key = (tuple(sorted(((str(m), x / sc) for m, x in d.items()))), k / sc, s)
            if key in seen:
                continue
            seen.add(key)
            live.append((d, k, s))
            for m, x in d.items():
                a = vs.setdefault(m, [0, 0])
                a[0 if x > 0 else 1] += 1
        if not vs:
            return False
        cons = live
        if len(cons) > limit:
            return False
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], str(m)))
        pos = [c for c in cons if c[0].get(v, 0) > 0]
        neg = [c for c in cons if c[0].get(v, 0) < 0]
        rest = [c for c in cons if v not in c[0]]
        for d1, k1, s1 in pos:
            a = d1[v]
            for d2, k2, s2 in neg:
                b = -d2[v]
                nd = {}
                for m, x in d1.items():
                    if m != v:
                        nd[m] = nd.get(m, 0) + x * b
                for m, x in d2.items():
                    if m != v:
                        nd[m] = nd.get(m, 0) + x * a
                nd = {m: x for m, x in nd.items() if x != 0}
                rest.append((nd, k1 * b + k2 * a, s1 or s2))
        cons = rest


def prove_ge(facts, p):
    """facts (list of polys >= 0) imply p >= 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return c >= 0
    return infeasible(list(facts), [-p])


def prove_ne(facts, p):
    p = P(p)
    c = p.const()
    if c is not None:
        return c != 0
    return infeasible(list(facts), (), [p])


def prove_eq(facts, p):
    p = P(p)
    c = p.const()
    if c is not None:
        return c == 0
    return prove_ge(facts, p) and prove_ge(facts, -p)

"""Witness search for refuted obligations: evaluates the *normal forms* (never
the analysed program) at sampled valuations.  Interpreted atoms are evaluated
faithfully, uninterpreted applications are functions of their argument values,
so a satisfied negation is a genuine counter-model of the obligation."""
import random
from fractions import Fraction
import math
import time
import mpmath
from .poly import Poly
from . import aff
from .values import Bool

mpmath.mp.dps = 45
NICE = [Fraction(x) for x in (0, 1, 2, 3, -1, -2)] + [Fraction(1, 2), Fraction(3, 2), Fraction(-1, 3), Fraction(5)]
EPS = Fraction(1, 10 ** 18)


SYMMETRIC = set()     # array symbols standing for symmetric matrices


class Skip(Exception):
    """this valuation is outside the domain of some term"""


class NoModel(Exception):
    """a term has no faithful evaluation"""


def tofrac(x):
    if not mpmath.isfinite(x) or abs(x) > mpmath.mpf(10) ** 30:
        raise Skip()
    return Fraction(int(mpmath.nint(x * mpmath.mpf(10) ** 40)), 10 ** 40)


def tomp(x):
    return mpmath.mpf(x.numerator) / x.denominator


class Model:
    def __init__(self, rng):
        self.rng = rng
        self.memo = {}
        self.env = {}
        self.named = {}
        self.inexact = False
        self.positive = ()
        self.atoms = {}
        self.used = set()

    def poly(self, p):
        r = Fraction(0)
        for m, c in p.t.items():
            x = c
            for a, e in m:
                v = self.atom(a)
                if v == 0 and e < 0:
                    raise Skip()
                x = x * v ** e
            r += x
        return r

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Bool):
            return self.bool(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return getattr(x, "key", str(x))

    def key(self, a):
        if a.kind == "s":
            return a.key
        return (a.args[0],) + self.arg(a.args[1])

    def choice(self, a):
        rng = self.rng
        n = str(a.args[0])
        if n.startswith("b?"):
            return Fraction(rng.choice([0, 1]))
        if a.kind == "f" and n in ("len", "size", "shape"):
            return Fraction(rng.choice([0, 1, 2, 3, 4]))
        if aff.is_int_atom(a):
            if n.startswith("k~") or n in aff.NONNEG:
                return Fraction(rng.choice([0, 1, 2, 3, 4, 5]))
            return Fraction(rng.choice([0, 1, 2, 3, 4, 5, -1, -3]))
        if n in aff.NONNEG or n in self.positive:
            return abs(rng.choice(NICE[1:]))
        return rng.choice(NICE)

    def atom(self, a):
        k = a.kind
        if k == "s":
            if a in self.env:
                return self.env[a]
            v = self.memo.get(a.key)
            if v is None:
                v = self.memo[a.key] = self.choice(a)
                self.named[a.key] = v
            if a.key not in self.atoms:
                self.atoms[a.key] = a
            self.used.add(a.key)
            return v
        if k == "poly":
            return self.poly(a.args[0])
        if k == "ite":
            return self.poly(a.args[1] if self.bool(a.args[0]) else a.args[2])
        if k == "sqrt":
            x = self.poly(a.args[0])
            if x < 0:
                if x > -EPS:
                    return Fraction(0)
                raise Skip()
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            self.inexact = True
            return Fraction(math.isqrt(x.numerator * x.denominator * 10 ** 80), x.denominator * 10 ** 40)
        if k in ("exp", "log", "pow2"):
            x = self.poly(a.args[0])
            if k == "pow2" and x.denominator == 1 and abs(x) < 200:
                return Fraction(2) ** int(x)
            if k == "log" and x <= 0 or abs(x) > 50:
                raise Skip()
            self.inexact = True
            return tofrac({"exp": mpmath.exp, "log": mpmath.log, "pow2": lambda z: mpmath.power(2, z)}[k](tomp(x)))
        if k == "sum":
            return self.sum(a)
        if k == "sel" or k == "f":
            n = a.args[0]
            if k == "f":
                r = self.interp(n, a)
                if r is not None:
                    return r
            key = self.key(a)
            if n in SYMMETRIC and len(key) == 3:
                key = (n,) + tuple(sorted(key[1:]))
            v = self.memo.get(key)
            if v is None:
                v = self.memo[key] = self.choice(a)
                self.named[a.key] = v
            if key not in self.atoms:
                self.atoms[key] = a
            self.used.add(key)
            return v
        raise NoModel(k)

    def interp(self, n, a):
        if n in ("abs", "trunc", "ceil", "floor", "round"):
            x = self.poly(a.args[1][0])
            if n == "abs":
                return abs(x)
            if n == "trunc":
                return Fraction(int(x))
            if n == "ceil":
                return Fraction(math.ceil(x))
            if n == "floor":
                return Fraction(math.floor(x))
            return Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
        if n in ("idiv", "imod"):
            x, y = (self.poly(z) for z in a.args[1])
            if y == 0:
                raise Skip()
            q = Fraction(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
            return q if n == "idiv" else x - q * y
        if n == "gcd":
            x, y = (self.poly(z) for z in a.args[1])
            if x.denominator != 1 or y.denominator != 1:
                raise Skip()
            return Fraction(math.gcd(int(x), int(y)))
        if n == "delta":
            return Fraction(1 if self.poly(a.args[1][0]) == 0 else 0)
        if n in ("cos", "sin", "log10", "log2", "pow", "tan"):
            xs = [self.poly(z) for z in a.args[1]]
            self.inexact = True
            if n in ("log10", "log2") and xs[0] <= 0 or n == "pow" and (xs[0] <= 0 or abs(xs[1]) > 40):
                raise Skip()
            f = {"cos": mpmath.cos, "sin": mpmath.sin, "tan": mpmath.tan, "log10": mpmath.log10,
                 "log2": lambda z: mpmath.log(z, 2), "pow": mpmath.power}[n]
            return tofrac(f(*[tomp(x) for x in xs]))
        if n == "1/0":
            raise Skip()
        return None

    def sum(self, a):
        rng, mono = a.args
        saved = dict(self.env)

        def rec(i):
            if i == len(rng):
                x = Fraction(1)
                for b, e in mono:
                    v = self.atom(b)
                    if v == 0 and e < 0:
                        raise Skip()
                    x *= v ** e
                return x
            v, lo, hi = rng[i]
            l, h = self.poly(lo), self.poly(hi)
            if l.denominator != 1 or h.denominator != 1 or h - l > 40 or h < l:
                raise Skip()
            t = Fraction(0)
            for j in range(int(l), int(h)):
                self.env[v] = Fraction(j)
                t += rec(i + 1)
            return t
        try:
            return rec(0)
        finally:
            self.env = saved

    def bool(self, b):
        if b.kind == "c":
            return b.a
        if b.kind == "sg":
            x = self.poly(b.a)
            if self.inexact and abs(x) < EPS:
                x = 0
            return ((x > 0) - (x < 0)) in b.b
        if b.kind == "at":
            return (self.atom(b.a) != 0) == b.b
        if b.kind == "and":
            return all([self.bool(x) for x in b.a])
        return any([self.bool(x) for x in b.a])

    # -- guided sampling: fix an unassigned linear atom so that b holds
    def satisfy(self, b):
        if b.kind == "and":
            return all([self.satisfy(x) for x in b.a])
        if b.kind == "or":
            xs = list(b.a)
            self.rng.shuffle(xs)
            for x in xs:
                if self.satisfy(x):
                    return True
            return False
        if b.kind == "sg":
            free = None
            r = Fraction(0)
            for m, c in b.a.t.items():
                if free is None and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("s", "sel", "f"):
                    a = m[0][0]
                    if a.kind == "f" and self.interpreted(a.args[0]):
                        r += c * self.atom(a)
                        continue
                    k = self.key(a)
                    if k not in self.memo and not (a.kind == "s" and a in self.env):
                        free = (a, c, k)
                        continue
                x = c
                for a, e in m:
                    v = self.atom(a)
                    if v == 0 and e < 0:
                        raise Skip()
                    x = x * v ** e
                r += x
            if free is None or free[2] in self.memo:
                return self.bool(b)
            a, c, k = free
            isint = aff.is_int_atom(a) or str(a.args[0]).startswith("b?") or a.kind == "f" and a.args[0] in ("len", "size", "shape")
            s = self.rng.choice(sorted(b.b))
            step = Fraction(self.rng.choice([1, 1, 2, 3])) if isint else self.rng.choice([Fraction(1, 2), Fraction(1), Fraction(2), Fraction(1, 10)])
            v = -r / c
            if isint and v.denominator != 1:
                if s == 0:
                    return False
                v = Fraction(math.floor(v))
            v = v + (s if c > 0 else -s) * step
            if str(a.args[0]).startswith("b?") and v not in (0, 1):
                v = Fraction(self.rng.choice([0, 1]))
            if (a.args[0] in aff.NONNEG or a.args[0] in ("len", "size", "shape") or str(a.args[0]).startswith("k~")) and v < 0:
                return False
            self.memo[k] = v
            self.named[a.key] = v
            return self.bool(b)
        return self.bool(b)

    @staticmethod
    def interpreted(n):
        return n in ("abs", "trunc", "ceil", "floor", "round", "idiv", "imod", "delta", "cos", "sin", "log10", "log2",
                     "pow", "tan", "1/0", "gcd")


def witness(conds, test, facts=(), gts=(), eqs=(), tries=1500, seed=1, positive=()):
    """a valuation satisfying conds, facts >= 0, gts > 0, eqs == 0 and test"""
    rng = random.Random(seed)
    t0 = time.time()
    if SPENT[0] > 400:
        return None
    if FOUND[0] is not None and SPENT[0] > FOUND[0] + 60:
        return None
    quick, long = (5, 12) if SPENT[0] < 200 else (1, 2) if SPENT[0] < 300 else (0.2, 0.4)
    if FOUND[0] is not None:
        quick, long = min(quick, 1), min(long, 2)
    try:
        return search(conds, test, facts, gts, eqs, tries, rng, positive, quick, long)
    finally:
        SPENT[0] += time.time() - t0


FOUND = [None]     # seconds searched when the run's first new violation turned up
SPENT = [0.0]      # seconds of search in this run (the check has to answer in time)


def search(conds, test, facts, gts, eqs, tries, rng, positive, quick, long):
    t0 = time.process_time()
    checks = [lambda m, c=c: m.bool(c) for c in sorted(conds, key=lambda c: len(c.key))]
    checks += [lambda m, p=p: m.poly(p) >= 0 for p in facts] + [lambda m, p=p: m.poly(p) > 0 for p in gts]
    checks += [lambda m, p=p: m.poly(p) == 0 for p in eqs] + [lambda m: m.bool(test)]
    for i in range(tries):
        if i % 16 == 15 and time.process_time() - t0 > quick:
            break
        m = Model(rng)
        m.positive = positive
        try:
            if i % 3 == 1:
                m.satisfy(test)
            good = all(m.satisfy(c) for c in conds) and m.satisfy(test)
            if good and all([c(m) for c in checks]):
                return m.named
        except Skip:
            continue
        except NoModel:
            return None
        except (OverflowError, ZeroDivisionError):
            continue
    polys = {}
    for c in list(conds) + [test]:
        signs_in(c, polys)
    polys = list(polys.values()) + list(facts) + list(gts)
    return walk(conds, test, checks, rng, positive, long, polys)


def signs_in(b, out):
    if b.kind in ("and", "or"):
        for x in b.a:
            signs_in(x, out)
    elif b.kind == "sg":
        out.setdefault(b.a.key, b.a)


def roots(m, k, polys):
    """where the compared quantities change sign as entry k varies alone"""
    v = m.memo[k]
    out = set()
    for p in polys:
        try:
            m.used = set()
            y0 = m.poly(p)
            if k not in m.used:
                continue
            m.memo[k] = v + 1
            y1 = m.poly(p)
            m.memo[k] = v - 1
            y2 = m.poly(p)
        except (Skip, OverflowError, ZeroDivisionError):
            continue
        finally:
            m.memo[k] = v
        a, b = (y1 + y2) / 2 - y0, (y1 - y2) / 2
        if abs(a) < EPS:
            if b:
                out.add(v - y0 / b)
        else:
            d = b * b - 4 * a * y0
            if d >= 0:
                r = Fraction(math.isqrt(int(d * 10 ** 24))) / 10 ** 12
                out.update((v + (-b + r) / (2 * a), v + (-b - r) / (2 * a)))
    return sorted(out)


def between(m, k, polys):
    """candidate values of entry k: one per interval between sign changes"""
    a = m.atoms[k]
    n = str(a.args[0])
    if n.startswith("b?"):
        return []
    rs = roots(m, k, polys)
    if not rs:
        return []
    if len(rs) > 12:
        rs = m.rng.sample(rs, 12)
        rs.sort()
    cs = [rs[0] - 1] + [(x + y) / 2 for x, y in zip(rs, rs[1:])] + [rs[-1] + 1] + rs
    low = a.kind == "f" and n in ("len", "size", "shape") or n.startswith("k~") or n in aff.NONNEG or n in m.positive
    if is_whole(a):
        cs = sorted({Fraction(f(c)) for c in cs for f in (math.floor, math.ceil)})
        return [c for c in cs if c >= (1 if n in m.positive else 0)] if low else cs
    return [c for c in cs if c > 0] if low else cs


def walk(conds, test, checks, rng, positive, limit, polys, restarts=60, steps=80):
    """local search: re-draw one entry of a violated constraint at a time"""
    t0 = time.process_time()

    def violated(m):
        out = []
        for c in checks:
            m.used = set()
            try:
                if c(m):
                    continue
            except (Skip, OverflowError, ZeroDivisionError):
                pass
            out.append(m.used)
        return out

    try:
        for i in range(restarts):
            m = Model(rng)
            m.positive = positive
            for c in conds:
                try:
                    m.satisfy(c)
                except (Skip, OverflowError, ZeroDivisionError):
                    pass
            bad = violated(m)
            for j in range(steps):
                if not bad:
                    m.named = {m.atoms[k].key: v for k, v in m.memo.items() if k in m.atoms}
                    return m.named
                if time.process_time() - t0 > limit:
                    return None
                ks = sorted(rng.choice(bad), key=str)
                if not ks:
                    break
                k = rng.choice(ks)
                old = m.memo[k]
                if rng.random() < 0.4:
                    best = None
                    for c in between(m, k, polys):
                        m.memo[k] = c
                        now = violated(m)
                        if best is None or len(now) < len(best[0]) or len(now) == len(best[0]) and rng.random() < 0.3:
                            best = (now, c)
                    if best and (len(best[0]) <= len(bad)):
                        bad, m.memo[k] = best
                    else:
                        m.memo[k] = old
                    continue
                m.memo[k] = m.choice(m.atoms[k]) if rng.random() < 0.8 or is_whole(m.atoms[k]) else old * rng.choice(SCALE)
                now = violated(m)
                if len(now) <= len(bad) or rng.random() < 0.05:
                    bad = now
                else:
                    m.memo[k] = old
    except NoModel:
        pass
    return None


SCALE = [Fraction(x) for x in (10, -1, 2)] + [Fraction(1, 10), Fraction(1, 2)]


def is_whole(a):
    n = str(a.args[0])
    return n.startswith("b?") or aff.is_int_atom(a) or a.kind == "f" and n in ("len", "size", "shape") or n in aff.NONNEG

"""Rational numbers: value identities, sign and lowest-terms normal form of every
operation; gcd/lcm; no narrowing of wide integers."""
from engine import frontend
from engine.harness import *
from engine.poly import P, ZERO, ONE, fun, Poly, Undecided, inv, subst, atoms_of, absv
from engine.values import *

UNITS = ["tu:pylib"]
FR = "fun::Fraction"
aff.INTF.add("gcd")


def canon(p):
    q = -p
    return p if p.key <= q.key else q


def gcd(a, b):
    a, b = canon(a), canon(b)
    if a.key > b.key:
        a, b = b, a
    for x in (a, b):
        if x.const() is not None and abs(x.const()) == 1:
            return ONE
    if not a.t:
        return None
    return fun("gcd", a, b)


def gcd_call(I, n, fr):
    x, y = (I.rv(a, fr) for a in n["args"])
    x, y = I.topoly(x), I.topoly(y)
    for c, o in ((x, y), (y, x)):
        k = I.known(eqv(c, 0))
        if k is True:       # gcd(0, o) = |o|
            return o if I.decide(le(0, o)) else -o
    r = gcd(x, y)
    return r


def gatoms(p):
    return [a for a in atoms_of(p) if a.kind == "f" and a.args[0] == "gcd"]


def exact(a, b):
    """a / b when b is a greatest common divisor of (a multiple of) a, or a itself"""
    if not a.t:
        return ZERO
    if a.key == b.key:
        return ONE
    s = b.single()
    if not s:
        return None
    m, c = s
    if abs(c) != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "f" or m[0][0].args[0] != "gcd":
        return None
    g = m[0][0]
    for z in g.args[1]:
        if divides(z, a):
            return a * inv(P(g)) * P(c)
    return None


def divides(z, a):
    """z divides the integer polynomial a (a = z * integer polynomial)"""
    if z.key in (a.key, (-a).key):
        return True
    sz, sa = z.single(), a.single()
    if sz and sa and abs(sz[1]) == 1:
        d = dict(sa[0])
        return all(e > 0 and d.get(x, 0) >= e for x, e in sz[0])
    return False


def units(p):
    """p as a product of integer quantities: each A/gcd(A,B) kept together"""
    s = p.single()
    if not s:
        return [p]
    m, c = s
    d = dict(m)
    out = []
    for a, e in m:
        if e < 0:
            if a.kind != "f" or a.args[0] != "gcd" or e != -1:
                return None
            for z in a.args[1]:
                sz = z.single()
                if sz and all(d.get(x, 0) >= k for x, k in sz[0]) and (c / sz[1]).denominator == 1:
                    c /= abs(sz[1])
                    for x, k in sz[0]:
                        d[x] -= k
                    out.append(z * inv(P(a)))
                    break
            else:
                return None
    for a, e in d.items():
        if e > 0:
            out += [P(a)] * e
    if abs(c) != 1:
        out.append(P(abs(c)))
    return out or [ONE]


def whole(u):
    """the integer of which the unit u is a divisor"""
    for a in gatoms(u):
        u = u * P(a) if dict(u.single()[0] if u.single() else ()).get(a, 0) < 0 else u
    return u


def coprime(I, x, y, base, depth=4):
    for p in (x, y):
        if p.const() is not None and abs(p.const()) == 1:
            return True
    g = gcd(x, y)
    if g is not None and I.known(eqv(g, 1)) is True:
        return True
    for a in gatoms(x) + gatoms(y):
        s, t = x * P(a), y * P(a)
        zs = sorted((canon(s).key, canon(t).key))
        if zs == sorted(canon(z).key for z in a.args[1]):
            return True
    for p, q in base:
        if sorted((canon(x).key, canon(y).key)) == sorted((canon(p).key, canon(q).key)):
            return True
    if depth == 0:
        return False
    # a multiple of the second one may be added to or taken from the first
    for u, v in ((x, y), (y, x)):
        if len(u.t) > 1:
            rest = Poly({m: c for m, c in u.t.items() if not divides(v, Poly({m: Fraction(1)}))})
            if rest.key != u.key and rest.t and coprime(I, rest, v, base, depth - 1):
                return True
    ux, uy = units(x), units(y)
    if ux and uy and (len(ux) > 1 or len(uy) > 1):
        return all(coprime(I, u, v, base, depth - 1) for u in ux for v in uy)
    for u, v in ((x, y), (y, x)):
        w = whole(u)
        if w.key != u.key and coprime(I, w, v, base, depth - 1):
            return True
    return False


an, ad, bn, bd, i = (sym(x) for x in ("an", "ad", "bn", "bd", "i"))
j = sym("j")
OPS = {   # name: (expected numerator, denominator, preconditions)
    "l_add": (an * bd + bn * ad, ad * bd, []), "l_sub": (an * bd - bn * ad, ad * bd, []),
    "l_mul": (an * bn, ad * bd, []), "l_div": (an * bd, ad * bn, [ne(bn, 0)]),
    "l_add_i": (an + i * ad, ad, []), "l_sub_i": (an - i * ad, ad, []), "l_mul_i": (an * i, ad, []),
    "l_div_i": (an, ad * i, [ne(i, 0)]),
    "l_i_add": (an + i * ad, ad, []), "l_i_sub": (i * ad - an, ad, []), "l_i_mul": (an * i, ad, []),
    "l_one_add": (an + ad, ad, []), "l_one_sub": (ad - an, ad, []), "l_two_mul": (an * 2, ad, []),
    "l_neg": (-an, ad, []), "l_abs": (absv(an), ad, []), "l_recip": (ad, an, [ne(an, 0)]),
    "l_new": (i, j, [ne(j, 0)]), "l_new_m": (i, j, [ne(j, 0)]), "l_new1": (i, ONE, []), "l_new1_m": (i, ONE, []),
}
# an operand that is the object itself
OPS.update({"l_addeq_self": (an * 2, ad, []), "l_subeq_self": (ZERO, ad, []), "l_muleq_self": (an * an, ad * ad, []), "l_diveq_self": (ONE, ONE, [ne(an, 0)])})
for k in ("add", "sub", "mul", "div"):
    OPS["l_%seq" % k] = OPS["l_" + k]
    OPS["l_%seq_i" % k] = OPS["l_%s_i" % k]
l1, r1 = an * bd, bn * ad
CMP = {
    "l_lt": lt(l1, r1), "l_le": le(l1, r1), "l_gt": lt(r1, l1), "l_ge": le(r1, l1), "l_eq": eqv(l1, r1), "l_ne": ne(l1, r1),
    "l_lt_i": lt(an, i * ad), "l_le_i": le(an, i * ad), "l_gt_i": lt(i * ad, an), "l_ge_i": le(i * ad, an),
    "l_eq_i": eqv(an, i * ad), "l_ne_i": ne(an, i * ad),
    "l_i_lt": lt(i * ad, an), "l_i_le": le(i * ad, an), "l_i_gt": lt(an, i * ad), "l_i_ge": le(an, i * ad),
    "l_i_eq": eqv(an, i * ad), "l_i_ne": ne(an, i * ad),
}
# n/d in lowest terms equals an integer k only if d = 1: comparisons with an
# integer are decided for n != k d and for d = 1


def frac(name):
    return lambda I: Struct(FR, None, {"_numerator": sym(name + "n"), "_denominator": sym(name + "d")})


def under(I, st, lem, v):
    """[v, *lem] with the alternatives of v that lem excludes removed"""
    with At(I, st) as J:
        try:
            for c in lem:
                J.assume(c)
            if v.kind == "or":
                v = b_or(*[x for x in v.a if J.known(x) is not False])
        except AbortPath:
            pass
    return lem + [v] if v.kind != "and" else [v] + lem


class Op:
    def __init__(self, rep, pr, name):
        self.rep, self.pr, self.name = rep, pr, name
        self.f = pr.one(qn="vw::" + name)
        ps = self.f["params"]
        for x in ("an", "ad", "bn", "bd", "i", "j"):
            aff.INT.add(x)
        cfg = {"positive": ("ad", "bd"), "posfun": ("gcd",), "idiv": exact, "intrinsics": {"fun::gcd": gcd_call}}
        args = {p["n"]: frac(p["n"]) for p in ps if p["t"] == "R:" + FR}
        self.pre = OPS[name][2] if name in OPS else []

        def setup(I, lvs, this):
            for c in self.pre:
                I.assume(c)
        self.I, self.parts, self.lvs, _ = analyse(pr, self.f, cfg, rep=rep, args=args, setup=setup)
        # the repository function the entry point reaches first
        self.where = entry(pr, self.f)
        for st, k in self.parts:
            if k[0] != "ret":
                rep.und("summary", self.where, "%s: partition not summarised: %s" % (name[2:], k[1:]))
                continue
            try:
                self.part(st, k[1])
            except Undecided as e:
                rep.und("summary", self.where, "%s: %s" % (name[2:], e))

    def part(self, st, v):
        I, rep, w, nm = self.I, self.rep, self.where, self.name[2:]
        if self.name in CMP:
            want = CMP[self.name]
            if not isinstance(v, Bool):
                v = ne(v, 0)
            for lem in ([[ne(an, i * ad)], [eqv(ad, 1)]] if "_i" in self.name else [[]]):
                require(rep, I, st, want, "compare", w, nm + ": true only if the order of the values says so", under(I, st, lem, v))
                require(rep, I, st, b_not(want), "compare", w, nm + ": false only if the order of the values says so", under(I, st, lem, b_not(v)))
            return
        n, d = v.fields["_numerator"], v.fields["_denominator"]
        wn, wd, _ = OPS[self.name]
        equal(rep, I, st, n * wd, wn * d, "value", w, nm + ": exact value")
        require(rep, I, st, lt(0, d), "positive", w, nm + ": denominator positive")
        with At(I, st) as J:
            ok = J.known(eqv(d, 1)) is True or any(a.kind == "f" and a.args[0] == "idiv" for a in atoms_of(n) | atoms_of(d)) is False and \
                coprime(J, J.simp_ite(n), J.simp_ite(d), [(an, ad), (bn, bd)])
        if ok:
            rep.ok("lowest", w, nm + ": numerator and denominator coprime")
            return
        # alarm only with integers for which a common factor is left
        w2 = confirm(I, st, list(st.pc) + coprime_conds(n, d), lt(1, fun("gcd", n, d)), list(st.ge))
        if w2 is not None:
            rep.bad("lowest", w, "%s: result not in lowest terms for %s" % (nm, show(w2)))
        else:
            rep.und("lowest", w, nm + ": numerator %s and denominator %s coprime given %s" % (n, d, st.pc))


def coprime_conds(*ps):
    out = []
    at = set(a.args[0] for p in ps for a in atoms_of(p) if a.kind == "s")
    if "an" in at or "ad" in at:
        out.append(eqv(fun("gcd", an, ad), 1))
    if "bn" in at or "bd" in at:
        out.append(eqv(fun("gcd", bn, bd), 1))
    return out


def calls(f):
    from engine.frontend import walk_nodes
    for n in walk_nodes(f["body"]):
        if n.get("k") in ("call", "ctor"):
            yield n


def entry(pr, f):
    for n in calls(f):
        g = pr.fns.get(n.get("fn"))
        if g is not None and "fractions.hpp" in g["file"]:
            return "%s(%s):%d" % (strip(g["qn"]), ",".join(p["t"].split("::")[-1] for p in g["params"]), g["line"])
    return "fractions.hpp:" + f["name"]


def gcd_itself(rep, pr):
    for f in pr.fns.values():
        if f["qn"] not in ("fun::gcd", "fun::lcm") or (f.get("targs") or "") not in ("long", "int"):
            continue
        w = "%s<%s>:%d" % (f["qn"], f["targs"], f["line"])
        a, b = (sym(x) for x in ("i", "j"))
        aff.INT.update(("i", "j"))
        args = {f["params"][0]["n"]: a, f["params"][1]["n"]: b}
        rec = []

        def rcall(I, n, fr):
            r = gcd_call(I, n, fr)
            return r
        cfg = {"posfun": ("gcd",), "idiv": exact, "intrinsics": {"fun::gcd": rcall}}
        I, parts, lvs, _ = analyse(pr, f, cfg, rep=rep, args=args)
        for st, k in parts:
            if k[0] != "ret":
                rep.und("gcd", w, "partition not summarised: %s" % (k[1:],))
                continue
            v = k[1]
            try:
                with At(I, st) as J:
                    za, zb = J.known(eqv(a, 0)), J.known(eqv(b, 0))
                    if f["qn"] == "fun::gcd":
                        if zb is True:
                            want = J.intr.absval(a)
                        elif za is True:
                            want = J.intr.absval(b)
                        else:
                            want = gcd(a, b)
                            v = euclid(v, a, b)
                    else:
                        want = ZERO if za is True or zb is True else J.intr.absval(a) * J.intr.absval(b) * inv(gcd(a, b))
                equal(rep, I, st, v, want, "gcd" if f["qn"] == "fun::gcd" else "lcm", w,
                      "value is the %s" % ("greatest common divisor" if f["qn"] == "fun::gcd" else "least common multiple"))
            except Undecided as e:
                rep.und("gcd", w, str(e))


def euclid(v, a, b):
    """gcd(b, a mod b) is gcd(a, b): one Euclidean step (also with abs / -)"""
    s = v.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1 and s[0][0][0].kind == "f" and s[0][0][0].args[0] == "gcd":
        xs = [canon(unabs(z)).key for z in s[0][0][0].args[1]]
        for p, q in ((a, b), (b, a)):
            ok = {canon(fun("imod", x, y)).key for x in (p, -p, absv(p)) for y in (q, -q, absv(q))}
            ok |= {canon(p - q).key, canon(p + q).key}
            for k in (0, 1):
                if xs[k] == canon(q).key and xs[1 - k] in ok:
                    return gcd(a, b)
    return v


def unabs(z):
    s = z.single()
    if s and len(s[0]) == 1 and s[0][0][1] == 1 and s[0][0][0].kind == "f" and s[0][0][0].args[0] == "abs" and abs(s[1]) == 1:
        return s[0][0][0].args[1][0]
    return z


WIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}


def narrowing(rep, pr):
    """no conversion of a wide integer to a narrower type in the wide instance"""
    from engine.frontend import walk_nodes
    seen = 0
    for f in pr.fns.values():
        if "fractions.hpp" not in f["file"] or not ("<long>" in f["qn"] or (f.get("targs") or "").startswith("long")):
            continue
        seen += 1
        w = "%s(%s):%d" % (strip(f["qn"]), ",".join(p["t"].split("::")[-1] for p in f["params"]), f["line"])
        bad = None
        for n in walk_nodes([f["body"]] + (f.get("inits") or [])):
            if n.get("k") == "cast" and WIDTH.get(n.get("ft"), 0) > WIDTH.get(n.get("t"), 99):
                bad = n
            if n.get("k") == "cast" and n.get("c") in ("i2f",):
                bad = n
        if bad is None:
            rep.ok("narrowing", w, "no integer is narrowed")
        else:
            rep.bad("narrowing", w, "%s narrowed to %s at line %s" % (bad.get("ft"), bad.get("t"), bad.get("l")))
    if not seen:
        raise Broken("no wide instance of the rational type")


def p17(rep):
    pr = frontend.load(UNITS)
    rep.use(pr)
    for name in list(OPS) + list(CMP):
        section(rep, name, Op, rep, pr, name)
    f = pr.one(qn="vw::l_cmp")
    I, parts, lvs, _ = analyse(pr, f, {"positive": ("ad", "bd")}, rep=rep, args={p["n"]: frac(p["n"]) for p in f["params"]})
    for st, k in parts:
        if k[0] != "ret":
            rep.und("compare", entry(pr, f), str(k[1:]))
            continue
        for nm, c, d in (("negative", lt(k[1], 0), lt(l1, r1)), ("zero", eqv(k[1], 0), eqv(l1, r1)), ("positive", lt(0, k[1]), lt(r1, l1))):
            require(rep, I, st, d, "compare", entry(pr, f), "cmp is %s exactly as the values compare" % nm, [c])
    for nm, c in (("l_num", an), ("l_den", ad)):
        f = pr.one(qn="vw::" + nm)
        I, parts, lvs, _ = analyse(pr, f, {}, rep=rep, args={"a": frac("a")})
        for st, k in parts:
            if k[0] == "ret":
                equal(rep, I, st, k[1], c, "access", entry(pr, f), nm[2:] + " is the stored component")
    gcd_itself(rep, pr)
    narrowing(rep, pr)

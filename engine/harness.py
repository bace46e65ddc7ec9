"""Entry-point analysis, obligations, witnesses, verdicts and evidence."""
import json
import os
import random
import sys
import time
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, fun, sym, subst, atoms_of, eq as peq, Undecided, clear
from . import poly, aff, concrete
from .values import *
from .interp import Interp, AbortPath, ThrowX, OutOfRange, State, Ref, subst_val
from .frontend import Broken, VERIF, REPO

TIER = "quick"
LATE = False
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.ob = []          # (status, rule, site, text)
        self.units = set()
        self.stats = {"functions": set(), "partitions": 0, "loops": 0, "branches": 0}
        self.notes = []

    def ok(self, rule, site, text=""):
        self.ob.append(("ok", rule, site, text))

    def bad(self, rule, site, text):
        self.ob.append(("violation", rule, site, text))
        if concrete.FOUND[0] is None and ident(rule, site) not in [k for k, _ in load_known(self.pid)]:
            concrete.FOUND[0] = concrete.SPENT[0]     # the verdict is settled: search less from here on

    def und(self, rule, site, text):
        self.ob.append(("undecided", rule, site, text))

    def merge(self, I):
        self.stats["functions"] |= I.stats["functions"]
        for k in ("partitions", "loops", "branches"):
            self.stats[k] += I.stats[k]

    def use(self, prog):
        self.units |= set(prog.units)


def site(f, line=None):
    fn = f if isinstance(f, str) else f["qn"].split("<")[0] if f["qn"].endswith(">") else strip(f["qn"])
    return fn + ("" if line is None else ":%s" % line)


def strip(q):
    from .intrin import strip_t
    return strip_t(q)


def fileline(f, line=None):
    return "%s:%s" % (os.path.relpath(f["file"], REPO) if f["file"].startswith(REPO) else f["file"], line or f["line"])


def analyse(prog, f, cfg=None, setup=None, this=None, rep=None, args=None):
    """all partitions of function f started on symbolic arguments.
    returns (interp, [(state, kind)], argument locations, this location)"""
    I = Interp(prog, cfg)
    lvs = []
    thislv = None
    if this is not None:
        root = "this:" + this
        I.st.store[root] = I.symval(this, "this") if not callable(this) else this
        thislv = LV(root)
    for i, p in enumerate(f["params"]):
        root = (p["n"] or "arg%d" % i) + ":" + p["t"]
        v = None
        if args and p["n"] in args:
            v = args[p["n"]]
            if callable(v):
                v = v(I)
        if v is None:
            v = I.symval(p["t"], p["n"] or "arg%d" % i)
        I.st.store[root] = v
        lvs.append(LV(root))
    if setup:
        setup(I, lvs, thislv)

    def go():
        try:
            return ("ret", I.invoke(f, lvs, thislv, None, f["line"]))
        except OutOfRange as x:
            return ("oob", x.what)
        except ThrowX:
            return ("throw",)
    parts = I.enumerate(I.st, go, top=True)
    if rep is not None:
        rep.merge(I)
    return I, [q for p in parts for q in decided(I, *p)], lvs, thislv


def decided(I, st, kd):
    """a partition whose answer carries open flags, split by those flags"""
    if kd[0] != "ret" or not isinstance(kd[1], Struct):
        return [(st, kd)]
    b = flag(kd[1])
    if b is None:
        return [(st, kd)]
    out = []
    for side in (True, False):
        s2 = st.clone()
        with At(I, s2):
            try:
                k = I.known(b)
                if k is not None and k is not side:
                    continue
                if k is None:
                    I.assume(b if side else b_not(b))
            except AbortPath:
                continue
            s2 = I.st.clone()
        out += decided(I, s2, (kd[0], settle(kd[1], b.key, TRUE if side else FALSE)) + tuple(kd[2:]))
    return out


def flag(v):
    """the first open truth value inside a compound"""
    if isinstance(v, Bool):
        return None if v.kind == "c" else v
    if isinstance(v, Struct):
        for x in v.fields.values():
            b = flag(x)
            if b is not None:
                return b
    return None


def settle(v, key, to):
    if isinstance(v, Bool):
        return to if v.key == key else v
    if isinstance(v, Struct):
        return Struct(v.cls, v.name, {k: settle(x, key, to) for k, x in v.fields.items()})
    return v


class At:
    """temporarily install a state (for reads / entailment queries)"""

    def __init__(self, I, st):
        self.I, self.s = I, st.clone()

    def __enter__(self):
        self.saved = self.I.st
        self.I.st = self.s
        return self.I

    def __exit__(self, *a):
        self.I.st = self.saved


# -- witnesses: valuations of the normal forms -----------------------------------

from .concrete import witness as _witness


def witness(conds, test, facts=(), tries=1500, seed=1, gts=(), positive=()):
    return _witness(conds, test, facts, gts, tries=tries, seed=seed, positive=positive)


def phis_in(*xs):
    """ids of loops whose carried values occur in the given conditions/values"""
    out = set()
    for x in xs:
        for p in (x.polys() if isinstance(x, Bool) else [x]):
            for a in atoms_of(p):
                if a.kind == "s" and a.key.startswith("k~L"):
                    out.add(a.key[2:].rstrip("'"))
                if a.kind == "f":
                    n = str(a.args[0])
                    n = n[2:] if n.startswith("b?") else n
                    if n.startswith("phiL"):
                        out.add(n[3:n.index(":")])
    return out


def instances(I, info, x, depth=2):
    """carried values of the loop at iteration j = 0..depth: list of
    (substitution for the phis at iteration index x, conditions)"""
    ph = {}
    for key, v in info.phis.items():
        if key in info.closed or key not in info.mods or info.mods[key][1] == "traced":
            continue
        a = v.as_atom() if isinstance(v, Poly) else None
        if isinstance(v, Bool):
            a = v.a.as_atom() if v.kind == "sg" else None
        if a is not None:
            ph[key] = (a, info.mods[key][2], isinstance(v, Bool), info.mods[key][0])
    ka = info.k.as_atom()

    def num(v, isb):
        if isb:
            if isinstance(v, Bool):
                return I.topoly(v)
        if isinstance(v, Bool):
            return I.topoly(v)
        return v if isinstance(v, Poly) else None

    level = [({k: num(i, b) for k, (a, i, b, l) in ph.items()}, [])]
    out = []
    for j in range(depth + 1):
        for vals, conds in level:
            mp = {}
            for k, (a, i, b, l) in ph.items():
                if vals.get(k) is not None:
                    b2 = subst(P(a), {ka: x}).as_atom() if x is not None else a
                    mp[b2] = vals[k]
            out.append((j, mp, conds))
        nxt = []
        for vals, conds in level:
            mp = {ka: P(j)}
            for k, (a, i, b, l) in ph.items():
                if vals.get(k) is not None:
                    mp[a] = vals[k]
            for b, _ in info.back:
                nv = {}
                for k, (a, i, isb, loc) in ph.items():
                    try:
                        with At(I, b):
                            w = num(I.read(loc), isb)
                        nv[k] = subst(w, mp) if w is not None else None
                    except Undecided:
                        nv[k] = None
                try:
                    nc = conds + [subst_val(c, mp) for c in b.pc]
                except Undecided:
                    continue
                if any(c.kind == "c" and not c.a for c in nc):
                    continue
                nxt.append((nv, nc))
        level = nxt[:12]
    return out


def _phis(info):
    for key, v in info.phis.items():
        if key in info.closed or key not in info.mods or info.mods[key][1] == "traced":
            continue
        isb = isinstance(v, Bool)
        a = v.a.as_atom() if isb and v.kind == "sg" else (v.as_atom() if isinstance(v, Poly) else None)
        if a is not None:
            yield key, a, info.mods[key][0], info.mods[key][2]


def initial(I, info):
    """substitution: carried values of the first iteration"""
    mp = {info.k.as_atom(): ZERO}
    for key, a, loc, init in _phis(info):
        if isinstance(init, (Poly, Bool)):
            mp[a] = I.topoly(init)
    return mp


def following(I, info, b):
    """substitution: carried values after back partition b"""
    mp = {info.k.as_atom(): info.k + 1}
    with At(I, b):
        for key, a, loc, init in _phis(info):
            v = I.read(loc)
            if isinstance(v, (Poly, Bool)):
                mp[a] = I.topoly(v)
    return mp


def confirm(I, st, conds, test, facts):
    """a witness that is reachable in the first iterations of the loops whose
    carried values it mentions; None when there is none"""
    gts = [p for p in I.st.gt if not phis_in(p)]
    pos = I.cfg.get("positive", ())
    if I.defs:
        try:
            conds = [subst_val(c, I.defs) for c in conds]
            facts = [subst(p, I.defs) for p in facts]
            gts = [subst(p, I.defs) for p in gts]
            test = subst_val(test, I.defs)
        except Undecided:
            return None
    ids = phis_in(test, *conds, *facts)
    if not ids or I.cfg.get("free_phi"):
        # (free_phi: the caller's conditions describe the carried values of an
        # arbitrary reachable iteration)
        w = witness(conds, test, facts, gts=gts, positive=pos)
        return w
    infos = {l.lid: l for l in list(st.loops) + CUR}
    info = infos.get(sorted(ids)[0])
    if info is None:
        return None
    xs = [info.k]
    if getattr(info, "kexit", None) is not None and info.kexit.key != info.k.key:
        xs.append(info.kexit)
    for x in xs:
        for j, mp, cs in instances(I, info, x):
            if x.as_atom() is not None:
                mp = dict(mp)
                mp[x.as_atom()] = P(j)
                more = []
            else:
                more = [eqv(x, j)]
            try:
                c2 = [subst_val(c, mp) for c in conds] + cs + more
                t2 = subst_val(test, mp)
                f2 = [subst(p, mp) for p in facts]
            except Undecided:
                continue
            if any(c.kind == "c" and not c.a for c in c2 + [t2]):
                continue
            if phis_in(t2, *c2):
                continue
            w = witness(c2, t2, f2, gts=gts, positive=pos)
            if w is not None:
                w["(iteration)"] = j
                return w
    return None


def show(val, n=8):
    return ", ".join("%s=%s" % (short(a), v) for a, v in list(val.items())[:n])


def short(k, n=90):
    import re
    k = re.sub(r"phi(L\d+):lv\((\w+)[#:][^)]*\)", r"\2@\1", k)
    k = k.replace("1*", "")
    return k if len(k) <= n else k[:n - 3] + "..."


CUR = []     # loops whose iteration is being examined


class inloop:
    def __init__(self, *infos):
        self.infos = infos

    def __enter__(self):
        CUR.extend(self.infos)

    def __exit__(self, *a):
        del CUR[len(CUR) - len(self.infos):]


def never(rep, I, st, rule, where, text, extra=()):
    """obligation: partition st is infeasible"""
    return require(rep, I, st, FALSE, rule, where, text, extra)


def _atoms(I, b, out):
    """the undecided atomic conditions of b"""
    if b.kind in ("and", "or"):
        for x in b.a:
            _atoms(I, x, out)
    elif b.kind != "c" and I.known(b) is None:
        out.setdefault(b.key, b)


def entails(I, cond, depth=6):
    """the state entails cond, by splitting on the atomic conditions that the
    domain leaves open in cond and in the disjunctions assumed so far"""
    k = I.known(cond)
    if k is not True and I.st.eqs:
        mp = {a: v for a, v in I.solved().items() if a.kind == "s"}
        if mp:
            # congruence: equal arguments, equal values
            st = I.st
            with At(I, st):
                for c in st.pc:
                    try:
                        c2 = subst_val(c, mp)
                        if c2.key != c.key:
                            I.assume(c2)
                    except Undecided:
                        pass
    if k is not None or depth == 0:
        return k
    at = {}
    _atoms(I, cond, at)
    if len(at) < 2 and cond.kind not in ("and", "or"):
        at = {}
    for b in I.st.pc:
        if b.kind in ("and", "or"):
            kb = I.known(b)
            if kb is False:
                raise AbortPath()
            if kb is None:
                _atoms(I, b, at)
    if len(at) > 12:
        return None
    for b in at.values():
        r = []
        for side in (b, b_not(b)):
            st = I.st
            try:
                with At(I, st):
                    I.assume(side)
                    for c in I.st.pc:
                        if c.kind in ("and", "or") and I.known(c) is False:
                            raise AbortPath()
                    r.append(entails(I, cond, depth - 1))
            except AbortPath:
                pass
        if all(x is True for x in r):
            return True
        if all(x is False for x in r):
            return False
        return None
    return None


def require(rep, I, st, cond, rule, where, text, extra=()):
    """obligation: cond holds in every valuation of partition st (+extra)"""
    keep = getattr(type(rep), "keep", None)
    if keep is not None and not keep(rep, rule):
        return None
    with At(I, st):
        try:
            for x in extra:
                k = I.known(x)
                if k is False:
                    rep.ok(rule, where, text + " (vacuous)")
                    return True
                if k is None:
                    I.assume(x)
            k = I.known(cond)
            if k is None:
                k = entails(I, cond)
        except AbortPath:
            rep.ok(rule, where, text + " (infeasible)")
            return True
        if k is True:
            rep.ok(rule, where, text)
            return True
        if k is None and I.defs:
            try:
                if I.known(subst_val(cond, I.defs)) is True:
                    rep.ok(rule, where, text)
                    return True
            except (Undecided, AbortPath):
                pass
        if sum(1 for o in rep.ob if o[0] == "violation" and o[1] == rule and o[2] == where) >= 2:
            rep.und(rule, where, text + " (same rule already violated here)")
            return None
        conds = [b for b in I.st.pc]
        facts = list(I.st.ge)
        w = confirm(I, st, conds + list(extra), b_not(cond), facts)
        if w is not None:
            rep.bad(rule, where, "%s -- fails for %s" % (text, show(w)))
            return False
        if k is False:
            rep.und(rule, where, text + " (refuted by the domain, no witness)")
            return None
        rep.und(rule, where, text)
        return None


def same(a, b):
    """Bool: a equals b (numbers / booleans / compounds by key)"""
    if isinstance(a, Bool) or isinstance(b, Bool):
        if isinstance(a, Poly):
            a = ne(a, 0)
        if isinstance(b, Poly):
            b = ne(b, 0)
        if a.key == b.key:
            return TRUE
        if a.key == b_not(b).key:
            return FALSE
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
    if isinstance(a, Poly) and isinstance(b, Poly):
        if peq(a, b):
            return TRUE
        return eqv(a, b)
    return TRUE if vkey(a) == vkey(b) else None


def equal(rep, I, st, a, b, rule, where, text, extra=()):
    c = same(a, b)
    if c is None:
        try:
            with At(I, st):
                c = eqv(I.reify(a), I.reify(b))
        except Undecided as e:
            rep.und(rule, where, text + ": " + str(e))
            return None
    return require(rep, I, st, c, rule, where, text, extra)


# -- verdict ------------------------------------------------------------------------

def ident(rule, site):
    return "%s@%s" % (rule, site.rsplit(":", 1)[0] if site.rsplit(":", 1)[-1].isdigit() else site)


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                ident, _, what = rest.partition(" :: ")
                out.append((ident.strip(), what.strip()))
    return out


def finish(rep, tier, seed, t0, level, explanation, floor):
    ob = rep.ob
    bad = [o for o in ob if o[0] == "violation"]
    und = [o for o in ob if o[0] == "undecided"]
    ok = [o for o in ob if o[0] == "ok"]
    known = load_known(rep.pid)
    new = []
    hit = {}
    for o in bad:
        oid = ident(o[1], o[2])
        for k, what in known:
            if k == oid:
                hit[k] = what
                break
        else:
            new.append((oid, o))
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    fns = sorted(rep.stats["functions"])
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "translation_units": sorted(rep.units),
            "functions_analysed": len(fns),
            "function_keys": fns[:400],
            "trace_partitions": rep.stats["partitions"],
            "loops_summarised": rep.stats["loops"],
            "branch_decisions": rep.stats["branches"],
            "obligations": len(ob), "discharged": len(ok), "undecided": len(und),
            "violations": len(new), "known_findings": sorted(hit),
            "rules": count([o[1] for o in ob]),
            "undecided_list": ["%s @ %s: %s" % o[1:] for o in und][:40],
            "samples": ["%s @ %s: %s" % o[1:] for o in ok][:25],
            "notes": rep.notes,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(evd, rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d partitions, %d loops"
          % (rep.pid, len(ob), len(ok), len(und), len(bad), len(fns), rep.stats["partitions"], rep.stats["loops"]))
    for o in und[:20]:
        print("UNDECIDED %s @ %s: %s" % o[1:])
    for k, what in hit.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (rep.pid, k, what))
    if new:
        path = os.path.join(evd, rep.pid + ".violation.txt")
        with open(path, "w") as fh:
            for _, o in new:
                fh.write("rule %s\nsite %s\n%s\n\n" % (o[1], o[2], o[3]))
        for _, o in new[:10]:
            print("  rule %s at %s: %s" % (o[1], o[2], o[3][:600]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    if len(ob) < floor and not und:
        print("ANALYSIS-BROKEN: only %d obligations generated (floor %d)" % (len(ob), floor))
        return 2
    return 0


def section(rep, where, fn, *args):
    """run one group of obligations; what the analysis cannot express becomes
    one undecided obligation instead of hiding the other groups"""
    if LATE:
        rep.und("analysis", where, "out of time")
        return None
    try:
        return fn(*args)
    except Broken:
        raise
    except (Undecided, AbortPath, ThrowX) as e:
        rep.und("analysis", where, "%s: %s" % (type(e).__name__, e))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.und("analysis", where, "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d

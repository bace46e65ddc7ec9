"""Python-style helpers: ranges, enumeration, dictionaries, sets (P21).

The clients in tu/pylib.cpp use each operation once; what they return or pass
on is compared with the mathematical model for every argument."""
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, fun
from engine.values import *

a, b, c, d, k, j, x, y = (sym(n) for n in "a b c d k j x y".split())
D, S = sym("d"), sym("s")


def has(m, q):
    from engine import aff
    aff.INTF.add("b?has")
    return ne(fun("b?has", m, q), 0)


def val(m, q):
    return fun(m.key.strip("{}").replace("1*", "") + "[]", q)


def if_(cond, p, q):
    return [(cond, p), (b_not(cond), q)]


def both(c1, *cases):
    return [(b_and(c1, c), v) for c, v in cases]


EMPTY = le(b, a)
EMPTY1 = le(b, 0)
THROWS = "throws"

# function -> (what it shows, cases [(condition, value)])
VALUES = {
    "p_range_has": ("membership in range(a, b)", [(TRUE, b_and(le(a, k), lt(k, b)))]),
    "p_range_none": ("emptiness of range(a, b)", [(TRUE, EMPTY)]),
    "p_range_len": ("size of range(a, b)", if_(EMPTY, ZERO, b - a)),
    "p_range_at": ("k-th element of range(a, b)", [(TRUE, a + k)]),
    "p_range1_has": ("membership in range(b)", [(TRUE, b_and(le(0, k), lt(k, b)))]),
    "p_range1_none": ("emptiness of range(b)", [(TRUE, EMPTY1)]),
    "p_range1_len": ("size of range(b)", if_(EMPTY1, ZERO, b)),
    "p_range1_at": ("k-th element of range(b)", [(TRUE, k)]),
    "p_range_same": ("range(a, b) begins where range(c, d) ends", [(b_and(le(a, b), le(c, d)), eqv(a, d))]),
    "d_has": ("membership", [(TRUE, has(D, k))]),
    "d_in": ("key < dictionary", [(TRUE, has(D, k))]),
    "d_at": ("look-up in a constant dictionary", if_(has(D, k), val(D, k), THROWS)),
    "d_get": ("look-up with a default", if_(has(D, k), val(D, k), x)),
    "d_get_keeps": ("a look-up with a default adds nothing", [(TRUE, has(D, j))]),
    "d_set": ("look-up after an assignment", if_(eqv(j, k), x, None)[:1] + both(ne(j, k), *if_(has(D, j), val(D, j), y))),
    "d_set_has": ("membership after an assignment", [(TRUE, b_or(eqv(j, k), has(D, j)))]),
    "d_len": ("length", [(TRUE, fun("len", D))]),
    "d_set_len": ("length after an assignment", if_(has(D, k), fun("len", D), fun("len", D) + 1)),
    "d_copy": ("look-up in a changed copy", if_(eqv(j, k), x, None)[:1] + both(ne(j, k), *if_(has(D, j), val(D, j), y))),
    "d_copy_orig": ("changing a copy leaves the original", [(TRUE, has(D, j))]),
    "d_items": ("the items are the dictionary itself", if_(eqv(j, k), x, None)[:1] + both(ne(j, k), *if_(has(D, j), val(D, j), y))),
    "d_citems": ("number of items", [(TRUE, fun("len", D))]),
    "d_lit": ("membership in a literal", [(TRUE, eqv(j, k))]),
    "d_lit_get": ("look-up in a literal", if_(eqv(j, k), x, y)),
    "d_none": ("membership in an empty dictionary", [(TRUE, FALSE)]),
    "d_move": ("a moved-to dictionary has the elements", [(TRUE, has(D, k))]),
    "s_has": ("membership", [(TRUE, has(S, k))]),
    "s_in": ("key < set", [(TRUE, has(S, k))]),
    "s_len": ("length", [(TRUE, fun("len", S))]),
    "s_none": ("membership in an empty set", [(TRUE, FALSE)]),
    "s_lit": ("membership in a literal", [(TRUE, eqv(j, k))]),
    "s_add": ("membership after an insertion", [(TRUE, b_or(eqv(j, k), has(S, j)))]),
    "s_copy": ("membership in a changed copy", [(TRUE, b_or(eqv(j, k), has(S, j)))]),
    "s_copy_orig": ("changing a copy leaves the original", [(TRUE, has(S, j))]),
}
_PR = []


def prog(rep):
    if not _PR:
        _PR.append(frontend.load(["tu:pylib"]))
    rep.use(_PR[0])
    return _PR[0]


def anchor(name):
    kind = {"p_range": "py::range", "p_enum": "py::enumerate", "d_": "py::dict", "s_": "py::set"}
    return next(v for q, v in kind.items() if name.startswith(q)) + " (" + name + ")"


def values(rep, pr, name):
    text, cases = VALUES[name]
    f = pr.one(qn="vw::" + name)
    w = anchor(name)
    I, parts, lvs, this = analyse(pr, f, {}, rep=rep)
    for st, kd in parts:
        if kd[0] not in ("ret", "throw"):
            rep.und("model", w, text + ": " + str(kd)[:150])
            continue
        for cond, v in cases:
            if kd[0] == "throw" or v is THROWS:
                if kd[0] == "throw" and v is THROWS:
                    rep.ok("model", w, text + ": throws when absent")
                else:
                    never(rep, I, st, "model", w, text + (": throws" if kd[0] == "throw" else ": no exception"), (cond,))
                continue
            equal(rep, I, st, kd[1], v, "model", w, text, (cond,))


def sequence(rep, pr, name, text, count, item, callee):
    """the client's loop passes on item(k) for k = 0 .. count-1"""
    f = pr.one(qn="vw::" + name)
    w = anchor(name)
    I, parts, lvs, this = analyse(pr, f, {}, rep=rep)
    cases = count if isinstance(count, list) else [(TRUE, count)]
    for st, kd in parts:
        if kd[0] != "ret":
            rep.und("sequence", w, text + ": " + str(kd)[:150])
            continue
        direct = [e for e in st.events if e.kind != "loop"]
        if direct and callee and not any(i.back for i in st.loops):
            # every iteration is an instance of its own
            for cond, n in cases:
                equal(rep, I, st, P(len(direct)), n, "sequence", w, text + ": number of elements", (cond,))
            for i, ev in enumerate(direct):
                got = [q[0] if isinstance(q, tuple) else q for q in ev.args]
                for g, e in zip(got, item(P(i))):
                    equal(rep, I, st, g, e, "sequence", w, text + ": element")
            continue
        if len(st.loops) != 1 or direct:
            raise Undecided("%s: %d loops" % (name, len(st.loops)))
        info = st.loops[0]
        with inloop(info):
            for cond, n in cases:
                with At(I, st):
                    if I.known(cond) is False:
                        continue
                if not info.back:
                    equal(rep, I, st, n, ZERO, "sequence", w, text + ": number of elements", (cond,))
                    continue
                if info.trip is None:
                    rep.und("sequence", w, text + ": number of iterations")
                else:
                    equal(rep, I, st, info.trip, n, "sequence", w, text + ": number of elements", (cond,))
            for bk, _ in info.back:
                ev = [e for e in bk.events if e.kind != "loop"]
                if callee is None:
                    continue
                if len(ev) != 1 or not ev[0].name.endswith(callee):
                    rep.bad("sequence", w, text + ": %d elements in one step" % len(ev))
                    continue
                got = [q[0] if isinstance(q, tuple) else q for q in ev[0].args]
                for g, e in zip(got, item(info.k)):
                    equal(rep, I, bk, g, e, "sequence", w, text + ": element")
            for ex, why in info.exits:
                if why[0] != "cond":
                    rep.bad("sequence", w, text + ": leaves by " + str(why[0]))
    return I, parts, lvs


def sequences(rep, pr):
    A = lambda k_: [a + k_]
    rng = if_(EMPTY, ZERO, b - a)
    section(rep, "py::range", sequence, rep, pr, "p_range", "range(a, b)", rng, A, "::see")
    section(rep, "py::range", sequence, rep, pr, "p_range_u", "range(a, b) of unsigned", rng, A, "::see")
    section(rep, "py::range", sequence, rep, pr, "p_range1", "range(b)", if_(EMPTY1, ZERO, b), lambda k_: [k_], "::see")
    V = sym("V")
    section(rep, "py::enumerate", sequence, rep, pr, "p_enum", "enumerate(V)", fun("len", V), lambda k_: [k_, fun("V[]", k_)], "::put")
    section(rep, "py::dict", sequence, rep, pr, "d_keys", "the keys of a dictionary", fun("len", D), lambda k_: [fun("key", D, k_)], "::see")
    section(rep, "py::enumerate", by_reference, rep, pr)


def by_reference(rep, pr):
    """assigning to the enumerated element assigns the container's"""
    w = anchor("p_enum_set")
    I, parts, lvs = sequence(rep, pr, "p_enum_set", "enumerate(V), elements assigned", fun("len", sym("V")), None, None)
    for st, kd in parts:
        if kd[0] != "ret":
            continue
        info = st.loops[0]
        with inloop(info):
            for bk, _ in info.back:
                with At(I, bk):
                    v = I.read(lvs[0].sub("m", info.k, "f64"))
                equal(rep, I, bk, v, x, "reference", w, "the element assigned through the enumeration is the container's")
                q = sym("q~other")
                with At(I, bk):
                    v = I.read(lvs[0])
                ws = v.writes if isinstance(v, MapV) else ()
                for key, _ in ws:
                    if not (isinstance(key, Poly) and peq(key, info.k)):
                        rep.bad("reference", w, "another element changes: %s" % vkey(key))


def p21(rep):
    pr = prog(rep)
    for name in VALUES:
        section(rep, anchor(name), values, rep, pr, name)
    section(rep, "sequences", sequences, rep, pr)

"""Network containers xn::Graph and xn::DiGraphS (P30).

The clients in tu/xnet.cpp use each operation once on an arbitrary container;
what they return is compared with the mathematical graph: a set of nodes and a
map from pairs of nodes to data."""
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, fun
from engine.values import *

p, q, u, v, s, t, d, e = (sym(n) for n in "p q u v s t d e".split())


def member(pr, cls, ok, what):
    """the one data member of a class that ok accepts"""
    got = [f["n"] for f in pr.records[cls]["fields"] if ok(f)]
    if len(got) != 1:
        raise Undecided("%s of %s: %s" % (what, cls, got))
    return got[0]


def tables(A, N, C):
    """the specification, over the members holding adjacency, nodes and edge count"""
    START, STOP, COUNT = sym("G.%s.start" % N), sym("G.%s.stop" % N), sym("G.%s" % C)

    def row(x):
        return fun("G.%s[]" % A, x)

    def has(x, y):
        from engine import aff
        aff.INTF.add("b?has")
        return ne(fun("b?has", row(x), y), 0)

    def at(x, y):
        return fun("at", row(x), y)

    def node(x):
        return b_and(le(START, x), lt(x, STOP))

    def pair(x, y, z, w):
        return b_and(eqv(x, z), eqv(y, w))

    def either(x, y, z, w):
        return b_or(pair(x, y, z, w), pair(x, y, w, z))

    # every range ends at or after its start (P21)
    ORDERED = le(START, STOP)
    NODES = (ORDERED, node(p), node(q), node(u), node(v))
    NODES2 = NODES + (node(s), node(t))
    EMPTYG = le(STOP, START)
    COUNTED = [(b_and(has(u, v), has(v, u)), COUNT), (b_and(b_not(has(u, v)), b_not(has(v, u))), COUNT + 1)]
    DCOUNTED = [(has(u, v), COUNT), (b_not(has(u, v)), COUNT + 1)]
    KEPT = [(b_and(has(u, v), has(v, u), eqv(at(u, v), at(v, u))), at(u, v)), (b_and(b_not(has(u, v)), b_not(has(v, u))), ZERO)]
    DKEPT = [(has(u, v), at(u, v)), (b_not(has(u, v)), ZERO)]
    ELSE = [(b_and(b_not(either(p, q, u, v)), has(p, q)), at(p, q))]
    DELSE = [(b_and(b_not(pair(p, q, u, v)), has(p, q)), at(p, q))]

    # client -> (what it shows, cases)
    ADDED = [(TRUE, b_or(either(p, q, u, v), has(p, q)))]
    DADDED = [(TRUE, b_or(pair(p, q, u, v), has(p, q)))]
    SIZE = [(EMPTYG, ZERO), (b_not(EMPTYG), STOP - START)]
    G_ = "xn::Graph::"
    D_ = "xn::DiGraphS::"
    VALUES = {
        "us_has": (G_ + "has_edge", [(TRUE, has(p, q))]),
        "us_add_has": (G_ + "add_edge", ADDED),
        "us_count": (G_ + "number_of_edges", [(TRUE, COUNT)]),
        "us_add_count": (G_ + "add_edge", COUNTED),
        "us_deg": (G_ + "degree", [(TRUE, fun("len", row(p)))]),
        "us_row": (G_ + "operator[]", [(TRUE, fun("len", row(p)))]),
        "us_view": (G_ + "adj", [(TRUE, fun("len", row(p)))]),
        "us_rows": (G_ + "adj", [(TRUE, fun("len", sym("G.%s" % A)))]),
        "us_node": (G_ + "has_node", [(TRUE, node(p))]),
        "us_node2": (G_ + "contains", [(TRUE, node(p))]),
        "us_nodes": (G_ + "number_of_nodes", SIZE),
        "us_order": (G_ + "order", SIZE),
        "us_dir": (G_ + "is_directed", [(TRUE, FALSE)]),
        "us_multi": (G_ + "is_multigraph", [(TRUE, FALSE)]),
        "us_ends": (G_ + "end_points", [(TRUE, p)]),
        "us_ends2": (G_ + "end_points", [(TRUE, q)]),
        "us_moved_has": (G_ + "Graph", ADDED),
        "us_moved_count": (G_ + "Graph", COUNTED),
        "ud_has": (G_ + "has_edge", [(TRUE, has(p, q))]),
        "ud_add_has": (G_ + "add_edge", ADDED),
        "ud_put_has": (G_ + "add_edge", ADDED),
        "ud_add_count": (G_ + "add_edge", COUNTED),
        "ud_put_count": (G_ + "add_edge", COUNTED),
        "ud_put_uv": (G_ + "add_edge", [(TRUE, d)]),
        "ud_put_vu": (G_ + "add_edge", [(TRUE, d)]),
        "ud_put_else": (G_ + "add_edge", ELSE),
        "ud_add_uv": (G_ + "add_edge", KEPT),
        "ud_add_vu": (G_ + "add_edge", KEPT),
        "ud_all_has": (G_ + "add_edges_from", [(TRUE, b_or(either(p, q, u, v), has(p, q)))]),
        "ud_all_last": (G_ + "add_edges_from", [(TRUE, e)]),
        "ds_has": (D_ + "has_edge", [(TRUE, has(p, q))]),
        "ds_suc": (D_ + "has_successor", [(TRUE, b_and(node(p), has(p, q)))]),
        "ds_in": (D_ + "successors", [(TRUE, has(p, q))]),
        "ds_add_has": (D_ + "add_edge", DADDED),
        "ds_add_suc": (D_ + "add_edge", DADDED),
        "ds_add_count": (D_ + "add_edge", DCOUNTED),
        "ds_deg": (D_ + "degree", [(TRUE, fun("len", row(p)))]),
        "ds_dir": (D_ + "is_directed", [(TRUE, TRUE)]),
        "ds_multi": (D_ + "is_multigraph", [(TRUE, FALSE)]),
        "ds_moved": (D_ + "DiGraphS", [(TRUE, has(p, q))]),
        "ds_moved_suc": (D_ + "DiGraphS", [(TRUE, has(p, q))]),
        "ds_moved_add": (D_ + "DiGraphS", DADDED),
        "ds_moved_add_suc": (D_ + "DiGraphS", DADDED),
        "ds_moved_count": (D_ + "DiGraphS", DCOUNTED),
        "dd_add_has": (D_ + "add_edge", DADDED),
        "dd_put_has": (D_ + "add_edge", DADDED),
        "dd_add_count": (D_ + "add_edge", DCOUNTED),
        "dd_put_count": (D_ + "add_edge", DCOUNTED),
        "dd_put_uv": (D_ + "add_edge", [(TRUE, d)]),
        "dd_put_else": (D_ + "add_edge", DELSE),
        "dd_add_uv": (D_ + "add_edge", DKEPT),
        "dd_all_has": (D_ + "add_edges_from", [(TRUE, b_or(pair(p, q, u, v), pair(p, q, s, t), has(p, q)))]),
        "dd_all_last": (D_ + "add_edges_from", [(TRUE, e)]),
    }
    # new containers: (what it shows, cases); the constructor argument is the range N or the number n
    NS, NE, n = sym("N.start"), sym("N.stop"), sym("n")
    FRESH = {
        "us_new": (G_ + "Graph", [(TRUE, FALSE)]),
        "us_new_count": (G_ + "Graph", [(TRUE, ZERO)]),
        "us_new_int": (G_ + "Graph", [(TRUE, b_and(le(0, p), lt(p, n)))]),
        "us_new_nodes": (G_ + "Graph", [(TRUE, NE - NS)]),
        "us_new_rows": (G_ + "Graph", [(TRUE, NE - NS)]),
        "us_new_int_rows": (G_ + "Graph", [(le(0, n), n)]),
        "ds_new_node": (D_ + "DiGraphS", [(TRUE, b_and(le(NS, p), lt(p, NE)))]),
        "ds_new_int_node": (D_ + "DiGraphS", [(TRUE, b_and(le(0, p), lt(p, n)))]),
        "ds_new_rows": (D_ + "DiGraphS", [(TRUE, NE - NS)]),
        "ds_new_int_rows": (D_ + "DiGraphS", [(le(0, n), n)]),
        "ds_new": (D_ + "DiGraphS", [(TRUE, pair(p, q, u, v))]),
        "ds_new_suc": (D_ + "DiGraphS", [(TRUE, pair(p, q, u, v))]),
        "ds_new_int": (D_ + "DiGraphS", [(TRUE, pair(p, q, u, v))]),
    }
    return VALUES, FRESH, ORDERED, NODES, NODES2, (NS, NE, n)


_PR = []


def prog(rep):
    if not _PR:
        _PR.append(frontend.load(["tu:xnet"]))
    rep.use(_PR[0])
    return _PR[0]


def values(rep, pr, name, table, pre, tie):
    w, cases = table[name]
    text = "client " + name
    f = pr.one(qn="vw::" + name)
    I, parts, lvs, this = analyse(pr, f, {"bounds": False, "unroll": 12}, setup=tie, rep=rep)
    for st, kd in parts:
        if kd[0] == "abort":
            continue
        if kd[0] not in ("ret", "throw"):
            rep.und("model", w, text + ": " + str(kd)[:150])
            continue
        for cond, val in cases:
            extra = (cond,) + tuple(pre)
            if kd[0] == "throw":
                if name.endswith("_else"):
                    continue    # whether it is there is settled by the membership clients
                never(rep, I, st, "model", w, text + ": throws", extra)
            else:
                equal(rep, I, st, kd[1], val, "model", w, text, extra)


def p30(rep):
    pr = prog(rep)
    section(rep, "xn::Graph", clients, rep, pr)


def clients(rep, pr):
    isrow = lambda f: f["t"] == "R:std::vector" and not f.get("ref")
    A = member(pr, "xn::Graph", isrow, "adjacency")
    N = member(pr, "xn::Graph", lambda f: f["t"] == "R:iterable_wrapper", "nodes")
    C = member(pr, "xn::Graph", lambda f: f["t"] in ("u64", "i32", "i64", "u32"), "edge count")
    refs = [f["n"] for f in pr.records["xn::DiGraphS"]["fields"] if f.get("ref") and f["t"] == "R:std::vector"]
    if [f for f in pr.records["xn::DiGraphS"]["fields"] if isrow(f)]:
        raise Undecided("the directed graph has adjacency rows of its own")

    def tie(I, lvs, this):
        """reference members of a directed graph refer to its own adjacency rows"""
        g = I.st.store[lvs[0].root]
        if isinstance(g, Struct) and "DiGraphS" in g.cls:
            for r in refs:
                g = g.set(r, Ref(lvs[0].sub("f", A, "R:std::vector")))
            I.st.store[lvs[0].root] = g
    VALUES, FRESH, ORDERED, NODES, NODES2, (NS, NE, n) = tables(A, N, C)
    for name in VALUES:
        w = VALUES[name][0]
        pre = (ORDERED,) if name.endswith(("_node", "_node2", "_nodes", "_order", "_suc")) and "add" not in name and "moved" not in name else NODES2 if "_all_" in name else NODES
        section(rep, w, values, rep, pr, name, VALUES, pre, tie)
    for name in FRESH:
        w = FRESH[name][0]
        lo, hi = (ZERO, n) if "_int" in name else (NS, NE)
        pre = (le(lo, hi),) + tuple(b_and(le(lo, x), lt(x, hi)) for x in (p, q, u, v) if not name.endswith(("_nodes", "_rows", "_node", "new_int")) or name == "ds_new_int")
        section(rep, w, values, rep, pr, name, FRESH, pre, tie)

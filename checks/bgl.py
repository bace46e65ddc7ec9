"""The graph adaptor (P24): every view and accessor, applied to an opaque graph,
is the corresponding operation of that graph; insertion passes both ends on."""
from engine import frontend, harness
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, fun
from engine.values import *

HEADER = "nx2bgl.hpp"
G, v, u, e, B = (sym(n) for n in "G v u e B".split())


def call(f, *a):
    return fun("call:boost::" + f, *a)


def end(f, *a):
    return [fun("fld:pos", fun("fld:" + s, call(f, *a))) for s in ("first", "second")]


def table():
    t = {}
    for pre, what, (a, b) in (("v", "vertices", end("vertices", G)), ("e", "edges", end("edges", G)),
                              ("o", "neighbours of v", end("out_edges", v, G))):
        for c in ("", "c"):
            t["%s_%sbegin" % (pre, c)] = (what + ": first", a)
            t["%s_%send" % (pre, c)] = (what + ": end", b)
    t["n_nodes"] = ("number of vertices", call("num_vertices", G))
    t["n_edges"] = ("number of edges", call("num_edges", G))
    t["src"] = ("source of an edge", call("source", e, G))
    t["dst"] = ("target of an edge", call("target", e, G))
    t["ends_s"] = ("first end point", call("source", e, G))
    t["ends_t"] = ("second end point", call("target", e, G))
    t["wrapped"] = ("the adaptor holds the given graph", fun("fld:tag", B))
    t["nil"] = ("the null vertex", P(sym("call:boost::graph_traits<vw::BG>::null_vertex")))
    return t


ADD = "boost::add_edge"


def entry(rep, pr, name, what, want):
    f = pr.one(qn="vw::" + name)
    w = "xn::grAdaptor (%s)" % name
    I, parts, lvs, _ = analyse(pr, f, {}, rep=rep)
    for st, kd in parts:
        if kd[0] != "ret":
            rep.und("adaptor", w, what + ": " + str(kd)[:150])
            continue
        if name in ("n_nodes", "n_edges") and isinstance(kd[1], Poly) and kd[1].key != want.key and "fld:" in kd[1].key + " ".join(c.key for c in st.pc):
            # counted by walking over the elements: how many steps that takes is
            # the graph library's business
            rep.und("adaptor", w, what + ": counted element by element")
            continue
        equal(rep, I, st, kd[1], want, "adaptor", w, what)
        for x in st.events:
            if x.kind == "call":
                never(rep, I, st, "read-only", w, "%s: an access calls %s on the graph" % (what, x.name))
        if not any(x.kind == "call" for x in st.events):
            rep.ok("read-only", w, what)


def insertion(rep, pr):
    w = "xn::grAdaptor::add_edge"
    r = call("add_edge", u, v, G)
    for name, want in (("add", None), ("add_ok", fun("b?fld:second", r)), ("add_id", fun("fld:id", fun("fld:first", r)))):
        f = pr.one(qn="vw::" + name)
        I, parts, lvs, _ = analyse(pr, f, {}, rep=rep)
        for st, kd in parts:
            if kd[0] != "ret":
                rep.und("insert", w, str(kd)[:150])
                continue
            adds = [x for x in st.events if x.kind == "call"]
            if [x.name for x in adds] != [ADD]:
                never(rep, I, st, "insert", w, "an insertion makes the calls %s" % [x.name for x in adds])
                continue
            rep.ok("insert", w, name + ": one edge is inserted")
            for i, (what, x) in enumerate((("tail", u), ("head", v))):
                equal(rep, I, st, adds[0].args[i], x, "insert", w, "the %s of the new edge" % what)
            g = adds[0].args[2]
            if vkey(g) != "G" and vkey(g) != vkey(P(G)):
                never(rep, I, st, "insert", w, "the edge goes into another graph")
            else:
                rep.ok("insert", w, "into the adapted graph")
            if want is not None:
                have = kd[1]
                if isinstance(have, Bool):
                    equal(rep, I, st, have, ne(want, 0), "insert", w, "the answer of the insertion")
                else:
                    equal(rep, I, st, have, want, "insert", w, "the answer of the insertion")


def views(rep, pr):
    """a view refers to the graph, it does not hold a copy (whose iterators
    would die with the view)"""
    n = 0
    for q, r in pr.records.items():
        if not r["file"].endswith(HEADER):
            continue
        for x in r["fields"]:
            if x["t"] in ("R:vw::BG", "R:xn::grAdaptor", "R:xn::VertexView") or x["t"].startswith("P:"):
                n += 1
                if x.get("ref") or x["t"].startswith("P:"):
                    rep.ok("view", q, "member %s refers to the graph" % x["n"])
                else:
                    rep.bad("view", "%s::%s:%s" % (q, x["n"], x.get("l")), "the view holds a copy of the graph")
    if not n:
        rep.und("view", HEADER, "no view with a graph member")


def p24(rep):
    pr = frontend.load(["tu:bgl"])
    rep.use(pr)
    for name, (what, want) in table().items():
        section(rep, name, entry, rep, pr, name, what, want)
    section(rep, "add_edge", insertion, rep, pr)
    section(rep, "views", views, rep, pr)

"""Correlation-fit data (P22): the covariance estimate, the sites, the distance
and power matrices, and how the fits put them together.

A random expression is modelled as giving a new value each time one of its
elements is evaluated; containers evaluate every element once."""
from itertools import product

from engine import frontend, harness, poly
from engine.harness import *
from engine.poly import P, ZERO, ONE, Poly, eq as peq, Undecided, fun, atom
from engine.values import *
from . import oracle

UNIT = "lib/src/lsq_corr_ell.cpp"
KERNEL = P(3) / 10


def program(rep):
    return oracle.prog(rep)


def function(pr, name):
    return pr.one(qn=name)


def sites(n):
    return Arr.mk("s", 2, (P(n), P(2)))


def dist(i, j):
    d = [sel("s", (P(i), P(c))) - sel("s", (P(j), P(c))) for c in range(2)]
    return poly.sqrt(d[0] * d[0] + d[1] * d[1])


def returned(rep, parts, w, tx):
    for st, k in parts:
        if k[0] == "ret":
            yield st, k[1]
        elif k[0] in ("throw", "oob"):
            rep.bad("completes", w, tx + "ends by " + str(k)[:120])
        else:
            rep.und("completes", w, tx + str(k)[:150])


def entries(rep, I, st, v, rows, cols, w, tx):
    with At(I, st):
        dims = [P(x).const() for x in v.shape] if isinstance(v, Arr) and v.rank is not None else [None]
        if None in dims:
            raise Undecided("shape of the result")
        if dims != [rows, cols]:
            rep.bad("shape", w, tx + "the result has shape (%s)" % ", ".join(str(x) for x in dims))
            raise AbortPath()
        rep.ok("shape", w, tx + "the result has %d rows and %d columns" % (rows, cols))
        return {(i, j): v.elem((P(i), P(j)), I) for i in range(rows) for j in range(cols)}


# -- the estimate ---------------------------------------------------------------------

class Draws:
    """random numbers and the Cholesky factor"""

    def __init__(self, rep, w, tx):
        self.rep, self.w, self.tx = rep, w, tx
        self.names = set()
        self.kernels = []

    def table(self):
        return {"xt::random::seed": self.seed, "xt::random::randn": self.randn, "xt::linalg::cholesky": self.cholesky}

    def seed(self, I, n, fr):
        for x in n["args"]:
            I.rv(x, fr)
        I.st.store["#seeded"] = TRUE
        return VOID

    def randn(self, I, n, fr):
        shape = I.rv(n["args"][0], fr)
        items = shape.items if isinstance(shape, Init) else (shape.fields["s"] if isinstance(shape, Struct) and shape.cls == "shape" else None)
        if items is None:
            raise Undecided("shape of the random array")
        par = []
        for x in n["args"][1:]:
            if x.get("name") == "get_default_random_engine":
                break
            par.append(I.num(x, fr))
        mean = par[0] if par else ZERO
        sd = par[1] if len(par) > 1 else ONE
        if "#seeded" not in I.st.store:
            self.rep.bad("reproducible", self.w, self.tx + "random numbers are drawn before the generator is seeded")
        else:
            self.rep.ok("reproducible", self.w, self.tx + "the generator is seeded before it is used")

        def new(ix, ctx):
            z = sym(poly.fresh("z~"))
            self.names.add(next(iter(z.syms())))
            return mean + sd * z
        return Arr(len(items), tuple(I.topoly(x) for x in items), new, "random")

    def cholesky(self, I, n, fr):
        a = I.rv(n["args"][0], fr)
        if not isinstance(a, Arr) or a.rank != 2 or a.shape[0].const() is None:
            raise Undecided("matrix to be factorised")
        k = int(a.shape[0].const())
        self.kernels.append((I.st.clone(), {(i, j): a.elem((P(i), P(j)), I) for i in range(k) for j in range(k)}))

        def low(ix, ctx):
            c = [p.const() for p in ix]
            if None in c:
                raise Undecided("Cholesky factor at a symbolic index")
            return sym("L%d%d" % (c[0], c[1])) if c[1] <= c[0] else ZERO
        return Arr(2, a.shape, low, "chol(%s)" % a.key)


def split(p, names):
    """{monomial of draws (sorted tuple with repetition): coefficient}"""
    out = {}
    for m, c in p.t.items():
        zs, rest = [], []
        for a, e in m:
            hit = a.syms & names
            if not hit:
                rest.append((a, e))
            elif len(a.syms) == 1 and a.kind == "s" and e > 0:
                zs += [next(iter(hit))] * e
            else:
                raise Undecided("draws inside " + a.key[:80])
        q = Poly({tuple(rest): c})
        key = tuple(sorted(zs, key=str))
        out[key] = out.get(key, ZERO) + q
    return out


def groups(forms):
    """draws that occur together"""
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x
    for f in forms:
        for k in f:
            for z in k:
                parent[find(z)] = find(k[0])
    out = {}
    for z in parent:
        out.setdefault(find(z), []).append(z)
    return [sorted(v, key=str) for v in out.values()]


def estimate(rep, pr, n, N):
    f = function(pr, "create_2d_isotropic")
    w = "create_2d_isotropic:%d" % f["line"]
    tx = "%d sites, %d samples: " % (n, N)
    d = Draws(rep, w, tx)
    cfg = {"unroll": 60, "eager": True, "intrinsics": d.table()}
    I, parts, lvs, _ = analyse(pr, f, cfg, rep=rep, args={f["params"][0]["n"]: sites(n), f["params"][1]["n"]: P(N)})
    for st, v in returned(rep, parts, w, tx):
        section(rep, w, one_estimate, rep, I, st, v, d, w, tx, n, N)
    for st, K in d.kernels:
        for i, j in K:
            equal(rep, I, st, K[i, j], poly.exp(-KERNEL * dist(i, j)), "kernel", w,
                  tx + "the kernel matrix depends on the distance of the sites only, entry %d,%d" % (i, j))


def one_estimate(rep, I, st, v, d, w, tx, n, N):
    Y = entries(rep, I, st, v, n, n, w, tx)
    forms = {ij: split(p, d.names) for ij, p in Y.items()}
    # every sample is one value: the estimate is symmetric as a function of the draws
    for i in range(n):
        for j in range(i):
            equal(rep, I, st, Y[i, j], Y[j, i], "symmetric", w, tx + "entry %d,%d equals entry %d,%d for every sequence of draws" % (i, j, j, i))
    for ij, fm in forms.items():
        odd = [k for k in fm if len(k) != 2 and not peq(fm[k], ZERO)]
        if odd:
            rep.bad("quadratic", w, tx + "entry %d,%d is not an average of products of two sample entries" % ij)
            return
        rep.ok("quadratic", w, tx + "entry %d,%d is an average of products of two sample entries" % ij)
    # positive semidefinite: a sum of outer squares, one per group of draws
    gs = groups(forms.values())
    for g in gs:
        one_group(rep, I, st, forms, g, w, tx, n)
    rep.note(w, tx + "%d independent groups of draws" % len(gs)) if hasattr(rep, "note") else None
    # unbiased up to the scale: independent standard normal draws
    L = lambda i, k: sym("L%d%d" % (i, k)) if k <= i else ZERO
    want = {(i, j): sum((L(i, k) * L(j, k) for k in range(n)), ZERO) for i in range(n) for j in range(n)}
    mean = {ij: sum((c for k, c in fm.items() if k[0] == k[1]), ZERO) for ij, fm in forms.items()}
    extra = None
    for (i, j), e in sorted(mean.items()):
        diff = e - 4 * want[i, j]
        if i != j:
            equal(rep, I, st, diff, ZERO, "expectation", w, tx + "the expectation of entry %d,%d is the scaled kernel" % (i, j))
        elif diff.const() is None or diff.const() < 0:
            rep.bad("expectation", w, tx + "the expectation of entry %d,%d is not the scaled kernel plus the noise: %s" % (i, j, e.key[:120]))
        elif extra is None or peq(extra, diff):
            extra = diff
            rep.ok("expectation", w, tx + "the expectation of entry %d,%d is the scaled kernel plus the noise" % (i, j))
        else:
            rep.bad("expectation", w, tx + "the noise differs between sites")


def one_group(rep, I, st, forms, g, w, tx, n):
    """restricted to the draws of one group, the estimate is y y' / N"""
    def M(i, j, a, b):
        c = forms[i, j].get(tuple(sorted((a, b), key=str)), ZERO)
        return c if a == b else c / 2
    zs = g
    # the symmetric tensor Y[i,j] = sum z_a z_b M(i,j,a,b) is one square:
    # Y = (sum u_a z_a)(sum u_a z_a)' needs M(i,j,a,b) = (u_a[i] u_b[j] + u_b[i] u_a[j]) / 2
    text = tx + "the contribution of each sample is the product of the sample with itself"
    for a in zs:
        for i, j in product(range(n), range(n)):
            p = M(i, i, a, a) * M(j, j, a, a) - M(i, j, a, a) * M(i, j, a, a)
            if not peq(p, ZERO):
                rep.bad("square", w, text + ": entry %d,%d" % (i, j))
                return
            if i == j:
                require(rep, I, st, le(0, M(i, i, a, a)), "square", w, text + ": diagonal entry %d is not negative" % i)
    for a, b in product(zs, zs):
        for i in range(n):
            p = M(i, i, a, a) * M(i, i, b, b) - M(i, i, a, b) * M(i, i, a, b)
            if not peq(p, ZERO):
                rep.bad("square", w, text + ": draws %s and %s in entry %d" % (a, b, i))
                return
    rep.ok("square", w, text)


# -- sites ---------------------------------------------------------------------------

def grid(rep, pr, nx, ny):
    f = function(pr, "create_2d_sites")
    w = "create_2d_sites:%d" % f["line"]
    tx = "%d by %d sites: " % (nx, ny)
    I, parts, lvs, _ = analyse(pr, f, {"unroll": 60, "eager": True}, rep=rep, args={f["params"][0]["n"]: P(nx), f["params"][1]["n"]: P(ny)})
    for st, v in returned(rep, parts, w, tx):
        E = entries(rep, I, st, v, nx * ny, 2, w, tx)
        got = []
        for k in range(nx * ny):
            c = [E[k, 0].const(), E[k, 1].const()]
            if None in c:
                raise Undecided("coordinates of site %d" % k)
            got.append(tuple(c))
        want = {(P(10 * i).const() / max(1, nx - 1), P(8 * j).const() / max(1, ny - 1)) for i in range(nx) for j in range(ny)}
        if len(set(got)) == len(got) and set(got) == want:
            rep.ok("grid", w, tx + "every point of the grid exactly once")
        else:
            rep.bad("grid", w, tx + "the sites are not the points of the grid: %s" % (", ".join("(%s, %s)" % g for g in got[:6])))


# -- matrices ----------------------------------------------------------------------------

def distances(rep, pr, n):
    f = function(pr, "construct_distance_matrix")
    w = "construct_distance_matrix:%d" % f["line"]
    tx = "%d sites: " % n
    I, parts, lvs, _ = analyse(pr, f, {"unroll": 60, "eager": True}, rep=rep, args={f["params"][0]["n"]: sites(n)})
    for st, v in returned(rep, parts, w, tx):
        for (i, j), e in entries(rep, I, st, v, n, n, w, tx).items():
            equal(rep, I, st, e, dist(i, j) if i != j else ZERO, "distance", w, tx + "entry %d,%d is the distance of the two sites" % (i, j))


def powers(rep, pr, n, m):
    f = function(pr, "construct_poly_matrix")
    w = "construct_poly_matrix:%d" % f["line"]
    tx = "%d sites, %d powers: " % (n, m)
    I, parts, lvs, _ = analyse(pr, f, {"unroll": 60, "eager": True}, rep=rep, args={f["params"][0]["n"]: sites(n), f["params"][1]["n"]: P(m)})
    for st, v in returned(rep, parts, w, tx):
        xs = items(I, st, v)
        if len(xs) != m:
            rep.bad("powers", w, tx + "%d matrices are returned" % len(xs))
            continue
        for k, a in enumerate(xs):
            for (i, j), e in entries(rep, I, st, a, n, n, w, tx).items():
                d = dist(i, j) if i != j else ZERO
                p = ONE
                for _ in range(k):
                    p = p * d
                equal(rep, I, st, e, p, "powers", w, tx + "matrix %d, entry %d,%d is the power of the distance" % (k, i, j))


def items(I, st, v):
    if isinstance(v, Seq) and v.items is not None:
        return list(v.items)
    raise Undecided("list of matrices: " + vkey(v)[:100])


# -- the fits ------------------------------------------------------------------------------

class Fit:
    """the optimisation is replaced by 'some point, count and status'; what it
    is started on is compared with the problem"""

    def __init__(self, rep, w, tx, dims, pr):
        self.rep, self.w, self.tx, self.dims, self.pr = rep, w, tx, dims, pr
        self.best = Arr.mk("best", 1, (P(dims),))
        self.runs = []

    def table(self):
        t = {"C:%s::%s" % (c, c): (lambda I, n, fr, c=c: self.make(I, n, fr, c)) for c in ("lsq_oracle", "mle_oracle", "qmi_oracle")}
        t["C:bsearch_adaptor::bsearch_adaptor"] = self.adaptor
        t["bsearch_adaptor::x_best"] = self.x_best
        for d in ("cutting_plane_dc", "bsearch"):
            t[d] = lambda I, n, fr, d=d: self.run(I, n, fr, d)
        return t

    def make(self, I, n, fr, cls):
        if n.get("copy") or n.get("move"):
            return I.rv(n["args"][0], fr)
        if len(n["args"]) != 2:
            raise Undecided("constructor of " + cls)
        F, Y = [I.rv(x, fr) for x in n["args"]]
        return Struct(cls, None, {"#F": F, "#Y": Y})

    def adaptor(self, I, n, fr):
        if n.get("copy") or n.get("move"):
            return I.rv(n["args"][0], fr)
        return Struct("bsearch_adaptor", None, {"#P": Ref(I.lvof(n["args"][0], fr)), "#S": Ref(I.lvof(n["args"][1], fr)), "#ran": FALSE})

    def x_best(self, I, n, fr):
        o = I.read(I.resolve_lv(I.intr.obj(n, fr)))
        if o.fields["#ran"] is FALSE:
            self.rep.bad("result", self.w, self.tx + "the point is taken before the search")
        return self.best

    def run(self, I, n, fr, driver):
        a = n["args"]
        plv = I.resolve_lv(I.lvof(a[0], fr))
        o = I.read(plv)
        if driver == "bsearch":
            if not isinstance(o, Struct) or o.cls != "bsearch_adaptor":
                raise Undecided("oracle of the search")
            slv = I.resolve_lv(o.fields["#S"].lv)
            prob = I.read(I.resolve_lv(o.fields["#P"].lv))
            I.write(plv, o.set("#ran", TRUE))
            iv = I.rv(a[1], fr)
            lo, hi = (I.topoly(iv.fields[q]) for q in ("first", "second"))
        else:
            prob = o
            slv = I.resolve_lv(I.lvof(a[1], fr))
            lo = hi = None
        if not isinstance(prob, Struct) or "#F" not in prob.fields:
            raise Undecided("oracle of the search")
        S = I.read(slv)
        xc = [f for f in self.pr.fns.values() if f["name"] == "xc" and f.get("cls") == S.cls and not f["params"]]
        if len(xc) != 1:
            raise Undecided("search space " + S.cls)
        x = I.invoke(xc[0], [], slv, None, n.get("l"))
        x = I.read(x) if isinstance(x, LV) else x
        self.runs.append((I.st.clone(), prob, x, lo, hi))
        info = Struct("CInfo", None, {"feasible": ne(sym("b?feasible"), 0), "num_iters": sym("iters"), "status": sym("status")})
        if "_xc" in S.fields:
            # the adaptor leaves the best centre in the caller's space (P04, P05),
            # the other drivers some later centre
            S = I.read(slv)
            I.write(slv, S.set("_xc", self.best if driver == "bsearch" else Arr.mk("later", 1, (P(self.dims),))))
        if driver == "bsearch":
            return info
        return Struct("std::tuple", None, {"0": self.best, "1": info})


def fit(rep, pr, name, cls, n, m):
    f = function(pr, name)
    w = "%s:%d" % (name, f["line"])
    tx = "%d sites, %d coefficients: " % (n, m)
    dims = m + 1 if cls == "lsq_oracle" else m
    ft = Fit(rep, w, tx, dims, pr)
    cfg = {"unroll": 60, "eager": True, "intrinsics": ft.table()}
    args = dict(zip((p["n"] for p in f["params"]), (Arr.mk("Y", 2, (P(n), P(n))), sites(n), P(m))))
    I, parts, lvs, _ = analyse(pr, f, cfg, rep=rep, args=args)
    for st, v in returned(rep, parts, w, tx):
        section(rep, w, outcome, rep, I, st, v, ft, w, tx, m)
    for st, prob, x, lo, hi in ft.runs:
        section(rep, w, started, rep, I, st, prob, x, lo, hi, cls, w, tx, n, m, dims)


def outcome(rep, I, st, v, ft, w, tx, m):
    with At(I, st):
        if not isinstance(v, Struct) or v.cls != "std::tuple":
            raise Undecided("result")
        x, it, ok = (v.fields[str(i)] for i in range(3))
        x = I.read(x) if isinstance(x, LV) else x
        if not isinstance(x, Arr) or x.rank != 1 or P(x.shape[0]).const() is None:
            raise Undecided("shape of the fitted coefficients")
        got = [x.elem((P(i),), I) for i in range(int(P(x.shape[0]).const()))]
    if len(got) != m:
        rep.bad("result", w, tx + "%d coefficients are returned" % len(got))
    for i, e in enumerate(got):
        equal(rep, I, st, e, sel("best", (P(i),)), "result", w, tx + "coefficient %d is the one the search found" % i)
    equal(rep, I, st, it, sym("iters"), "result", w, tx + "the number of iterations is the search's")
    equal(rep, I, st, ok, ne(sym("b?feasible"), 0), "result", w, tx + "success is reported exactly when the search reports it")


def started(rep, I, st, prob, x, lo, hi, cls, w, tx, n, m, dims):
    if prob.cls != cls:
        rep.bad("problem", w, tx + "the search runs on a %s" % prob.cls)
        return
    F = items(I, st, prob.fields["#F"])
    if len(F) != m:
        rep.bad("problem", w, tx + "%d basis matrices" % len(F))
    for k, a in enumerate(F):
        for (i, j), e in entries(rep, I, st, a, n, n, w, tx).items():
            d = dist(i, j) if i != j else ZERO
            p = ONE
            for _ in range(k):
                p = p * d
            equal(rep, I, st, e, p, "problem", w, tx + "basis matrix %d, entry %d,%d is the power of the distance" % (k, i, j))
    for (i, j), e in entries(rep, I, st, prob.fields["#Y"], n, n, w, tx).items():
        equal(rep, I, st, e, sel("Y", (P(i), P(j))), "problem", w, tx + "the data are fitted, entry %d,%d" % (i, j))
    if not isinstance(x, Arr) or x.rank != 1 or P(x.shape[0]).const() is None:
        raise Undecided("starting point")
    if P(x.shape[0]).const() == dims:
        rep.ok("start", w, tx + "the search space has %d variables" % dims)
    else:
        rep.bad("start", w, tx + "the search space has %s variables instead of %d" % (x.shape[0], dims))
    if lo is not None:
        require(rep, I, st, le(0, lo), "start", w, tx + "the bound searched for is not negative")
        require(rep, I, st, lt(lo, hi), "start", w, tx + "the interval searched is not empty")


def p22(rep):
    pr = program(rep)
    big = harness.TIER == "thorough"
    for n, N in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)] + ([(2, 3), (3, 3), (4, 2)] if big else []):
        section(rep, "create_2d_isotropic", estimate, rep, pr, n, N)
    for nx, ny in [(1, 1), (2, 3), (3, 2), (4, 1), (1, 2)] + ([(5, 4), (4, 5), (10, 8), (7, 1)] if big else []):
        section(rep, "create_2d_sites", grid, rep, pr, nx, ny)
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        section(rep, "construct_distance_matrix", distances, rep, pr, n)
    for n, m in [(1, 1), (2, 1), (2, 2), (2, 3), (3, 2), (2, 4)] + ([(3, 4), (4, 3), (3, 5)] if big else []):
        section(rep, "construct_poly_matrix", powers, rep, pr, n, m)
    for name, cls in (("lsq_corr_poly2", "lsq_oracle"), ("mle_corr_poly", "mle_oracle"), ("lsq_corr_poly", "qmi_oracle")):
        for n, m in [(2, 1), (2, 3), (3, 2)]:
            section(rep, name, fit, rep, pr, name, cls, n, m)

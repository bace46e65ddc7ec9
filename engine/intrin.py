"""Transfer functions for library entities (standard library, xtensor, gsl) and
dispatch of calls: repository bodies are inlined, the table below gives meaning
to the library, the rest is an uninterpreted effect or undecided."""
from fractions import Fraction
from .poly import Poly, P, ZERO, ONE, atom, fun, sym, subst, sum_over, pow2, Undecided
from . import poly
from .values import *
from . import values as V
from .interp import Ref, LV, Event, ReturnX, ThrowX


def strip_t(q):
    i = q.rfind("operator")
    if i >= 0 and (i == 0 or q[i - 1] == ":"):
        return strip_t(q[:i]) + q[i:] if i else q
    out = []
    d = 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


ARROPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}


def own_members(I, lv):
    cur = I.read(lv)
    rec = I.prog.records.get(cur.cls) if isinstance(cur, Struct) else None
    return bool(rec and rec.get("fields"))


class Intrinsics:
    def __init__(self, I):
        self.I = I
        self.extra = dict(I.cfg.get("intrinsics", {}))

    # -- dispatch -------------------------------------------------------------
    def call(self, n, fr):
        I = self.I
        qn = n.get("qn") or n.get("name") or ""
        q = strip_t(qn)
        f = I.prog.fns.get(n["fn"])
        if q in self.extra:
            return self.extra[q](I, n, fr)
        if q in I.opaque or qn in I.opaque:
            return self.opaque(n, fr)
        if n.get("lambda"):
            o = n.get("o")
            c = I.rv(o, fr)
            if not isinstance(c, Closure):
                if isinstance(c, Poly):
                    return self.opaque(n, fr)
                raise Undecided("call of a non-closure")
            g = I.prog.fns.get(c.fn) or (f if f is not None and f.get("body") is not None else None)   # (generic lambda)
            if g is None:
                raise Undecided("lambda body")
            lvs = I.bind_args(g, n["args"], fr)
            return I.invoke(g, lvs, c.this, c.env, n.get("l"))
        if f is not None and f.get("body") is not None:
            return self.inline(f, n, fr)
        h = getattr(self, "q_" + self.mangle(q), None)
        if h is not None:
            return h(n, fr)
        for pre, m in (("std::optional::", self.optional), ("xt::", self.xt), ("std::unordered_map::", self.umap),
                       ("std::unordered_set::", self.umap), ("std::map::", self.umap), ("std::vector::", self.vector),
                       ("std::basic_string::", self.string), ("std::basic_string_view::", self.string),
                       ("gsl::span::", self.vector), ("std::tuple::", self.tupl), ("std::pair::", self.tupl),
                       ("std::array::", self.vector)):
            if q.startswith(pre):
                return m(q[len(pre):], n, fr)
        if q.startswith("std::") or q.startswith("__gnu") or "::" not in q:
            r = self.std(q, n, fr)
            if r is not None:
                return r
        if q.endswith("::operator=") and not n.get("repo") or q.endswith("operator="):
            return self.assign(n, fr)
        if q.startswith("boost::operators_impl::operator"):
            r = self.boost(q, n, fr)
            if r is not None:
                return r
        if n.get("repo") or qn.startswith("vw::"):
            return self.opaque(n, fr)
        raise Undecided("call of " + qn[:100])

    @staticmethod
    def mangle(q):
        return q.replace("::", "__").replace(" ", "_").replace("~", "d_")

    def obj(self, n, fr):
        I = self.I
        v = I.ev(n["o"], fr)
        if isinstance(v, Ref):
            return v.lv
        if isinstance(v, LV):
            if n["o"].get("t") == "ptr":
                r = I.read(v, "ptr")
                if isinstance(r, Ref):
                    return r.lv
            return v
        return I.newroot("tmp", v, n["o"].get("t"))

    def inline(self, f, n, fr):
        I = self.I
        this = None
        if n.get("o") is not None and not f.get("static"):
            this = I.resolve_lv(self.obj(n, fr))
        lvs = I.bind_args(f, n["args"], fr)
        return I.invoke(f, lvs, this, None, n.get("l"))

    def opaque(self, n, fr):
        I = self.I
        obj = None
        if n.get("o") is not None and not n.get("mstatic"):
            obj = I.resolve_lv(self.obj(n, fr))
        args = []
        pr = n.get("pr") or []
        for i, a in enumerate(n["args"]):
            v = I.ev(a, fr)
            mode = pr[i] if i < len(pr) else "v"
            if isinstance(v, LV):
                args.append((I.read(v), v, mode))
            elif isinstance(v, Ref):
                args.append((I.read(v.lv), v.lv, mode))
            else:
                args.append((v, None, mode))
        if n.get("oper") == "=" and n["k"] == "call" and len(args) == 1:
            I.write(obj, args[0][0])
            return obj
        return I.opaque_call(n, obj, args)

    def assign(self, n, fr):
        I = self.I
        src = n["args"][-1]
        v = I.rv(src, fr)
        lv = self.obj(n, fr) if n.get("o") is not None else I.lvof(n["args"][0], fr)
        v = self.convert(v, (n.get("o") or n["args"][0]).get("t"))
        cur = I.read(lv)
        if isinstance(cur, Struct) and cur.cls == "tie":
            # std::tie(...) = tuple
            src_lv = I.newroot("tmp", v)
            for i in range(len(cur.fields)):
                I.write(cur.fields[str(i)].lv, I.read(src_lv.sub("f", str(i), "?")))
            return lv
        I.write(lv, v)
        return lv

    def convert(self, v, t):
        I = self.I
        if isinstance(v, Init):
            return I.give(v, t)
        return v

    # -- constructors --------------------------------------------------------------
    def ctor(self, n, fr):
        I = self.I
        f = I.prog.fns.get(n["fn"])
        t = n.get("t", "")
        q = strip_t(n.get("qn") or "")
        if "C:" + q in self.extra:
            return self.extra["C:" + q](I, n, fr)
        if (n.get("copy") or n.get("move")) and n["args"]:
            if f is not None and f.get("body") is not None and not n.get("defaulted") and not f.get("defaulted"):
                if f.get("body", {}).get("s") or f.get("inits"):
                    lv = I.newroot("obj", Struct(t[2:], None), t)
                    self.ctor_into(n, fr, lv)
                    return rebase(I.read(lv), lv.root, "@self")
            return I.rv(n["args"][0], fr)
        if f is not None and f.get("body") is not None:
            lv = I.newroot("obj", Struct(t[2:], None), t)
            self.ctor_into(n, fr, lv)
            return rebase(I.read(lv), lv.root, "@self")
        return self.libctor(n, fr, t, q)

    def ctor_into(self, n, fr, lv):
        I = self.I
        f = I.prog.fns.get(n["fn"])
        if f is None or f.get("body") is None:
            t = n.get("t", "")
            if t.startswith("R:boost::"):
                return
            if t in MAPS:
                if own_members(I, lv):
                    return
                I.write(lv, self.libctor(n, fr, t, ""))
                return
            if t[2:] in I.prog.records and not n["args"] or n.get("copy") or n.get("move"):
                v = self.ctor(n, fr)
                if isinstance(v, Struct) and v.cls in ("mapit", "mapend", "mappos"):
                    I.write(lv, v)
                    return
                if isinstance(v, Struct):
                    cur = I.read(lv)
                    if isinstance(cur, Struct) and not v.name:
                        for k, x in v.fields.items():
                            cur = cur.set(k, x)
                        I.write(lv, cur)
                        return
                if not isinstance(v, Struct) and own_members(I, lv):
                    return      # the map part of a class with members of its own is not modelled
                I.write(lv, v)
                return
            raise Undecided("constructor of " + t)
        # default member initialisers come through inits
        lvs = I.bind_args(f, n["args"], fr)
        I.invoke(f, lvs, lv, None, n.get("l"))

    def libctor(self, n, fr, t, q):
        I = self.I
        args = n["args"]
        if t == "R:std::optional":
            if not args or args[0].get("t") in ("R:std::nullopt_t",):
                return Struct("std::optional", None, {"has": FALSE})
            v = I.rv(args[0], fr)
            if isinstance(v, Init) and not v.items:
                return Struct("std::optional", None, {"has": FALSE})
            v = self.tuplify(v)
            return Struct("std::optional", None, {"has": TRUE, "val": v})
        if t in ("R:std::tuple", "R:std::pair"):
            if len(args) == 1:
                v = I.rv(args[0], fr)
                if isinstance(v, Struct) or isinstance(v, Poly):
                    return v
            fn = (lambda i: ("first", "second")[i]) if t == "R:std::pair" else str
            return Struct(t[2:], None, {fn(i): self.tuplify(I.rv(a, fr)) for i, a in enumerate(args)})
        if t == "R:std::vector":
            real = [a for a in args if "allocator" not in a.get("t", "")]
            if not real:
                return Seq(None)
            v = I.rv(real[0], fr)
            if isinstance(v, (Seq,)):
                return v
            if isinstance(v, Init):
                return Seq(None, v.items)
            if isinstance(v, Poly):
                if len(real) > 1:
                    raise Undecided("sized vector")
                return Sized(v)
            return v
        if t in MAPS:
            real = [a for a in args if a.get("t") not in ("R:std::allocator", "R:std::hash", "R:std::equal_to", "u64")]
            if not real:
                return MapV(sym("empty"), (), True)
            v = I.rv(real[0], fr)
            if isinstance(v, MapV):
                return v
            if isinstance(v, Init):
                its = []
                for x in v.items:
                    if isinstance(x, Struct):
                        its.append((x.fields["first"], x.fields["second"]))
                    else:
                        its.append((x, TRUE))
                return MapV(sym("empty"), its, True)
            return MapV(fun("copyof", I.reify(v)))
        if t == "R:std::basic_string":
            real = [a for a in args if "allocator" not in a.get("t", "")]
            if not real:
                return Str([])
            v = I.rv(real[0], fr)
            if isinstance(v, Str):
                return v
            raise Undecided("string constructor")
        if t == "R:std::basic_string_view":
            return I.rv(args[0], fr)
        if t in ("R:gsl::span",):
            return I.ev(args[0], fr)
        if t == "R:std::initializer_list":
            return Init([I.rv(a, fr) for a in args])
        if t.startswith("R:xt::"):
            v = self.arr_ctor(n, fr)
            return self.materialise(v) if strip_t(t[2:]) in ("xt::xarray_container", "xt::xtensor_container") else v
        if t in ("R:std::allocator", "R:std::hash", "R:std::equal_to"):
            return VOID
        if t.startswith("R:std::__detail::_Node"):
            return I.rv(args[0], fr)
        rec = I.prog.records.get(t[2:])
        if n.get("defaulted") and rec is not None and not args:
            flds = {}
            for b in rec.get("bases", []):
                pass
            for f in rec["fields"]:
                if f.get("e") is not None:
                    flds[f["n"]] = I.rv(f["e"], {"env": {}, "this": None})
            if flds or not rec["fields"]:
                if not rec["file"].startswith("/repo") and not rec["fields"]:
                    return sym("default:" + t[2:])
                return Struct(t[2:], None, flds)
            return Struct(t[2:], None, {})
        if n.get("repo") or t.startswith("R:vw::"):
            vals = tuple(I.reify(I.rv(a, fr)) for a in args)
            return fun("new:" + t[2:], *vals) if vals else sym("default:" + t[2:])
        raise Undecided("constructor of " + t)

    def tuplify(self, v):
        return v

    # -- std:: free functions ---------------------------------------------------------
    def std(self, q, n, fr):
        I = self.I
        nm = q.split("::")[-1]
        a = n["args"]
        if nm in ("move", "forward", "as_const", "addressof"):
            v = I.ev(a[0], fr)
            return Ref(v) if nm == "addressof" else v
        if nm == "get":
            lv = I.lvof(a[0], fr)
            ti = n.get("ti")
            i = ti[0] if isinstance(ti, list) else ti
            if i is None:
                raise Undecided("std::get by type")
            v = I.read(lv)
            if isinstance(v, Struct) and v.cls == "std::pair":
                i = ("first", "second")[int(i)]
            return lv.sub("f", str(i), n["t"])
        if nm in ("make_tuple", "make_pair", "forward_as_tuple"):
            fs = {}
            for i, x in enumerate(a):
                fs[("first", "second")[i] if nm == "make_pair" else str(i)] = I.rv(x, fr)
            return Struct("std::pair" if nm == "make_pair" else "std::tuple", None, fs)
        if nm == "tie":
            return Struct("tie", None, {str(i): Ref(I.lvof(x, fr)) for i, x in enumerate(a)})
        if nm == "make_optional":
            return Struct("std::optional", None, {"has": TRUE, "val": I.rv(a[0], fr)})
        if nm in ("max", "min") and len(a) == 2:
            x, y = I.num(a[0], fr), I.num(a[1], fr)
            c = I.known(le(x, y))
            if c is None:
                c = I.decide(le(x, y))
            return (y if c else x) if nm == "max" else (x if c else y)
        if nm == "swap":
            l1, l2 = I.lvof(a[0], fr), I.lvof(a[1], fr)
            x, y = I.read(l1), I.read(l2)
            I.write(l1, y)
            I.write(l2, x)
            return VOID
        if nm == "exchange":
            l1 = I.lvof(a[0], fr)
            x = I.read(l1)
            I.write(l1, I.rv(a[1], fr))
            return x
        if nm == "sqrt":
            return poly.sqrt(I.num(a[0], fr))
        if nm == "exp":
            return poly.exp(I.num(a[0], fr))
        if nm == "log":
            return poly.log(I.num(a[0], fr))
        if nm in ("fabs", "abs"):
            p = I.num(a[0], fr)
            if n["t"][:1] in "iu" and a[0].get("t", "")[:1] == "f":
                p = I.trunc(p)
            return self.absval(p)
        if nm == "pow":
            x, y = I.num(a[0], fr), I.num(a[1], fr)
            cy = y.const()
            if cy is not None and cy.denominator == 1 and abs(cy) <= 8:
                return x ** int(cy)
            if cy == Fraction(1, 2):
                return poly.sqrt(x)
            if x.const() == 2:
                return pow2(y)
            return fun("pow", x, y)
        if nm in ("exp2",):
            return pow2(I.num(a[0], fr))
        if nm in ("ceil", "floor", "round", "log2", "log10", "cos", "sin", "trunc"):
            return fun(nm, I.num(a[0], fr))
        if nm in ("accumulate", "for_each", "any_of", "all_of", "none_of") and len(a) >= 3:
            return self.algorithm(nm, n, fr)
        if nm == "__builtin_expect":
            return I.rv(a[0], fr)
        if nm in ("begin", "end", "cbegin", "cend") and len(a) == 1:
            lv = I.resolve_lv(I.lvof(a[0], fr))
            return self.seqiter(lv, "end" in nm) or Struct("iter", None, {"end": TRUE if "end" in nm else FALSE, "lv": Ref(lv)})
        if nm in ("operator++", "operator--") and (n.get("o") is not None or a):
            o = self.obj(n, fr) if n.get("o") is not None else I.lvof(a[0], fr)
            v = I.read(o)
            if isinstance(v, Struct) and "pos" in v.fields:
                I.write(o.sub("f", "pos", "i64"), v.fields["pos"] + (1 if nm.endswith("++") else -1))
                return v if n.get("o") is not None and a else o
            raise Undecided("iterator step")
        if nm in ("operator!=", "operator=="):
            x, y = (I.rv(z, fr) for z in ([n["o"]] if n.get("o") else []) + a)
            return self.struct_cmp("!=" if nm.endswith("!=") else "==", x, y)
        if nm.startswith("operator") and nm[8:] in ("<", ">", "<=", ">="):
            x, y = (I.rv(z, fr) for z in ([n["o"]] if n.get("o") else []) + a)
            return I.compare(nm[8:], x, y)
        if nm in ("operator*", "operator->") and (n.get("o") is not None or len(a) == 1):
            v = I.read(self.obj(n, fr)) if n.get("o") is not None else I.rv(a[0], fr)
            if isinstance(v, Struct) and v.cls == "iter" and "pos" in v.fields:
                lv = v.fields["lv"].lv.sub("m", v.fields["pos"], n.get("t"))
            elif isinstance(v, Struct) and v.cls == "mappos":
                m = v.fields["map"].lv
                k = fun("key", self.plainmap(m).base, v.fields["pos"])
                lv = self.mapit_deref(Struct("mapit", None, {"map": Ref(m), "key": k}))
            elif isinstance(v, Struct) and v.cls == "mapit":
                lv = self.mapit_deref(v)
            else:
                raise Undecided("iterator dereference")
            return lv if nm == "operator*" else Ref(lv)
        if nm == "size" and len(a) == 1:
            return I.seq_len(I.rv(a[0], fr))
        return None

    def absval(self, p):
        I = self.I
        ge = I.known(sign(p, (0, 1)))
        if ge is True:
            return p
        if ge is False:
            return -p
        return poly.absv(p)

    def struct_cmp(self, op, a, b):
        I = self.I
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.cls == "mapit" and b.cls == "mapend":
                r = self.member(a.fields["map"].lv, a.fields["key"])
                return r if op == "!=" else b_not(r)
            if b.cls == "mapit" and a.cls == "mapend":
                return self.struct_cmp(op, b, a)
            if {a.cls, b.cls} == {"mappos", "mapend"}:
                x = a if a.cls == "mappos" else b
                m = self.plainmap(x.fields["map"].lv)
                return (eqv if op == "==" else ne)(x.fields["pos"], ZERO if m.empty else fun("len", m.base))
            if a.cls == b.cls and "pos" in a.fields and "pos" in b.fields:
                ka, kb = ([vkey(f[k]) for k in sorted(f) if k != "pos"] for f in (a.fields, b.fields))
                if ka != kb:
                    raise Undecided("comparison of iterators of different containers")
                return (eqv if op == "==" else ne)(a.fields["pos"], b.fields["pos"])
            if a.key == b.key:
                return TRUE if op == "==" else FALSE
            if a.cls == b.cls:
                return (eqv if op == "==" else ne)(I.reify(a), I.reify(b))
        raise Undecided("comparison of compound values")

    def seqiter(self, lv, end):
        """iterator into a sequence"""
        v = self.I.read(lv)
        if not isinstance(v, Seq) and not (isinstance(v, Arr) and v.rank == 1 and v.shape):
            return None
        return Struct("iter", None, {"pos": self.I.seq_len(v) if end else ZERO, "lv": Ref(lv)})

    def callee(self, c, args, n):
        """call of a closure on values"""
        I = self.I
        g = I.prog.fns.get(c.fn) if isinstance(c, Closure) else None
        if g is None:
            raise Undecided("function argument")
        lvs = [x if isinstance(x, LV) else I.newroot("arg", x) for x in args]
        return I.invoke(g, lvs, c.this, c.env, n.get("l"))

    def elements(self, b, e):
        """the locations between two iterators over a sequence of known length"""
        if not all(isinstance(x, Struct) and x.cls == "iter" and "pos" in x.fields for x in (b, e)):
            raise Undecided("iterator range")
        i, j = b.fields["pos"].const(), e.fields["pos"].const()
        if i is None or j is None or vkey(b.fields["lv"]) != vkey(e.fields["lv"]):
            raise Undecided("iterator range")
        return [b.fields["lv"].lv.sub("m", P(k), None) for k in range(int(i), int(j))]

    def algorithm(self, nm, n, fr):
        I = self.I
        a = [I.rv(x, fr) for x in n["args"]]
        ls = self.elements(a[0], a[1])
        if nm == "accumulate":
            r = a[2]
            for lv in ls:
                if len(a) > 3:
                    r = self.callee(a[3], [r, lv], n)
                    r = I.read(r) if isinstance(r, LV) else r
                else:
                    r = I.topoly(r) + I.topoly(I.read(lv))
            return r
        if nm == "for_each":
            for lv in ls:
                self.callee(a[2], [lv], n)
            return a[2]
        for lv in ls:
            r = self.callee(a[2], [lv], n)
            if I.decide(I.tobool(I.read(r) if isinstance(r, LV) else r)) == (nm != "all_of"):
                return TRUE if nm == "any_of" else FALSE
        return FALSE if nm == "any_of" else TRUE

    def plainmap(self, lv):
        m = self.I.read(lv)
        if not isinstance(m, MapV) or m.writes:
            raise Undecided("iteration over an updated map")
        return m

    def member(self, lv, key):
        I = self.I
        m = I.read(lv)
        if isinstance(m, Poly):
            m = MapV(m)
        if isinstance(m, Struct):
            m = MapV(I.reify(m))
        if not isinstance(m, MapV):
            raise Undecided("membership")
        for k, x in reversed(m.writes):
            if I.same_key(k, key):
                return TRUE
        if m.empty:
            return FALSE
        from . import aff
        aff.INTF.add("b?has")
        return ne(fun("b?has", m.base, I.key_of(key)), 0)

    def mapit_deref(self, b):
        lv, key = b.fields["map"].lv, b.fields["key"]
        # pair (key, mapped)
        I = self.I
        return I.newroot("node", Struct("std::pair", None, {"first": key, "second": Ref(lv.sub("m", key, "?"))}))

    # -- optional / tuple -------------------------------------------------------------
    def optional(self, m, n, fr):
        I = self.I
        lv = self.obj(n, fr)
        if m in ("operator bool", "has_value"):
            v = I.read(lv)
            if isinstance(v, Struct) and v.cls == "std::optional" and "has" in v.fields:
                return v.fields["has"]
            nm = v if isinstance(v, Poly) else I.reify(v)
            from . import aff
            aff.INTF.add("b?hasvalue")
            return ne(fun("b?hasvalue", nm), 0)
        if m in ("operator*", "value"):
            return lv.sub("o", n["t"])
        if m == "operator->":
            return Ref(lv.sub("o", "?"))
        if m == "operator=":
            return self.assign(n, fr)
        raise Undecided("optional::" + m)

    def tupl(self, m, n, fr):
        if m == "operator=":
            return self.assign(n, fr)
        raise Undecided("tuple::" + m)

    # -- containers -----------------------------------------------------------------------
    def umap(self, m, n, fr):
        I = self.I
        lv = I.resolve_lv(self.obj(n, fr))
        a = n["args"]
        if m == "clear":
            I.write(lv, MapV(sym("empty"), (), True))
            return VOID
        if m == "operator[]":
            k = I.key_of(I.rv(a[0], fr))
            if not I.decide(self.member(lv, k)):
                I.write(lv.sub("m", k, n["t"]), ZERO if n["t"][0] in "iufb" else sym("default:" + n["t"]))
            return lv.sub("m", k, n["t"])
        if m in ("insert", "emplace") and len(a) == 1 and "set" in (n.get("cls") or n.get("qn") or ""):
            k = I.key_of(I.rv(a[0], fr))
            had = I.decide(self.member(lv, k))
            if not had:
                I.write(lv.sub("m", k, "b"), TRUE)
            return Struct("std::pair", None, {"first": Struct("mapit", None, {"map": Ref(lv), "key": k}),
                                              "second": FALSE if had else TRUE})
        if m in ("emplace", "try_emplace", "insert_or_assign") and len(a) == 2:
            k = I.key_of(I.rv(a[0], fr))
            v = I.rv(a[1], fr)
            had = I.decide(self.member(lv, k))
            if not had or m == "insert_or_assign":
                I.write(lv.sub("m", k, a[1].get("t") or "f64"), v)
            return Struct("std::pair", None, {"first": Struct("mapit", None, {"map": Ref(lv), "key": k}),
                                              "second": FALSE if had else TRUE})
        if m == "at":
            k = I.key_of(I.rv(a[0], fr))
            b = self.member(lv, k)
            if not I.decide(b):
                raise ThrowX("out_of_range")
            return lv.sub("m", k, n["t"])
        if m == "find":
            k = I.key_of(I.rv(a[0], fr))
            return Struct("mapit", None, {"map": Ref(lv), "key": k})
        if m in ("count", "contains"):
            k = I.key_of(I.rv(a[0], fr))
            return self.member(lv, k)
        if m in ("end", "cend"):
            return Struct("mapend", None, {"map": Ref(lv)})
        if m in ("begin", "cbegin"):
            return Struct("mappos", None, {"map": Ref(lv), "pos": ZERO})
        if m == "empty":
            return eqv(self.mapsize(lv), 0)
        if m == "size":
            return self.mapsize(lv)
        if m == "operator=":
            return self.assign(n, fr)
        raise Undecided("map::" + m)

    def mapsize(self, lv):
        I = self.I
        v = I.read(lv)
        if isinstance(v, MapV):
            r = ZERO if v.empty else fun("len", v.base)
            old = MapV(v.base, (), v.empty)
            seen = []
            for k, x in v.writes:
                if any(I.same_key(k, q) for q in seen):
                    continue
                seen.append(k)
                tmp = I.newroot("old", old)
                if not I.decide(self.member(tmp, k)):
                    r = r + 1
            return r
        raise Undecided("size of a map")

    def vector(self, m, n, fr):
        I = self.I
        lv = I.resolve_lv(self.obj(n, fr))
        a = n["args"]
        if m in ("operator[]", "at"):
            return lv.sub("m", I.num(a[0], fr), n["t"])
        if m in ("push_back", "emplace_back"):
            v = I.read(lv)
            if isinstance(v, Poly):
                v = Seq(v)
            if not isinstance(v, Seq) or len(a) != 1:
                raise Undecided("push_back")
            I.write(lv, Seq(v.base, v.items + (I.rv(a[0], fr),)))
            return VOID
        if m == "empty":
            v = I.read(lv)
            if isinstance(v, Seq) and v.items:
                return FALSE
            return eqv(I.seq_len(v), 0)
        if m == "size":
            return I.seq_len(I.read(lv))
        if m == "clear":
            I.write(lv, Seq(None))
            return VOID
        if m == "operator=":
            return self.assign(n, fr)
        if m in ("reserve",):
            return VOID
        if m in ("begin", "end", "cbegin", "cend"):
            r = self.seqiter(lv, "end" in m)
            if r is not None:
                return r
        if m in ("back", "front"):
            L = I.seq_len(I.read(lv))
            return lv.sub("m", L - 1 if m == "back" else ZERO, n["t"])
        raise Undecided("vector::" + m)

    def string(self, m, n, fr):
        I = self.I
        lv = I.resolve_lv(self.obj(n, fr))
        a = n["args"]
        if m in ("operator+=", "push_back", "append"):
            v = I.read(lv)
            x = I.rv(a[0], fr)
            if not isinstance(v, Str):
                raise Undecided("string append")
            add = list(x.parts) if isinstance(x, Str) else [self.chr(I.topoly(x))]
            I.write(lv, Str(list(v.parts) + add))
            return lv
        if m in ("size", "length"):
            return I.seq_len(I.read(lv))
        if m == "empty":
            return eqv(I.seq_len(I.read(lv)), 0)
        if m == "operator=":
            return self.assign(n, fr)
        if m == "reserve":
            return VOID
        raise Undecided("string::" + m)

    @staticmethod
    def chr(p):
        c = p.const()
        return int(c) if c is not None else p

    def q_gsl__at(self, n, fr):
        I = self.I
        lv = I.lvof(n["args"][0], fr)
        return lv.sub("m", I.num(n["args"][1], fr), n["t"])

    # -- ranges for range-for ----------------------------------------------------------------
    def range_info(self, lv, var):
        I = self.I
        v = I.read(lv)
        t = var.get("t")
        if isinstance(v, Struct) and ("start" in v.fields and "stop" in v.fields) and v.cls in I.prog.records:
            return self.proto_range(v)
        if isinstance(v, Struct) and v.cls in ("iterable_wrapper",) or isinstance(v, Closure):
            raise Undecided("range over %s" % v.cls)
        if isinstance(v, Struct) and v.cls == "arange":
            return v.fields["n"], lambda k: v.fields["lo"] + k
        if isinstance(v, Str):
            if len(v.parts) == 1 and isinstance(v.parts[0], Poly):
                base = v.parts[0]
                from . import aff
                aff.INTF.add("chr")
                return fun("len", base), lambda k: fun("chr", base, k)
            raise Undecided("range over a built string")
        if isinstance(v, Init):
            raise Undecided("range over braces")
        if isinstance(v, (Seq, Poly, Struct)):
            if isinstance(v, Seq) and v.items and v.base is not None:
                raise Undecided("range over an extended sequence")
            L = I.seq_len(v)
            return L, lambda k: lv.sub("m", k, t)
        if isinstance(v, Arr):
            if v.rank == 1:
                return v.shape[0], lambda k: lv.sub("i", (k,))
        raise Undecided("range-for over %s" % type(v).__name__)

    def proto_range(self, v):
        return v.fields["stop"] - v.fields["start"], lambda k: v.fields["start"] + k

    # -- xtensor -------------------------------------------------------------------------------
    def arr_literal(self, v):
        I = self.I
        its = v.items
        if len(its) == 1 and isinstance(its[0], Arr):
            return its[0]
        if its and all(isinstance(x, Poly) for x in its):
            vals = list(its)

            def fn(idx, ctx):
                c = idx[0].const()
                if c is not None:
                    return vals[int(c)]
                r = vals[-1]
                for i in range(len(vals) - 2, -1, -1):
                    r = V.ite(eqv(idx[0], i), vals[i], r)
                return r
            return Arr(1, (P(len(vals)),), fn, "{" + ",".join(x.key for x in vals) + "}")
        if its and all(isinstance(x, Init) for x in its):
            rows = [self.arr_literal(x) for x in its]

            def fn2(idx, ctx):
                c = idx[0].const()
                if c is not None:
                    return rows[int(c)].elem(idx[1:], ctx)
                r = rows[-1].elem(idx[1:], ctx)
                for i in range(len(rows) - 2, -1, -1):
                    r = V.ite(eqv(idx[0], i), rows[i].elem(idx[1:], ctx), r)
                return r
            return Arr(1 + rows[0].rank, (P(len(rows)),) + tuple(rows[0].shape), fn2,
                       "{" + ",".join(r.key for r in rows) + "}")
        raise Undecided("array literal")

    def const_arr(self, shape, v):
        return Arr(len(shape), tuple(shape), lambda idx, ctx: v, "const(%s;%s)" % (vkey(tuple(shape)), v.key))

    def arr_ctor(self, n, fr):
        I = self.I
        a = n["args"]
        real = [x for x in a if not (x.get("t") or "").startswith("R:std::allocator")]
        if not real:
            return Arr(0, (), lambda idx, ctx: fun("uninit", sym("arr@%s" % n.get("l"))), "emptyarr@%s" % n.get("l"))
        v = I.rv(real[0], fr)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Init):
            sh = I.cfg.get("init_is_shape")
            return self.arr_literal(v)
        if isinstance(v, Struct) and v.cls == "arange":
            return self.arange_arr(v)
        if isinstance(v, Struct) and v.cls == "shape":
            if len(real) > 1:
                return self.const_arr(v.fields["s"], I.num(real[1], fr))
            return Arr(len(v.fields["s"]), v.fields["s"], lambda idx, ctx: fun("uninit", sym("arr@%s" % n.get("l")), *idx), "uninit@%s" % n.get("l"))
        if isinstance(v, Poly):
            return Arr(0, (), lambda idx, ctx: v, "scalar(%s)" % v.key)
        raise Undecided("array constructor")

    def materialise(self, v):
        """a container holds values: every element of the expression is
        evaluated once (only matters for expressions that differ each time)"""
        I = self.I
        if not I.cfg.get("eager") or not isinstance(v, Arr) or v.rank is None:
            return v
        dims = [P(s).const() for s in v.shape]
        if None in dims:
            return v
        memo = {}

        def fill(pre):
            if len(pre) == len(dims):
                memo[pre] = v.elem(tuple(P(i) for i in pre), I)
                return
            for i in range(int(dims[len(pre)])):
                fill(pre + (i,))
        fill(())

        def fn(idx, ctx):
            c = tuple(P(i).const() for i in idx)
            if None in c:
                raise Undecided("container element at a symbolic index")
            c = tuple(int(i) for i in c)
            if c not in memo:
                return fun("outside", sym(v.key), *idx)
            return memo[c]
        return Arr(v.rank, v.shape, fn, "held(%s)" % ",".join(vkey(x) for x in memo.values()))

    def arange_arr(self, v):
        return Arr(1, (v.fields["n"],), lambda idx, ctx: v.fields["lo"] + idx[0],
                   "range(%s,%s)" % (v.fields["lo"].key, v.fields["n"].key))

    def arr(self, v):
        if isinstance(v, Struct) and v.cls == "arange":
            return self.arange_arr(v)
        if isinstance(v, LV):
            return self.arr(self.I.read(v))
        return v

    def rank_of(self, a, r):
        if a.rank is None:
            a.rank = r
            a.shape = tuple(fun("shape", sym(a.key), P(d)) for d in range(r))
        return a

    def xt(self, m, n, fr):
        I = self.I
        a = n["args"]
        tail = m.split("::")[-1]
        if n.get("o") is not None and n["k"] == "call" and (m.startswith("x") or "svector" in m):
            return self.xmember(m, tail, n, fr)
        if m.startswith("linalg::"):
            if tail == "dot":
                x, y = [self.materialise(self.arr(I.rv(z, fr))) for z in a[:2]]
                return self.dot(x, y)
            if tail == "outer":
                x, y = [self.materialise(self.arr(I.rv(z, fr))) for z in a[:2]]
                self.rank_of(x, 1)
                self.rank_of(y, 1)
                return Arr(2, (x.shape[0], y.shape[0]), lambda ix, c: x.elem(ix[:1], c) * y.elem(ix[1:], c),
                           "outer(%s,%s)" % (x.key, y.key))
            if tail == "trace":
                x = self.arr(I.rv(a[0], fr))
                return self.scalar(self.total(x.shape[0], lambda k: x.elem((k, k), I)))
            x = self.arr(I.rv(a[0], fr))
            if tail == "inv" and x.rank == 2 and x.shape[0].const() in (1, 2, 3):
                return self.inverse(x)
            if tail in ("inv", "cholesky") and x.rank == 2:
                rx = I.reify(x)
                return Arr(2, x.shape, lambda ix, c: fun("el", fun("la:" + tail, rx), *ix), "%s(%s)" % (tail, x.key))
            if tail in ("norm", "det"):
                return fun("la:" + tail, I.reify(x))
            raise Undecided("xt::" + m)
        if tail == "view":
            lv = I.lvof(a[0], fr)
            spec = []
            for x in a[1:]:
                v = I.rv(x, fr)
                if isinstance(v, Struct) and v.cls == "xall":
                    spec.append(("all",))
                elif isinstance(v, Struct) and v.cls == "arange":
                    spec.append(("rng", v.fields["lo"], v.fields["lo"] + v.fields["n"]))
                else:
                    spec.append(("ix", I.topoly(v)))
            return lv.sub("v", tuple(spec))
        if tail == "all" and not a:
            return Struct("xall", None)
        if tail in ("range", "arange"):
            xs = [I.num(x, fr) for x in a]
            lo, hi = (ZERO, xs[0]) if len(xs) == 1 else (xs[0], xs[1])
            if len(xs) > 2:
                raise Undecided("xt::range step")
            return Struct("arange", None, {"lo": lo, "n": hi - lo})
        if tail in ("zeros", "ones"):
            v = I.rv(a[0], fr)
            items = v.items if isinstance(v, Init) else (v.fields["s"] if isinstance(v, Struct) and v.cls == "shape" else None)
            if items is None:
                raise Undecided("zeros shape")
            return self.const_arr(tuple(I.topoly(x) for x in items), ZERO if tail == "zeros" else ONE)
        if tail == "eye":
            v = I.rv(a[0], fr)
            if isinstance(v, Init):
                v = v.items[0]
            nn = I.topoly(v)
            return Arr(2, (nn, nn), lambda ix, c: self.kron(ix[0], ix[1], c), "eye(%s)" % nn.key)
        if tail == "diag":
            x = self.arr(I.rv(a[0], fr))
            self.rank_of(x, 1)

            def dg(ix, c):
                return self.kron(ix[0], ix[1], c) * x.elem((ix[0],), c)
            return Arr(2, (x.shape[0], x.shape[0]), dg, "diag(%s)" % x.key)
        if tail == "diagonal":
            if [I.num(x, fr).const() for x in a[1:]] != [0, 0, 1][:len(a) - 1]:
                raise Undecided("xt::diagonal with an offset")
            x = self.arr(I.rv(a[0], fr))
            self.rank_of(x, 2)
            return Arr(1, (x.shape[0],), lambda ix, c: x.elem((ix[0], ix[0]), c), "diagonal(%s)" % x.key)
        if tail in ("exp", "log", "sqrt"):
            f = {"exp": poly.exp, "log": poly.log, "sqrt": poly.sqrt}[tail]
            x = self.arr(I.rv(a[0], fr))
            return I.amap(f, x, key=tail)
        if tail in ("round", "abs", "fabs", "cos", "sin"):
            x = self.arr(I.rv(a[0], fr))
            f = poly.absv if "abs" in tail else (lambda p: fun(tail, p))
            return I.amap(f, x, key=tail)
        if tail.startswith("operator"):
            op = tail[8:].strip()
            xs = [self.arr(I.rv(x, fr)) for x in ([n["o"]] if n.get("o") else []) + a]
            if len(xs) == 1 and op == "-":
                return I.amap(lambda p: -p, xs[0], key="neg")
            if op in ARROPS:
                ys = [x if isinstance(x, Arr) else I.topoly(x) for x in xs]
                return I.amap(ARROPS[op], *ys, key=op)
            raise Undecided("xt::" + tail)
        if tail in ("sum",):
            x = self.arr(I.rv(a[0], fr))
            if x.rank == 1 and all("evaluation_strategy" in str(y) or y["k"] == "default" for y in a[1:]):
                return self.scalar(self.total(x.shape[0], lambda k: x.elem((k,), I)))
        if tail == "linspace":
            lo, hi = I.num(a[0], fr), I.num(a[1], fr)
            cnt = I.num(a[2], fr) if len(a) > 2 else P(50)
            end = I.rv(a[3], fr) if len(a) > 3 else TRUE
            c = cnt.const()
            if c is None or I.known(end) is None:
                raise Undecided("xt::linspace of a symbolic length")
            den = P(max(1, c - (1 if I.known(end) else 0)))
            return Arr(1, (cnt,), lambda ix, ctx: lo + ix[0] * ((hi - lo) / den), "linspace(%s,%s,%s)" % (lo.key, hi.key, cnt.key))
        if tail == "meshgrid":
            xs = [self.rank_of(self.arr(I.rv(x, fr)), 1) for x in a]
            shp = tuple(x.shape[0] for x in xs)

            def mesh(d):
                return Arr(len(xs), shp, lambda ix, ctx: xs[d].elem((ix[d],), ctx), "mesh%d(%s)" % (d, ",".join(x.key for x in xs)))
            return Struct("std::tuple", None, {str(d): mesh(d) for d in range(len(xs))})
        if tail in ("flatten", "ravel") and len(a) == 1:
            x = self.arr(I.rv(a[0], fr))
            if isinstance(x, Arr) and x.rank == 1:
                return x
            if isinstance(x, Arr) and x.rank == 2 and (n.get("ti") or [1])[0] in (1, 2):
                wide = x.shape[1 if (n.get("ti") or [1])[0] == 1 else 0].const()
                if wide is None:
                    raise Undecided("xt::%s of a symbolic width" % tail)
                swap = (n.get("ti") or [1])[0] == 2

                def flat(ix, ctx):
                    k = ix[0].const()
                    if k is None:
                        raise Undecided("flattened array at a symbolic index")
                    q, r = divmod(int(k), int(wide))
                    return x.elem((P(r), P(q)) if swap else (P(q), P(r)), ctx)
                return Arr(1, (x.shape[0] * x.shape[1],), flat, "flat%d(%s)" % (swap, x.key))
        if tail == "xtuple":
            return Struct("std::tuple", None, {str(d): self.arr(I.rv(x, fr)) for d, x in enumerate(a)})
        if tail == "stack":
            v = I.rv(a[0], fr)
            ax = I.num(a[1], fr).const() if len(a) > 1 else 0
            xs = [v.fields[str(d)] for d in range(len(v.fields))] if isinstance(v, Struct) else []
            if xs and ax in (0, 1) and all(isinstance(x, Arr) and x.rank == 1 for x in xs):
                def pick(ix, ctx):
                    d = ix[int(ax)].const()
                    if d is None:
                        raise Undecided("stacked array at a symbolic index")
                    return xs[int(d)].elem((ix[1 - int(ax)],), ctx)
                shp = (P(len(xs)), xs[0].shape[0])
                return Arr(2, shp if ax == 0 else shp[::-1], pick, "stack%d(%s)" % (ax, ",".join(x.key for x in xs)))
        if tail == "transpose" and len(a) == 1:
            x = self.arr(I.rv(a[0], fr))
            if x.rank == 2:
                return Arr(2, (x.shape[1], x.shape[0]), lambda ix, c: x.elem((ix[1], ix[0]), c), "tr(%s)" % x.key)
        raise Undecided("xt::" + m)

    def kron(self, i, j, c):
        k = c.same_index((i,), (j,))
        if k is True:
            return ONE
        if k is False:
            return ZERO
        return V.ite(eqv(i, j), ONE, ZERO)

    def scalar(self, p):
        return Arr(0, (), lambda ix, c: p, "scalar(%s)" % p.key)

    def inverse(self, x):
        """inverse of a small matrix by cofactors"""
        n = int(x.shape[0].const())
        a = [[x.elem((P(i), P(j)), self.I) for j in range(n)] for i in range(n)]

        def det(m):
            if not m:
                return ONE
            return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), ZERO)
        d = det(a)

        def minor(i, j):
            return [[a[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
        inv = [[(-1) ** (i + j) * det(minor(j, i)) / d for j in range(n)] for i in range(n)]

        def fn(ix, c):
            k = [p.const() for p in ix]
            if None in k:
                raise Undecided("inverse at a symbolic index")
            return inv[int(k[0])][int(k[1])]
        return Arr(2, x.shape, fn, "inv(%s)" % x.key)

    @staticmethod
    def total(n, f):
        """sum over an extent: term by term when it is a small constant"""
        c = n.const()
        if c is not None and 0 <= c <= 8:
            return sum((f(P(i)) for i in range(int(c))), ZERO)
        k = atom("s", poly.fresh("k"))
        return sum_over(k, ZERO, n, f(P(k)))

    def dot(self, x, y):
        I = self.I
        if x.rank is None or y.rank is None:
            raise Undecided("rank of dot operand unknown")
        if x.rank == 1 and y.rank == 1:
            return self.scalar(self.total(x.shape[0], lambda kp: x.elem((kp,), I) * y.elem((kp,), I)))
        if x.rank == 2 and y.rank == 1:
            return Arr(1, (x.shape[0],), lambda ix, c: self.total(x.shape[1], lambda kp: x.elem((ix[0], kp), c) * y.elem((kp,), c)),
                       "dot(%s,%s)" % (x.key, y.key))
        if x.rank == 1 and y.rank == 2:
            return Arr(1, (y.shape[1],), lambda ix, c: self.total(x.shape[0], lambda kp: x.elem((kp,), c) * y.elem((kp, ix[0]), c)),
                       "dot(%s,%s)" % (x.key, y.key))
        if x.rank == 2 and y.rank == 2:
            return Arr(2, (x.shape[0], y.shape[1]), lambda ix, c: self.total(x.shape[1], lambda kp: x.elem((ix[0], kp), c) * y.elem((kp, ix[1]), c)),
                       "dot(%s,%s)" % (x.key, y.key))
        raise Undecided("dot of ranks %s,%s" % (x.rank, y.rank))

    def xmember(self, m, tail, n, fr):
        I = self.I
        a = n["args"]
        if "svector" in m and tail in ("operator[]", "at"):
            v = I.rv(n["o"], fr)
            if isinstance(v, Struct) and v.cls == "shape":
                c = I.num(a[0], fr).const()
                s = v.fields["s"]
                if c is None or not 0 <= c < len(s):
                    raise Undecided("shape index")
                return s[int(c)]
            if isinstance(v, Struct) and v.cls == "shapeof":
                return fun("shape", v.fields["a"], I.num(a[0], fr))
            raise Undecided("shape")
        if tail in ("operator()", "operator[]", "at", "element"):
            lv = self.obj(n, fr)
            idx = []
            for x in a:
                v = I.rv(x, fr)
                if isinstance(v, Init):
                    idx += [I.topoly(y) for y in v.items]
                else:
                    idx.append(I.topoly(v))
            return self.index(lv, tuple(idx))
        lv = self.obj(n, fr)
        if tail in ("shape", "size", "dimension"):
            v = self.arr(I.read(lv))
            if not isinstance(v, Arr):
                raise Undecided("shape of non-array")
            if tail == "dimension":
                if v.rank is None:
                    return fun("rank", I.reify(v))
                return P(v.rank)
            if v.rank is None:
                if tail == "shape":
                    if a:
                        return fun("shape", sym(v.key), I.num(a[0], fr))
                    return Struct("shapeof", None, {"a": sym(v.key)})
                return fun("size", sym(v.key))
            if tail == "size":
                r = ONE
                for s in v.shape:
                    r = r * s
                return r
            if a:
                c = I.num(a[0], fr).const()
                return v.shape[int(c)]
            return Struct("shape", None, {"s": tuple(v.shape)})
        if tail == "operator=":
            v = self.arr(I.rv(a[0], fr))
            if isinstance(v, Init):
                v = self.arr_literal(v)
            lv2 = I.resolve_lv(lv)
            I.write(lv2, self.materialise(v))
            return lv
        if tail.startswith("operator") and tail[8:] in ("+=", "-=", "*=", "/="):
            v = self.arr(I.rv(a[0], fr))
            cur = self.arr(I.read(lv))
            if not isinstance(v, Arr):
                v = I.topoly(v)
            if cur.rank is None and isinstance(v, Arr) and v.rank is not None:
                self.rank_of(cur, v.rank)
            f = ARROPS[tail[8]]
            r = Arr(cur.rank, cur.shape, (lambda ix, c: f(cur.elem(ix, c), v.elem(ix, c) if isinstance(v, Arr) else v)),
                    "%s(%s,%s)" % (tail[8:], cur.key, vkey(v)))
            I.write(lv, self.materialise(r))
            return lv
        if tail in ("begin", "end", "cbegin", "cend"):
            return Struct("iter", None, {"end": TRUE if "end" in tail else FALSE, "lv": Ref(lv)})
        raise Undecided("xt member " + m)

    def index(self, lv, idx):
        """element location; views are composed into the base array"""
        I = self.I
        lv = I.resolve_lv(lv)
        if lv.path and lv.path[-1][0] == "v":
            base = LV(lv.root, lv.path[:-1])
            spec = list(lv.path[-1][1])
            b = I.read(base)
            if isinstance(b, Arr) and b.rank is not None:
                spec += [("all",)] * (b.rank - len(spec))
            return self.index(base, I.view_index(spec, idx))
        v = I.read(lv)
        if isinstance(v, Arr) and v.rank is not None and len(idx) < v.rank:
            if v.rank == 2 and len(idx) == 1:
                raise Undecided("partial index")
        if isinstance(v, Struct) and v.cls == "shape":
            raise Undecided("shape call")
        return lv.sub("i", tuple(idx))

    # -- boost::operators ----------------------------------------------------------------------
    def boost(self, q, n, fr):
        """operators derived by boost: a OP b from OP= / < / =="""
        I = self.I
        op = q.rsplit("operator", 1)[1]
        a = ([n["o"]] if n.get("o") else []) + n["args"]
        if op in "+-*/" and len(a) == 2:
            x = I.rv(a[0], fr)
            y = I.ev(a[1], fr)
            cls = x.cls if isinstance(x, Struct) else None
            swap = False
            if cls is None:
                y0 = I.read(y) if isinstance(y, LV) else y
                if isinstance(y0, Struct) and op in "+*":
                    x, y, swap, cls = y0, x, True, y0.cls
                else:
                    return None
            lv = I.newroot("tmp", x, "R:" + cls)
            yv = I.read(y) if isinstance(y, LV) else y
            want = "R:" + yv.cls if isinstance(yv, Struct) else None
            for f in I.prog.fns.values():
                if f["name"] == "operator%s=" % op and f.get("cls", "").split("<")[0] == cls.split("<")[0] and len(f["params"]) == 1:
                    pt = f["params"][0]["t"]
                    if (want is not None) == (pt.startswith("R:")):
                        if f["qn"].startswith((n.get("cls0") or "")):
                            I.invoke(f, [y if isinstance(y, LV) else I.newroot("tmp", y)], lv, None, n.get("l"))
                            return I.read(lv)
        return None

"""Contracts: the C++ standard library entities the code uses, the abstract graph behind the access functions
(CPOs), and the views.  Everything in this file is either an assumed contract of std:: (listed in the evidence
as trusted) or a contract of a /repo function that its own unit proves (see specs/)."""
import re, zlib
import z3
from .engine import *

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


class Graph:
    """abstract adjacency view of a graph object (the contract behind vertices/edges/target_id/...)"""

    def __init__(self, name="g"):
        self.name = name
        self.n = z3.Int(name + ".n")
        self.deg = z3.Function(name + ".deg", I, I)
        self.tgt = z3.Function(name + ".tgt", I, I, I)
        self.wt = z3.Function(name + ".wt", I, I, R)
        self.m = z3.Int(name + ".m")
        self.eu = z3.Function(name + ".eu", I, I)
        self.ei = z3.Function(name + ".ei", I, I)
        self.ek = z3.Function(name + ".ek", I, I, I)
        # incoming side
        self.indeg = z3.Function(name + ".indeg", I, I)
        self.insrc = z3.Function(name + ".insrc", I, I, I)
        self.transpose = None

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Graph) and o.name == self.name

    def V(self, u):
        return z3.And(0 <= u, u < self.n)

    def E(self, u, i):
        return z3.And(0 <= i, i < self.deg(u))

    def VE(self, u, i):
        return z3.And(self.V(u), self.E(u, i))

    def axioms(self, edgelist=False, inedges=False):
        u, i, k, v = z3.Ints("u i k v")
        ax = [self.n >= 0, self.n < (1 << 62),
              FA([u], z3.Implies(self.V(u), z3.And(self.deg(u) >= 0, self.deg(u) < (1 << 62))), [self.deg(u)]),
              FA([u, i], z3.Implies(self.VE(u, i), self.V(self.tgt(u, i))), [self.tgt(u, i)])]
        if edgelist:
            ax += [self.m >= 0, self.m < (1 << 62),
                   FA([k], z3.Implies(z3.And(0 <= k, k < self.m), z3.And(self.VE(self.eu(k), self.ei(k)), self.ek(self.eu(k), self.ei(k)) == k)),
                      [self.eu(k)]),
                   FA([u, i], z3.Implies(self.VE(u, i), z3.And(0 <= self.ek(u, i), self.ek(u, i) < self.m,
                                                              self.eu(self.ek(u, i)) == u, self.ei(self.ek(u, i)) == i)),
                      [self.ek(u, i)]),
                   FA([u, i], z3.Implies(self.VE(u, i), z3.And(0 <= self.ek(u, i), self.ek(u, i) < self.m,
                                                              self.eu(self.ek(u, i)) == u, self.ei(self.ek(u, i)) == i)),
                      [self.tgt(u, i)])]
        if inedges:
            ax += [FA([u], z3.Implies(self.V(u), z3.And(self.indeg(u) >= 0, self.indeg(u) < (1 << 62))), [self.indeg(u)]),
                   FA([u, i], z3.Implies(z3.And(self.V(u), 0 <= i, i < self.indeg(u)), self.V(self.insrc(u, i))), [self.insrc(u, i)])]
        return ax


class Call:
    def __init__(self, ex, fn, e, obj, args):
        self.ex, self.fn, self.e, self.obj, self.args = ex, fn, e, obj, args
        self.name = fn["sq"].split("::")[-1]

    def a(self, i):
        """value of argument i"""
        return self.ex.rv(self.args[i], self.e["args"][i].get("t") if i < len(self.e.get("args", [])) else None)

    @property
    def o(self):
        return self.ex.rv(self.obj)

    @property
    def ret(self):
        return self.e.get("t")


TABLE = []


def contract(rx):
    r = re.compile("^(?:%s)$" % rx)

    def d(f):
        TABLE.append((r, f))
        return f
    return d


CARD = z3.Function("card", z3.ArraySort(I, z3.BoolSort()), I)   # cardinality of a finite set


class Handlers:
    def __init__(self, extra=None, variant=None, unroll=None, passthrough=(), ghosts=None):
        self.extra = extra or []
        self.variant_fn = variant
        self.unroll_fn = unroll
        self.passthrough = [re.compile(p) for p in passthrough]   # /repo functions to expand rather than use a contract for
        self.cache = {}
        self.used = {}

    # ------------------------------------------------------------------ hooks used by the engine
    def unroll(self, ex, node, name):
        return self.unroll_fn(ex, node, name) if self.unroll_fn else 0

    def variant(self, ex, ctx):
        return self.variant_fn(ctx) if self.variant_fn else None

    def havoc_ghost(self, ex, ctx):
        pass

    def havoc_opq(self, ex, v):
        return None

    def range_sorts(self, ex, kind, static):
        return {"vertices": [], "vertexlist": [], "basic_vertexlist": [], "edgelist": [], "basic_edgelist": [], "single": [], "iota": [I, I],
                "fake": []}.get(kind, [I])

    def set_axioms(self, ex, s):
        x = z3.Int("x")
        ex.assume(s.size >= 0)
        ex.assume(s.size < (1 << 62))
        ex.assume(z3.Implies(s.size == 0, FA([x], z3.Not(z3.Select(s.arr, x)), [z3.Select(s.arr, x)])))

    def map_axioms(self, ex, m):
        x = z3.Int("x")
        ex.assume(m.size >= 0)
        ex.assume(m.size < (1 << 62))
        ex.assume(z3.Implies(m.size == 0, FA([x], z3.Not(z3.Select(m.pres, x)), [z3.Select(m.pres, x)])))

    def bag_axioms(self, ex, b):
        ks = b.keys()
        c = b.sel(ks)
        ex.assume(b.size >= 0)
        ex.assume(FA(ks, c >= 0, [c]))
        ex.assume(z3.Implies(b.size == 0, FA(ks, c == 0, [c])))

    def field_types(self, ex, v):
        if isinstance(v, Rec) and v.tid is not None:
            t = ex.prog.types[v.tid]
            if t["name"] in ("std::pair",):
                return {"first": t["args"][0]["t"], "second": t["args"][1]["t"]}
            if t["name"] == "std::tuple":
                return {str(i): a.get("t") for i, a in enumerate(t["args"])}
            d = {f["n"]: f["t"] for f in t["fields"]}
            for b in t.get("bases", []):
                bt = ex.prog.types[b]
                for f in bt.get("fields", []):
                    d.setdefault(f["n"], f["t"])
            return d
        return {}

    def opq_assign(self, ex, lv, cur, b):
        if cur.kind == "out":
            # *out = value : append to the output sequence
            name = "$" + cur.data
            s = ex.st.store[name]
            self.seq_push(ex, LV(name), s, b)
            return True
        return False

    def seq_push(self, ex, lv, s, b):
        ex.oblige(z3.BoolVal(True), "push")
        s2 = ex.seq_set(s, s.hi, b).copy(hi=ex.simp_add(s.hi, 1) if hasattr(ex, "simp_add") else simp(s.hi + 1))
        if s.eshape is None and s.meta.get("etid") is not None:
            ex.shape_hint[s.meta["etid"]] = s2.eshape
        if s.kind == "vector":
            s2.gen = ex.new_gen()
        ex.st.pc.append(s2.hi - s2.lo < (1 << 62))   # std: size() <= max_size(), otherwise length_error/bad_alloc
        ex.store(lv, s2)

    def global_var(self, ex, e):
        m = re.match(r"std::(?:strong|weak|partial)_ordering::(less|equal|equivalent|greater)$", e.get("q", ""))
        if m:
            return Z({"less": -1, "greater": 1}.get(m.group(1), 0))
        return Opq("global:" + e.get("q", ""), e.get("vt"))

    def cast(self, ex, ck, x, e):
        return x

    def missing_member(self, ex, v, e, lv):
        return None

    def member(self, ex, v, e, lv):
        return None

    def base_init(self, ex, this, btid, v):
        cur = ex.load(this, check=False)
        if isinstance(v, Rec):
            d = dict(cur.fields)
            d.update(v.fields)
            ex.store(this, Rec(cur.name, d, cur.tid))

    def ptr_bool(self, ex, x):
        if isinstance(x, Ref):
            return z3.BoolVal(x.lv is not None)
        if isinstance(x, (Opq, FnV)):
            return z3.BoolVal(True)
        raise Unsupported("pointer test of %r" % (x,))

    def bitop(self, ex, op, a, b, tid):
        if z3.is_int_value(simp(a)) and z3.is_int_value(simp(b)):
            x, y = simp(a).as_long(), simp(b).as_long()
            return ex.wrap(Z({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op]), tid)
        if op == ">>" and z3.is_int_value(simp(b)):
            return a / (1 << simp(b).as_long())
        if op == "<<" and z3.is_int_value(simp(b)):
            return ex.wrap(a * (1 << simp(b).as_long()), tid)
        return None

    def tag_ref(self, ex, lv):
        """remember the storage generation of the vector a reference points into"""
        if not any(p[0] == "i" for p in lv.path):
            return lv
        v = ex.st.store.get(lv.obj)
        path = []
        try:
            for p in lv.path:
                if p[0] == "i" and isinstance(v, Seq) and v.kind == "vector" and p[2] is None:
                    path.append(("i", p[1], v.gen))
                else:
                    path.append(p)
                v = ex.step(v, p, False)
        except Unsupported:
            return lv
        return LV(lv.obj, path)

    # ------------------------------------------------------------------ default values by type
    def default_value(self, ex, tid, uninit=False):
        t = ex.prog.types[tid]
        if t["k"] == "ref":
            return None if uninit else ex.temp(self.default_value(ex, t["to"]))
        s = ex.scalar_sort(tid)
        if s is not None:
            if uninit:
                c = ex.fresh("uninit", s)
                ex.note_range(c, tid)
                return c
            return {"Int": Z(0), "Bool": z3.BoolVal(False), "Real": z3.RealVal(0)}[s.name()]
        if t["k"] in ("ptr", "nullptr"):
            return Ref(None)
        if t["k"] == "array":
            el = self.default_value(ex, t["to"], uninit)
            return self.const_seq(ex, "array", el, Z(t["n"]), t["to"])
        if t["k"] == "rec":
            return self.default_rec(ex, tid, t, uninit)
        return None

    def const_seq(self, ex, kind, el, n, etid=None):
        shp, leaves = ex.flatten(el)
        return Seq(kind, shp, Z(0), n, [z3.K(I, l) for l in leaves], ex.new_gen(), {"etid": etid})

    def empty_seq(self, ex, kind, etid):
        shp = ex.shape_hint.get(etid)
        if shp is None and etid is not None:
            s = ex.scalar_sort(etid)
            if s is not None:
                shp = ("s", s)
            else:
                try:
                    v = self.default_value(ex, ex.prog.deref(etid), uninit=True)
                    if v is not None and not self.has_iter(v):
                        shp = ex.flatten(v)[0]
                except Unsupported:
                    shp = None
        arrs = []
        if shp is not None:
            arrs = [z3.Const(ex.fresh_name("e"), z3.ArraySort(I, so)) for so in ex.leaf_sorts(shp)]
        return Seq(kind, shp, Z(0), Z(0), arrs, ex.new_gen(), {"etid": etid})

    def empty_omap(self, ex, t):
        """std::map with structured values: the sequence of its (key, value) pairs; keys ascending"""
        k, v = t["args"][0]["t"], t["args"][1]["t"]
        if t["name"] == "std::map" and ex.scalar_sort(k) is not None:
            for i, p in enumerate(ex.prog.types):
                if p and p.get("name") == "std::pair" and p.get("k") == "rec" and p["args"][0].get("t") == k and p["args"][1].get("t") == v:
                    s = self.empty_seq(ex, "omap", i)
                    if s.eshape is not None and s.eshape[0] == "rec":
                        return s
        return Opq("unknown:" + t["s"])

    def omap_axioms(self, ex, s):
        x, y = z3.Ints("x y")
        k = s.arrs[0]
        ex.assume(FA([x, y], z3.Implies(z3.And(s.lo <= x, x < y, y < s.hi), k[x] < k[y]), [(k[x], k[y])]))

    def omap_method(self, ex, fn, e, obj, v, name, A):
        if name in ("size", "empty", "begin", "cbegin", "end", "cend"):
            return self.seq_method(ex, fn, e, obj, v.copy(kind="vector"), name, A)
        if name in ("find", "contains", "count", "at", "operator[]"):
            k = A(0)
            p = ex.fresh("found")
            x = z3.Int("x")
            key = v.arrs[0]
            ex.assume(z3.And(v.lo <= p, p <= v.hi, z3.Implies(p < v.hi, key[p] == k)))
            ex.assume(FA([x], z3.Implies(z3.And(p == v.hi, v.lo <= x, x < v.hi), key[x] != k), [key[x]]))
            if name == "find":
                return It(self.tag_ref(ex, obj if isinstance(obj, LV) else ex.temp(v)), p, v.gen)
            if name == "contains":
                return p < v.hi
            if name == "count":
                return z3.If(p < v.hi, Z(1), Z(0))
            if not ex.branch(p < v.hi):
                if name == "at":
                    raise Thrown("std::out_of_range")
                raise Unsupported("insertion into a std::map of structures")
            return obj.i(p).f("second")
        return NotImplemented

    def has_iter(self, v):
        if isinstance(v, Opq) and v.kind.startswith("unknown"):
            return True
        if isinstance(v, Rec):
            # (iterators over the edges or vertices of an abstract graph have a form of their own)
            return bool(re.search(r"descriptor_view\b.*::iterator$", v.name)) or any(self.has_iter(x) for x in v.fields.values())
        return isinstance(v, (Ref,)) and v.lv is None

    STDSEQ = {"std::vector": "vector", "std::stack": "stack", "std::queue": "queue", "std::deque": "deque", "std::list": "list",
              "std::forward_list": "flist", "std::span": "span"}

    def default_rec(self, ex, tid, t, uninit):
        n = t["name"]
        if n in self.STDSEQ:
            return self.empty_seq(ex, self.STDSEQ[n], t["args"][0]["t"])
        if n == "std::priority_queue":
            if ex.scalar_sort(t["args"][0]["t"]) is not None:
                return Bag(z3.K(I, Z(0)), Z(0))
            et = t["args"][0]["t"]
            shp = ex.shape_of_type(et)
            if shp is not None and shp[0] == "rec":
                sorts = ex.leaf_sorts(shp)
                if all(x in (I, z3.RealSort(), B) for x in sorts):
                    cnt = Z(0)
                    for so in reversed(sorts):
                        cnt = z3.K(so, cnt)
                    return Bag(cnt, Z(0), None, None, shp, et)
            return self.empty_seq(ex, "pq", et)
        if n in ("std::unordered_set", "std::set"):
            return SetV(z3.K(I, z3.BoolVal(False)), Z(0), n)
        if n in ("std::unordered_map", "std::map"):
            vs = ex.scalar_sort(t["args"][1]["t"])
            if vs is None:
                return self.empty_omap(ex, t)
            return MapV(z3.K(I, z3.BoolVal(False)), z3.K(I, {"Int": Z(0), "Bool": z3.BoolVal(False), "Real": z3.RealVal(0)}[vs.name()]), Z(0), t["args"][1]["t"])
        if n == "std::array":
            el = self.default_value(ex, t["args"][0]["t"], uninit)
            return self.const_seq(ex, "array", el, Z(int(t["args"][1]["v"])), t["args"][0]["t"])
        if n == "std::pair":
            return Rec(n, {"first": self.default_value(ex, t["args"][0]["t"], uninit), "second": self.default_value(ex, t["args"][1]["t"], uninit)}, tid)
        if n == "std::tuple":
            return Rec(n, {str(i): self.default_value(ex, a["t"], uninit) for i, a in enumerate(t["args"])}, tid)
        if n == "std::optional":
            return Rec(n, {"has": z3.BoolVal(False), "val": self.default_value(ex, t["args"][0]["t"], True)}, tid)
        if n == "lambda":
            return Opq("unknown:lambda")
        if n in ("std::reference_wrapper", "std::shared_ptr", "std::unique_ptr"):
            return Ref(None)
        if t.get("std"):
            return Opq("unknown:" + t["s"])
        d = {}
        for b in t.get("bases", []):
            bv = self.default_value(ex, b, uninit)
            if isinstance(bv, Rec):
                d.update(bv.fields)
        for f in t["fields"]:
            d[f["n"]] = self.default_value(ex, f["t"], uninit)
        return Rec(n, d, tid)

    # ------------------------------------------------------------------ construction
    def construct(self, ex, e):
        t = ex.prog.ty(e["t"])
        tid = ex.prog.deref(e["t"])
        fn = ex.prog.fns[e["fn"]]
        h = self.find(ex, fn["sq"])
        args = e["args"]
        if t["k"] != "rec":
            return self.default_value(ex, e["t"])
        if e.get("copy") and len(args) >= 1:
            v = ex.rv(ex.eval(args[0]))
            if t["name"] in ("std::shared_ptr", "std::unique_ptr"):
                return self.std_construct(ex, e, t, tid, t["name"], [ex.eval(args[0])])
            if not (fn.get("body") and not fn.get("defaulted") and not t.get("std") and not h):
                return self.copy_value(ex, v)
        n = t["name"]
        if h:
            return h(ex, Call(ex, fn, e, None, [ex.eval(a) for a in args]))
        if t.get("std"):
            return self.std_construct(ex, e, t, tid, n, [ex.eval(a) for a in args])
        av = [ex.eval(a) for a in args]
        if fn.get("body") is not None or fn.get("inits") is not None:
            self_lv = ex.temp(self.default_rec(ex, tid, t, True), tid, "obj")
            if fn.get("body") is None:
                return ex.load(self_lv)
            ex.inline(fn, self_lv, av, e, ctor=True)
            return ex.load(self_lv, check=False)
        if not args:
            return self.default_rec(ex, tid, t, not e.get("zero"))
        raise Unsupported("constructor %s at %s" % (fn["q"], e.get("l")))

    def copy_value(self, ex, v):
        if isinstance(v, Seq):
            return v.copy(gen=ex.new_gen())
        return v

    def std_construct(self, ex, e, t, tid, n, args):
        vals = lambda i: ex.rv(args[i], e["args"][i].get("t"))
        if n in ("std::stack", "std::queue", "std::deque", "std::list", "std::forward_list") and not args:
            return self.default_rec(ex, tid, t, False)
        if n in ("std::stack", "std::queue"):
            real = [ex.rv(a) for a, x in zip(args, e["args"]) if not self.is_alloc(ex, x)]
            if not real:
                return self.default_rec(ex, tid, t, False)
            if len(real) == 1 and isinstance(real[0], Seq) and real[0].eshape is not None:
                return real[0].copy(kind=self.STDSEQ[n], gen=ex.new_gen())
            if len(real) == 1 and isinstance(real[0], Seq) and z3.is_int_value(simp(real[0].len)) and simp(real[0].len).as_long() == 0:
                return self.default_rec(ex, tid, t, False)
        if n == "std::vector" or n in ("std::deque", "std::list", "std::forward_list"):
            et = t["args"][0]["t"]
            real = [a for a, x in zip(args, e["args"]) if not self.is_alloc(ex, x)]
            if not real:
                return self.empty_seq(ex, self.STDSEQ[n], et)
            a0 = ex.rv(real[0], e["args"][0].get("t"))
            if z3.is_expr(a0) and z3.is_int(a0):
                el = ex.rv(real[1]) if len(real) > 1 else self.value_init(ex, et)
                ex.st.pc.append(a0 < (1 << 62))
                return self.const_seq(ex, self.STDSEQ[n], self.conv(ex, el, et), a0, et)
            if isinstance(a0, Seq) and a0.kind == "initlist":
                return a0.copy(kind=self.STDSEQ[n], gen=ex.new_gen())
            if isinstance(a0, It) and len(real) >= 2:
                return self.range_copy(ex, a0, ex.rv(real[1]), self.STDSEQ[n], et)
            if isinstance(a0, Seq):
                return a0.copy(gen=ex.new_gen())
        if n == "std::priority_queue":
            b = self.default_rec(ex, tid, t, False)
            cmp = None
            for a in args:
                v = ex.rv(a)
                if isinstance(v, (Clo, Opq)):
                    cmp = v
            if isinstance(b, Bag):
                b.cmp = cmp
            else:
                b.meta["cmp"] = cmp
            return b
        if n in ("std::unordered_set", "std::set", "std::unordered_map", "std::map"):
            return self.default_rec(ex, tid, t, False)
        if n in ("std::pair", "std::tuple"):
            d = self.default_rec(ex, tid, t, True)
            keys = list(d.fields)
            ft = self.field_types(ex, d)
            if len(args) == len(keys):
                f = {}
                for k, a in zip(keys, args):
                    f[k] = self.bind_field(ex, ft.get(k), a)
                return Rec(n, f, tid)
            if not args:
                return self.default_rec(ex, tid, t, False)
            if len(args) == 1:
                v = ex.rv(args[0])
                if isinstance(v, Rec):
                    return Rec(n, {k: self.bind_field(ex, ft.get(k), x) for k, x in zip(keys, v.fields.values())}, tid)
        if n in ("std::shared_ptr", "std::unique_ptr"):
            v = ex.rv(args[0]) if args else Ref(None)
            if isinstance(v, Ref):
                if e.get("copy") == "move" and isinstance(args[0], LV) and args[0].obj in ex.st.store:
                    ex.store(args[0], Ref(None))
                return v
            if isinstance(v, Opq) and "nullptr" in v.kind:
                return Ref(None)
        if n == "std::optional":
            if not args:
                return self.default_rec(ex, tid, t, False)
            v = vals(0)
            if isinstance(v, Opq) and ("nullopt" in v.kind):
                return self.default_rec(ex, tid, t, False)
            if isinstance(v, Rec) and v.name == "std::optional":
                return v
            return Rec(n, {"has": z3.BoolVal(True), "val": v}, tid)
        if n in ("std::less", "std::plus", "std::greater", "std::identity", "std::allocator", "std::equal_to", "std::hash"):
            return Opq(n)
        if n == "std::uniform_int_distribution" and len(args) == 2:
            a, b = vals(0), vals(1)
            ex.oblige(a <= b, "uniform_int_distribution: lower bound not above upper bound", "pre")
            return Rec(n, {"a": a, "b": b}, tid)
        if n == "std::ranges::subrange":
            a, b = ex.rv(args[0]), ex.rv(args[1])
            return Rec("subrange", {"b": self.as_it(ex, a), "e": self.as_it(ex, b)}, tid)
        if n in ("std::ranges::reverse_view",):
            v = args[0] if isinstance(args[0], LV) else ex.temp(args[0])
            w = ex.rv(v)
            if isinstance(w, Ref):
                v = w.lv
            return RangeVal("reverse", [], static=HLV(v), tid=tid)
        if n in ("std::ranges::ref_view", "std::ranges::owning_view"):
            return Ref(args[0]) if isinstance(args[0], LV) else Ref(ex.temp(args[0]))
        if n.endswith("_iterator") or n == "__gnu_cxx::__normal_iterator" or "iterator" in n:
            if len(args) == 1:
                return ex.rv(args[0])
        return Opq("std:" + n, tuple(args))

    def as_it(self, ex, v):
        if isinstance(v, Ref):
            return It(RangeVal("single", [], static=HLV(v.lv)), Z(0))
        return v

    def bind_field(self, ex, ftid, a):
        if ftid is not None and ex.prog.types[ftid]["k"] == "ref":
            return Ref(a if isinstance(a, LV) else ex.temp(a))
        v = ex.rv(a)
        if ftid is not None:
            v = self.conv(ex, v, ftid)
        return v

    def conv(self, ex, v, tid):
        """implicit numeric conversion performed inside std:: code"""
        t = ex.prog.ty(tid)
        if z3.is_expr(v):
            if t["k"] == "float" and z3.is_int(v):
                return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
            if t["k"] in ("int",) and z3.is_int(v):
                return ex.wrap(v, tid)
            if t["k"] in ("int",) and z3.is_bool(v):
                return z3.If(v, Z(1), Z(0))
            if t["k"] == "bool" and z3.is_int(v):
                return v != 0
        return v

    def is_alloc(self, ex, x):
        t = ex.prog.ty(x["t"]) if "t" in x else {}
        return t.get("name") in ("std::allocator",)

    def value_init(self, ex, tid):
        return self.default_value(ex, tid)

    def range_copy(self, ex, b, e, kind, et):
        if isinstance(b.rng, LV):
            s = ex.load(b.rng)
            x = z3.Int("x")
            r = self.empty_seq(ex, kind, et)
            n = simp(e.pos - b.pos)
            if isinstance(s, Seq):
                arrs = []
                for a in s.arrs:
                    c = z3.Const(ex.fresh_name("cp"), a.sort())
                    ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < n), c[x] == a[x + b.pos]), [c[x]]))
                    arrs.append(c)
                return Seq(kind, s.eshape, Z(0), n, arrs, ex.new_gen(), {"etid": et})
        if isinstance(b.rng, RangeVal) and b.rng.kind == "setit":
            # copy of a set's elements: every element is in the set, pairwise distinct, and all of the set appears
            s = ex.load(b.rng.static.lv)
            x, y = z3.Ints("x y")
            c = z3.Const(ex.fresh_name("setels"), z3.ArraySort(I, I))
            ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < s.size), z3.Select(s.arr, c[x])), [c[x]]))
            ex.assume(FA([y], z3.Implies(z3.Select(s.arr, y), EX([x], z3.And(0 <= x, x < s.size, c[x] == y))), [z3.Select(s.arr, y)]))
            return Seq(kind, ("s", I), Z(0), s.size, [c], ex.new_gen(), {"etid": et})
        raise Unsupported("copy of range %r" % (b,))

    def initlist(self, ex, e):
        t = ex.prog.ty(e["t"])
        tid = ex.prog.deref(e["t"])
        if t["k"] == "array" or (t["k"] == "rec" and t["name"] == "std::initializer_list"):
            els = [ex.rv(ex.eval(x), x.get("t")) for x in e["els"]]
            et = t["to"] if t["k"] == "array" else t["args"][0]["t"]
            if not els:
                return self.empty_seq(ex, "initlist", et)
            s = self.const_seq(ex, "initlist", els[0], Z(len(els)), et)
            for i, x in enumerate(els[1:], 1):
                s = ex.seq_set(s, Z(i), x)
            return s
        if t["k"] == "rec" and t["name"] == "std::array":
            inner = ex.rv(ex.eval(e["els"][0])) if e["els"] else self.default_value(ex, tid)
            return inner.copy(kind="array") if isinstance(inner, Seq) else inner
        if t["k"] == "rec":
            v = self.default_rec(ex, tid, t, True)
            if isinstance(v, Rec):
                f = dict(v.fields)
                ft = self.field_types(ex, v)
                names = [x["n"] for x in t["fields"]] or list(f)
                els = e["els"]
                nb = len(t.get("bases", []))
                if nb and len(els) >= nb:
                    for x in els[:nb]:
                        bv = ex.rv(ex.eval(x))
                        if isinstance(bv, Rec):
                            f.update(bv.fields)
                    els = els[nb:]
                for n, x in zip(names, els):
                    f[n] = self.bind_field(ex, ft.get(n), ex.eval(x))
                return Rec(v.name, f, tid)
            if not e["els"]:
                return v
        if len(e["els"]) == 1:
            return ex.eval(e["els"][0])
        if not e["els"]:
            return self.default_value(ex, tid)
        raise Unsupported("initializer list for %s" % t.get("s"))

    def new(self, ex, e):
        raise Unsupported("new at %s" % e.get("l"))

    def delete(self, ex, e):
        raise Unsupported("delete at %s" % e.get("l"))

    # ------------------------------------------------------------------ iterators & ranges
    def rng_len(self, ex, r):
        lo, hi = self.rng_bounds(ex, r)
        return simp(hi - lo)

    def rng_bounds(self, ex, r):
        if isinstance(r, LV):
            s = ex.load(r, check=False)
            if isinstance(s, Seq):
                return s.lo, s.hi
            raise Unsupported("iteration over %r" % (s,))
        if isinstance(r, RangeVal):
            k = r.kind
            g = r.static[0] if isinstance(r.static, tuple) else r.static
            if k in ("vertices", "vertexlist", "basic_vertexlist"):
                return Z(0), g.n
            if k in ("edges", "incidence", "basic_incidence", "neighbors", "basic_neighbors"):
                return Z(0), g.deg(r.params[0])
            if k in ("in_edges",):
                return Z(0), g.indeg(r.params[0])
            if k in ("edgelist", "basic_edgelist"):
                return Z(0), g.m
            if k == "single":
                return Z(0), Z(1)
            if k == "iota":
                return r.params[0], r.params[1]
            if k == "reverse":
                s = ex.load(r.static.lv, check=False)
                return s.lo, s.hi
            if k == "setit":
                return Z(0), ex.load(r.static.lv, check=False).size
            if k == "mapit":
                return Z(0), ex.load(r.static.lv, check=False).size
        raise Unsupported("length of range %r" % (r,))

    def it_bounds(self, ex, it):
        return self.rng_bounds(ex, it.rng)

    def begin(self, ex, x, e=None):
        return self._be(ex, x, 0)

    def end(self, ex, x, e=None):
        return self._be(ex, x, 1)

    def _be(self, ex, x, which):
        v = ex.rv(x)
        if isinstance(v, Ref) and v.lv is not None:
            x = v.lv
            v = ex.rv(x)
        if isinstance(v, RangeVal):
            return It(v, self.rng_bounds(ex, v)[which])
        if isinstance(v, Seq):
            if not isinstance(x, LV):
                x = ex.temp(v)
            x = self.tag_ref(ex, x)
            return It(x, (v.lo, v.hi)[which], v.gen)
        if isinstance(v, SetV):
            lv = x if isinstance(x, LV) else ex.temp(v)
            return It(self.set_enum(ex, lv, v), (Z(0), v.size)[which])
        if isinstance(v, MapV):
            lv = x if isinstance(x, LV) else ex.temp(v)
            return It(self.set_enum(ex, lv, v), (Z(0), v.size)[which])
        if isinstance(v, Rec) and v.name == "subrange":
            return v.fields["b" if which == 0 else "e"]
        if isinstance(v, Rec) and v.tid is not None:
            return self.member_call(ex, x, ("begin", "end")[which], [])
        raise Unsupported("begin/end of %r" % (v,))

    def member_call(self, ex, x, name, args):
        """call of a member function of a /repo class from std:: code"""
        v = ex.rv(x)
        f = self.find_method(ex, v, name, len(args))
        return ex.inline(f, x if isinstance(x, LV) else ex.temp(v, v.tid), args)

    def rec_advance(self, ex, x, n):
        """n times ++ on an iterator class of /repo: when ++ adds a constant to each component of an arbitrary iterator,
        n steps add n times that constant (induction on n)"""
        step = self.rec_step(ex, x)
        n = simp(n)
        ex.oblige(n >= 0, "forward iterator advanced forwards", "bounds")
        return self.add_steps(ex, x, (), step, n)

    def rec_distance(self, ex, a, b):
        """number of times ++ leads from a to b (by the constant step of the iterator class)"""
        step = self.rec_step(ex, a)
        comp = [(p, d) for p, d in step.items() if not simp(d).eq(Z(0))]
        if not comp:
            raise Unsupported("distance between iterators that do not move")
        p, d = comp[0]

        def get(v):
            for k in p:
                v = v.fields[k]
            return v.pos if isinstance(v, It) else v
        if simp(d).as_long() not in (1, -1):
            raise Unsupported("distance between iterators with steps other than one")
        n = simp((get(b) - get(a)) * d)
        ex.oblige(z3.And(n >= 0, self.val_eq(ex, self.add_steps(ex, a, (), step, n), b)), "the end of the range is reached", "bounds")
        return n

    def search(self, ex, key, args):
        """std::find_if / any_of / all_of / none_of: the first position whose element satisfies a pure predicate"""
        a = ex.rv(args[0])
        if isinstance(a, It) or (isinstance(a, Rec) and a.tid is not None and self.has_method(ex, a, "operator*", 0) and len(args) > 2):
            b, e, pred, rest = a, ex.rv(args[1]), args[2], args[3:]
        else:
            r = args[0] if isinstance(args[0], LV) else ex.temp(a, getattr(a, "tid", None))
            b, e, pred, rest = ex.rv(self.begin(ex, r)), ex.rv(self.end(ex, r)), args[1], args[2:]
        if any(not (isinstance(ex.rv(x), Opq) and "identity" in str(ex.rv(x).kind)) for x in rest):
            return None
        if isinstance(b, Rec) and isinstance(e, Rec):
            n = self.rec_distance(ex, b, e)
            step = self.rec_step(ex, b)
            at = lambda k: self.add_steps(ex, b, (), step, k)
            elem = lambda k: self.member_call(ex, ex.temp(at(k), b.tid), "operator*", [])
        elif isinstance(b, It) and isinstance(e, It) and not b.rev:
            n = simp(e.pos - b.pos)
            at = lambda k: b.at(simp(b.pos + k))
            elem = lambda k: self.deref(ex, at(k))
        else:
            return None

        def holds(k):
            st = ex.st
            ex.st = st.clone()
            ex.assume(z3.And(0 <= k, k < n))
            try:
                return self.pure(ex, lambda: ex.apply_value(pred, [elem(k)]))
            finally:
                ex.st = st
        p, x = ex.fresh("found"), ex.fresh("q")
        want = key != "all_of"
        h = holds(x)
        h = h if want else z3.Not(h)
        ex.assume(z3.And(0 <= p, p <= n, z3.Implies(p < n, z3.substitute(h, (x, p)))))
        ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < p), z3.Not(h))))
        if key == "find_if":
            return at(p)
        return p < n if key == "any_of" else p == n

    def rec_step(self, ex, x):
        f = self.find_method(ex, x, "operator++", 0)
        probe, comps = self.probe_rec(ex, x)
        obls, pend = len(ex.obls), list(ex.pending)
        st, n0 = ex.st, len(ex.trace)
        ex.st = st.clone()
        ex.discover += 1
        try:
            lv = ex.temp(probe, x.tid)
            ex.inline(f, lv, [])
            y = ex.rv(lv)
            if len(ex.trace) != n0:
                raise Unsupported("branching operator++ under std::next")
            step = {}
            self.steps(ex, probe, y, (), step)
        finally:
            ex.discover -= 1
            ex.st = st
        return step

    def probe_rec(self, ex, x):
        c = []

        def go(v):
            if z3.is_expr(v):
                k = z3.Const(ex.fresh_name("probe"), v.sort())
                c.append(k)
                return k
            if isinstance(v, It):
                k = ex.fresh("probe")
                c.append(k)
                return v.at(k)
            if isinstance(v, Rec):
                return Rec(v.name, {k: go(w) for k, w in v.fields.items()}, v.tid)
            return v
        return go(x), c

    def steps(self, ex, a, b, path, out, tid=None):
        if isinstance(a, Rec) and isinstance(b, Rec):
            ft = self.field_types(ex, a)
            for k in a.fields:
                self.steps(ex, a.fields[k], b.fields[k], path + (k,), out, ft.get(k))
            return
        if isinstance(a, It) and isinstance(b, It):
            if a.rng is not b.rng and a.rng != b.rng:
                raise Unsupported("operator++ changes the range")
            a, b = a.pos, b.pos
        if z3.is_expr(a) and z3.is_int(a):
            d = z3.simplify(b - a)
            if not z3.is_int_value(d):
                # (machine wrap-around excluded by the obligation on the final value)
                d = self.const_step(ex, a, b, tid)
            out[path] = d
        elif z3.is_expr(a):
            if not z3.simplify(a == b).eq(z3.BoolVal(True)):
                raise Unsupported("operator++ changes %s" % (path,))
        elif a is not b and not (isinstance(a, Ref) and isinstance(b, Ref) and a.lv is b.lv):
            raise Unsupported("operator++ changes %s" % (path,))

    def const_step(self, ex, a, b, tid):
        if tid is None:
            raise Unsupported("operator++ is not a constant step")
        for d in (1, -1):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(ex.in_range(a, tid), ex.in_range(a + d, tid), b != a + d)
            if s.check() == z3.unsat:
                return Z(d)
        raise Unsupported("operator++ is not a constant step")

    def add_steps(self, ex, x, path, step, n, tid=None):
        if isinstance(x, Rec):
            ft = self.field_types(ex, x)
            return Rec(x.name, {k: self.add_steps(ex, w, path + (k,), step, n, ft.get(k)) for k, w in x.fields.items()}, x.tid)
        d = step.get(path)
        if d is None or simp(d).eq(Z(0)):
            return x
        if isinstance(x, It):
            lo, hi = self.it_bounds(ex, x)
            r = x.at(simp(x.pos + d * n))
            ex.oblige(z3.And(lo <= r.pos, r.pos <= hi), "iterator advanced within its range", "bounds")
            return r
        r = simp(x + d * n)
        if tid is not None:
            ex.oblige(ex.in_range(r, tid), "the advanced position is representable", "overflow")
        return r

    def set_enum(self, ex, lv, v):
        """enumeration of a set / map: an injective listing of its elements, the same one until it is modified"""
        key = "$enum:%s:%s" % (lv.obj, v.arr.get_id() if isinstance(v, SetV) else v.pres.get_id())
        if key not in ex.st.ghost:
            c = z3.Const(ex.fresh_name("enum"), z3.ArraySort(I, I))
            pos = z3.Const(ex.fresh_name("enumpos"), z3.ArraySort(I, I))
            p = v.arr if isinstance(v, SetV) else v.pres
            x, y = z3.Ints("x y")
            ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < v.size), z3.And(z3.Select(p, c[x]), pos[c[x]] == x)), [c[x]]))
            ex.assume(FA([y], z3.Implies(z3.Select(p, y), z3.And(0 <= pos[y], pos[y] < v.size, c[pos[y]] == y)), [z3.Select(p, y)]))
            ex.st.ghost[key] = (c, pos)
        c, pos = ex.st.ghost[key]
        return RangeVal("setit" if isinstance(v, SetV) else "mapit", [], static=HLV(lv, (c, pos)))

    def at(self, ex, it, tid=None):
        """element an iterator points at"""
        r = it.rng
        if isinstance(r, LV):
            return r.i(it.pos, it.gen)
        k = r.kind
        lo, hi = self.rng_bounds(ex, r)
        ex.oblige(z3.And(lo <= it.pos, it.pos < hi), "iterator dereferenced within its range", "bounds")
        g = r.static[0] if isinstance(r.static, tuple) else r.static
        if k == "vertices":
            return self.vdesc(ex, it.pos)
        if k in ("edges", "in_edges"):
            return self.edesc(ex, g, r.params[0], it.pos, k == "in_edges")
        if k == "single":
            return r.static.lv
        if k == "iota":
            return it.pos
        if k == "reverse":
            s = ex.load(r.static.lv)
            return r.static.lv.i(simp(s.lo + s.hi - 1 - it.pos))
        if k == "setit":
            return z3.Select(r.static.data[0], it.pos)
        if k == "mapit":
            key = z3.Select(r.static.data[0], it.pos)
            return Rec("mapelem", {"first": key, "second": Ref(r.static.lv.i(key))})
        if k in ("incidence", "basic_incidence", "neighbors", "basic_neighbors", "vertexlist", "basic_vertexlist", "edgelist", "basic_edgelist"):
            return self.info(ex, r, it.pos, tid)
        raise Unsupported("element of %r" % (r,))

    def vdesc(self, ex, id):
        return Rec("vdesc", {"storage_": id})

    def edesc(self, ex, g, u, i, inedge=False):
        return Rec("iedesc" if inedge else "edesc", {"edge_storage_": i, "source_": self.vdesc(ex, u)})

    def info(self, ex, r, pos, tid):
        g, fv = r.static if isinstance(r.static, tuple) else (r.static, None)
        k = r.kind
        f = {}
        names = None
        if tid is not None:
            t = ex.prog.ty(tid)
            if t["k"] == "rec":
                names = [x["n"] for x in t["fields"]]
        if "vertexlist" in k:
            d = {"id": pos, "vertex": self.vdesc(ex, pos)}
            arg = d["vertex"]
        else:
            if "edgelist" in k:
                u, i = g.eu(pos), g.ei(pos)
                ex.assume(z3.And(g.VE(u, i), g.ek(u, i) == pos))
            else:
                u, i = r.params[0], pos
                ex.assume(g.V(g.tgt(u, i)))
            ed = self.edesc(ex, g, u, i)
            d = {"source_id": u, "target_id": g.tgt(u, i), "edge": ed, "id": g.tgt(u, i), "vertex": self.vdesc(ex, g.tgt(u, i))}
            arg = self.vdesc(ex, g.tgt(u, i)) if "neighbors" in k else ed
        if names is None:
            raise Unsupported("element type of %s unknown" % k)
        for n in names:
            if n == "value":
                f[n] = ex.rv(ex.apply_value(fv, [ex.temp(Opq("graph", g)), ex.temp(arg)]))
            elif n in d:
                f[n] = d[n]
            else:
                raise Unsupported("view element field %s" % n)
        return Rec(ex.prog.ty(tid)["name"], f, ex.prog.deref(tid))

    def deref(self, ex, v):
        if isinstance(v, It):
            return self.at(ex, v)
        if isinstance(v, Opq) and v.kind == "out":
            return v
        return None

    def ptr_add(self, ex, v, n):
        if isinstance(v, It):
            return v.at(simp(v.pos + n))
        if isinstance(v, Ref) and v.lv is not None:
            if v.lv.path and v.lv.path[-1][0] == "i":
                last = v.lv.path[-1]
                return Ref(LV(v.lv.obj, v.lv.path[:-1] + (("i", simp(last[1] + n), last[2]),)))
            return It(RangeVal("single", [], static=HLV(v.lv)), n)
        raise Unsupported("pointer arithmetic on %r" % (v,))

    def index(self, ex, a, b):
        v = ex.rv(a)
        if isinstance(v, Seq) and isinstance(a, LV):
            return a.i(simp(v.lo + b))
        if isinstance(v, It):
            return self.at(ex, v.at(simp(v.pos + b)))
        if isinstance(v, Ref):
            return ex.deref_ptr(self.ptr_add(ex, v, b))
        raise Unsupported("subscript of %r" % (v,))

    def it_eq(self, ex, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a.lv is None or b.lv is None:
                    return z3.BoolVal((a.lv is None) == (b.lv is None))
                if a.lv.obj != b.lv.obj or len(a.lv.path) != len(b.lv.path):
                    return z3.BoolVal(False)
                c = []
                for p, q in zip(a.lv.path, b.lv.path):
                    if p[0] != q[0]:
                        return z3.BoolVal(False)
                    if p[0] == "f":
                        if p[1] != q[1]:
                            return z3.BoolVal(False)
                    else:
                        c.append(p[1] == q[1])
                return conj(*c)
            a, b = self.as_it(ex, a), self.as_it(ex, b)
        if isinstance(a, It) and isinstance(b, It):
            c = [a.pos == b.pos]
            ra, rb = a.rng, b.rng
            if isinstance(ra, RangeVal) and isinstance(rb, RangeVal) and len(ra.params) == len(rb.params):
                if ra.kind != rb.kind:
                    raise Unsupported("comparison of iterators of different ranges")
                c += [x == y for x, y in zip(ra.params, rb.params)]
            elif isinstance(ra, LV) and isinstance(rb, LV):
                if ra.obj != rb.obj:
                    return z3.BoolVal(False)
                for p, q in zip(ra.path, rb.path):
                    if p[0] == "i":
                        c.append(p[1] == q[1])
            return conj(*c)
        raise Unsupported("iterator comparison %r %r" % (a, b))

    def val_eq(self, ex, a, b):
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        if isinstance(a, Rec) and isinstance(b, Rec):
            return conj(*[self.val_eq(ex, x, b.fields[k]) for k, x in a.fields.items()])
        if isinstance(a, (It, Ref)) and isinstance(b, (It, Ref)):
            return self.it_eq(ex, a, b)
        if isinstance(a, Opq) and isinstance(b, Opq) and a is b:
            return z3.BoolVal(True)
        raise Unsupported("== on %r, %r" % (a, b))

    def binop(self, ex, op, a, b, e):
        if op in ("==", "!="):
            c = self.val_eq(ex, a, b)
            return c if op == "==" else z3.Not(c)
        if isinstance(a, It) and isinstance(b, It):
            if op == "-":
                return a.pos - b.pos
            if op in ("<", ">", "<=", ">="):
                return {"<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
        if isinstance(a, (It, Ref)) and z3.is_expr(b) and op in ("+", "-"):
            return self.ptr_add(ex, a, b if op == "+" else -b)
        if isinstance(b, (It, Ref)) and z3.is_expr(a) and op == "+":
            return self.ptr_add(ex, b, a)
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def tuple_get(self, ex, base, i, b=None):
        v = ex.load(base)
        if isinstance(v, Rec):
            k = list(v.fields)[i]
            x = v.fields[k]
            if isinstance(x, Ref) and not (b and ex.prog.types[b["t"]]["k"] == "ptr"):
                return x.lv
            return base.f(k)
        raise Unsupported("get<%d> of %r" % (i, v))

    # ------------------------------------------------------------------ calls
    def find(self, ex, sq):
        if sq in self.cache:
            return self.cache[sq]
        h = None
        if not any(p.match(sq) for p in self.passthrough):
            for r, f in self.extra + TABLE:
                if r.match(sq):
                    h = f
                    break
        self.cache[sq] = h
        return h

    def call(self, ex, fn, e):
        sq = fn["sq"]
        h = self.find(ex, sq)
        obj = None
        if e.get("m"):
            # evaluate the object (CPO objects and other stateless globals evaluate to opaque values)
            obj = ex.eval(e["obj"])
            if e.get("arrow"):
                p = ex.rv(obj)
                obj = ex.deref_ptr(p) if isinstance(p, Ref) else self.deref(ex, p)
        if h:
            self.used[sq] = self.used.get(sq, 0) + 1
            return h(ex, Call(ex, fn, e, obj, [ex.eval(a) for a in e["args"]]))
        name = sq.split("::")[-1]
        if obj is not None:
            v = ex.rv(obj) if isinstance(obj, LV) and obj.obj in ex.st.store else obj
            r = self.method(ex, fn, e, obj, v, name)
            if r is not NotImplemented:
                return r
        if fn.get("body") and not self.is_std(fn):
            return ex.inline(fn, obj, [ex.eval(a) for a in e["args"]], e)
        args = [ex.eval(a) for a in e["args"]]
        r = self.free(ex, fn, e, sq, name, args, obj)
        if r is NotImplemented:
            raise Unsupported("call of %s at %s" % (fn["q"][:160], e.get("l")))
        return r

    def is_std(self, fn):
        return fn["q"].startswith("std::") or fn["q"].startswith("__gnu")

    def method(self, ex, fn, e, obj, v, name):
        A = lambda i: ex.rv(ex.eval(e["args"][i]), e["args"][i].get("t"))
        if isinstance(v, Clo):
            if name == "operator()":
                return ex.apply_value(obj, [ex.eval(a) for a in e["args"]], e)
            return NotImplemented
        if fn["sq"].startswith("std::_Bit_reference::"):
            if name == "operator=":
                x = A(0)
                ex.store(obj, x if z3.is_bool(x) else x != 0)
                return obj
            if name in ("operator bool",):
                return v
            if name == "flip":
                ex.store(obj, z3.Not(v))
                return UNIT
        if fn["sq"].startswith("std::ranges::view_interface::") and isinstance(v, Rec) and v.tid is not None and not e["args"]:
            if name in ("empty", "operator bool"):
                try:
                    r = ex.rv(self.member_call(ex, obj, "size", [])) == 0
                except Unsupported:
                    a, b = [ex.rv(self.member_call(ex, obj, k, [])) for k in ("begin", "end")]
                    r = ex.rv(self.member_call(ex, ex.temp(a, a.tid) if isinstance(a, Rec) else a, "operator==", [b]))
                return r if name == "empty" else z3.Not(r)
            if name in ("front",):
                a = ex.rv(self.member_call(ex, obj, "begin", []))
                return self.member_call(ex, ex.temp(a, a.tid), "operator*", [])
        if isinstance(v, Ref) and re.match(r"std::(__)?(shared|unique)_ptr(_access)?::", fn["sq"]):
            if name in ("operator->", "get"):
                return v
            if name == "operator*":
                return ex.deref_ptr(v)
            if name in ("operator bool",):
                return z3.BoolVal(v.lv is not None)
            if name == "operator=":
                x = ex.eval(e["args"][0])
                w = ex.rv(x)
                w = w if isinstance(w, Ref) else Ref(None)
                if isinstance(x, LV) and x.obj in ex.st.store and x is not obj and ex.prog.types[fn["params"][0]["t"]].get("rv"):
                    ex.store(x, Ref(None))
                ex.store(obj, w)
                return obj
            if name == "reset" and not e["args"]:
                ex.store(obj, Ref(None))
                return UNIT
            if name == "swap":
                y = ex.eval(e["args"][0])
                w = ex.rv(y)
                ex.store(obj, w)
                ex.store(y, v)
                return UNIT
        if fn["sq"].startswith("std::reference_wrapper::") and (name == "get" or name.startswith("operator ")):
            # (a member holding one evaluates to what it refers to)
            return v.lv if isinstance(v, Ref) and v.lv is not None else obj
        if isinstance(v, It):
            return self.it_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, RangeVal):
            if name in ("begin", "cbegin"):
                return self.begin(ex, v)
            if name in ("end", "cend"):
                return self.end(ex, v)
            if name == "size":
                return self.rng_len(ex, v)
            if name == "empty":
                return self.rng_len(ex, v) == 0
            if name == "operator[]":
                i = A(0)
                lo, hi = self.rng_bounds(ex, v)
                return self.at(ex, It(v, simp(lo + i)), e.get("t"))
            return NotImplemented
        if isinstance(v, Seq) and v.kind == "omap":
            return self.omap_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, Seq):
            return self.seq_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, SetV):
            return self.set_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, MapV):
            return self.map_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, Bag):
            return self.bag_method(ex, fn, e, obj, v, name, A)
        if isinstance(v, Rec) and v.name == "subrange":
            if name == "begin":
                return v.fields["b"]
            if name == "end":
                return v.fields["e"]
            if name == "size":
                return simp(v.fields["e"].pos - v.fields["b"].pos)
            if name == "empty":
                return v.fields["e"].pos == v.fields["b"].pos
        if isinstance(v, Rec) and v.name == "std::uniform_int_distribution" and name == "operator()":
            r = ex.fresh("drawn")
            ex.assume(z3.And(v.fields["a"] <= r, r <= v.fields["b"]))
            return r
        if isinstance(v, Rec) and v.name == "std::optional":
            if name in ("has_value", "operator bool"):
                return v.fields["has"]
            if name in ("value",):
                if not ex.branch(v.fields["has"]):
                    raise Thrown("std::bad_optional_access")
                return obj.f("val") if isinstance(obj, LV) else v.fields["val"]
            if name in ("operator*",):
                ex.oblige(v.fields["has"], "optional holds a value", "bounds")
                return obj.f("val") if isinstance(obj, LV) else v.fields["val"]
            if name == "operator=":
                x = A(0)
                if isinstance(x, Rec) and x.name == "std::optional":
                    ex.store(obj, x)
                else:
                    ex.store(obj, Rec("std::optional", {"has": z3.BoolVal(True), "val": x}, v.tid))
                return obj
            if name == "reset":
                ex.store(obj.f("has"), z3.BoolVal(False))
                return UNIT
        if isinstance(v, Rec) and name == "operator=" and (self.is_std(fn) or fn.get("defaulted") or not fn.get("body")):
            x = A(0)
            if isinstance(x, Rec):
                ft = self.field_types(ex, v)
                nf = {}
                for (k, _), y in zip(v.fields.items(), x.fields.values()):
                    nf[k] = self.conv(ex, y, ft[k]) if ft.get(k) is not None and z3.is_expr(y) else y
                ex.store(obj, Rec(v.name, nf, v.tid))
                return obj
        if isinstance(v, Rec) and name in ("operator==", "operator!=") and fn.get("defaulted"):
            c = self.val_eq(ex, v, A(0))
            return c if name == "operator==" else z3.Not(c)
        if isinstance(v, Opq) and (v.kind.startswith("unknown") or "iterator" in v.kind) and name == "operator=" and isinstance(obj, LV):
            ex.store(obj, A(0))
            return obj
        if isinstance(v, Opq):
            if v.kind == "out":
                if name in ("operator*", "operator++"):
                    return obj
                if name == "operator=":
                    x = A(0)
                    self.opq_assign(ex, obj, v, x)
                    return obj
            if name == "operator()":
                args = [ex.eval(a) for a in e["args"]]
                r = self.apply(ex, v, args, e)
                if r is not None:
                    return r
        return NotImplemented

    def it_method(self, ex, fn, e, obj, v, name, A):
        if name in ("operator*", "operator->"):
            r = self.at(ex, v, fn["ret"] if name == "operator*" else None)
            if name == "operator->":
                return Ref(r if isinstance(r, LV) else ex.temp(r))
            return r
        if name in ("operator++", "operator--"):
            nv = v.at(simp(v.pos + (1 if name == "operator++" else -1)))
            if name == "operator++":
                lo, hi = self.it_bounds(ex, v)
                ex.oblige(v.pos < hi, "iterator incremented before the end", "bounds")
            else:
                lo, hi = self.it_bounds(ex, v)
                ex.oblige(v.pos > lo, "iterator decremented after the begin", "bounds")
            ex.store(obj, nv)
            return v if e["args"] else obj
        if name in ("operator==", "operator!="):
            c = self.it_eq(ex, v, A(0))
            return c if name == "operator==" else z3.Not(c)
        if name in ("operator+", "operator-"):
            x = A(0)
            if isinstance(x, It):
                return v.pos - x.pos
            return v.at(simp(v.pos + x if name == "operator+" else v.pos - x))
        if name in ("operator+=", "operator-="):
            x = A(0)
            ex.store(obj, v.at(simp(v.pos + x if name == "operator+=" else v.pos - x)))
            return obj
        if name in ("operator<", "operator>", "operator<=", "operator>="):
            return self.binop(ex, name[8:], v, A(0), e)
        if name == "operator[]":
            return self.at(ex, v.at(simp(v.pos + A(0))), fn["ret"])
        if name == "operator=":
            ex.store(obj, A(0))
            return obj
        if name == "base":
            return v
        return NotImplemented

    def elem(self, ex, obj, v, idx):
        """reference to element idx of the sequence at obj"""
        if isinstance(obj, LV):
            return obj.i(idx)
        ex.oblige(z3.And(v.lo <= idx, idx < v.hi), "element access within bounds", "bounds")
        return ex.seq_get(v, idx)

    def seq_method(self, ex, fn, e, obj, v, name, A):
        if name == "size":
            return v.len
        if name == "empty":
            return v.len == 0
        if name in ("operator[]",):
            return self.elem(ex, obj, v, simp(v.lo + A(0)))
        if name == "at":
            i = A(0)
            if not ex.branch(z3.And(i >= 0, i < v.len)):
                raise Thrown("std::out_of_range")
            return self.elem(ex, obj, v, simp(v.lo + i))
        if name in ("back",) or (name == "top" and v.kind == "stack"):
            ex.oblige(v.len > 0, "%s() on a non-empty container" % name, "bounds")
            return self.elem(ex, obj, v, simp(v.hi - 1))
        if name == "front":
            ex.oblige(v.len > 0, "front() on a non-empty container", "bounds")
            return self.elem(ex, obj, v, v.lo)
        if v.kind == "pq":
            return self.pq_method(ex, fn, e, obj, v, name, A)
        if name in ("push_back", "push", "emplace_back", "emplace") and v.kind not in ("list", "flist") or name in ("push_back", "emplace_back"):
            et = v.meta.get("etid")
            if et is None and name == "emplace_back" and ex.prog.types[fn["ret"]]["k"] == "ref":
                et = fn["ret"]
            if et is None and name in ("push_back", "push"):
                et = fn["params"][0]["t"]
            if name.startswith("emplace"):
                x = self.emplace_value(ex, e, et, v)
            else:
                x = A(0)
                if et is not None:
                    x = self.conv(ex, x, et)
            v = ex.load(obj, check=False)
            self.seq_push(ex, obj, v, x)
            if name == "emplace_back":
                return obj.i(v.hi)
            return UNIT
        if name in ("push_front", "emplace_front"):
            et = v.meta.get("etid")
            if et is None:
                et = fn["ret"] if name == "emplace_front" and ex.prog.types[fn["ret"]]["k"] == "ref" else fn["params"][0]["t"]
            x = self.emplace_value(ex, e, et, v) if name == "emplace_front" else self.conv(ex, A(0), et)
            v = ex.load(obj, check=False)
            s2 = ex.seq_set(v, simp(v.lo - 1), x)
            s2 = s2.copy(lo=simp(v.lo - 1))
            ex.st.pc.append(s2.hi - s2.lo < (1 << 62))
            ex.store(obj, s2)
            return obj.i(s2.lo) if name == "emplace_front" else UNIT
        if name in ("pop_back",) or (name == "pop" and v.kind == "stack"):
            ex.oblige(v.len > 0, "%s() on a non-empty container" % name, "bounds")
            ex.store(obj, v.copy(hi=simp(v.hi - 1)))
            return UNIT
        if name in ("pop", "pop_front"):
            ex.oblige(v.len > 0, "%s() on a non-empty container" % name, "bounds")
            ex.store(obj, v.copy(lo=simp(v.lo + 1)))
            return UNIT
        if name in ("begin", "cbegin"):
            return self.begin(ex, obj)
        if name in ("end", "cend"):
            return self.end(ex, obj)
        if name == "reserve":
            A(0)
            if v.kind == "vector":
                ex.store(obj, v.copy(gen=ex.new_gen()))
            return UNIT
        if name in ("clear",):
            ex.store(obj, v.copy(hi=v.lo, gen=ex.new_gen()))
            return UNIT
        if name == "resize":
            n = A(0)
            el = ex.rv(ex.eval(e["args"][1])) if len(e["args"]) > 1 else self.value_init(ex, v.meta["etid"])
            nv = self.fill_from(ex, v, v.len, n, el)
            ex.store(obj, nv.copy(hi=simp(v.lo + n), gen=ex.new_gen()))
            return UNIT
        if name == "assign":
            n = A(0)
            if z3.is_expr(n):
                ex.store(obj, self.const_seq(ex, v.kind, A(1), n, v.meta.get("etid")))
                return UNIT
        if name == "operator=":
            x = A(0)
            if isinstance(x, Seq):
                ex.store(obj, x.copy(kind=v.kind, gen=ex.new_gen(), meta=v.meta))
                return obj
        if name in ("data",):
            return It(obj, v.lo, v.gen)
        if name in ("get_allocator",):
            return Opq("std::allocator")
        if name in ("max_size",):
            return Z((1 << 63) - 1)
        if name in ("capacity",):
            c = ex.fresh("capacity")
            ex.assume(z3.And(c >= v.len, c < (1 << 62)))
            return c
        if name in ("shrink_to_fit",):
            ex.store(obj, v.copy(gen=ex.new_gen()))
            return UNIT
        if name == "swap":
            o = ex.eval(e["args"][0])
            w = ex.rv(o)
            ex.store(obj, w)
            ex.store(o, v)
            return UNIT
        return NotImplemented

    def emplace_value(self, ex, e, et, v):
        args = [ex.eval(a) for a in e["args"]]
        t = ex.prog.ty(et)
        if ex.scalar_sort(et) is not None:
            return self.conv(ex, ex.rv(args[0]), et) if args else self.value_init(ex, et)
        if len(args) == 1:
            x = ex.rv(args[0])
            if isinstance(x, Rec) and x.tid is not None and (x.tid == ex.prog.deref(et) or ex.prog.ty(x.tid).get("s") == t.get("s")):
                return x
        d = self.default_rec(ex, ex.prog.deref(et), t, True)
        if isinstance(d, Rec) and len(args) == len(d.fields):
            ft = self.field_types(ex, d)
            return Rec(d.name, {k: self.bind_field(ex, ft.get(k), a) for k, a in zip(d.fields, args)}, d.tid)
        raise Unsupported("emplace of %s" % t.get("s"))

    def fill_from(self, ex, v, frm, to, el):
        """elements [frm,to) set to el"""
        shp, leaves = ex.flatten(el)
        if v.eshape is None:
            v = ex.seq_init_shape(v, shp)
        if not ex.shape_eq(v.eshape, shp):
            shp, leaves = ex.flatten(ex.coerce(el, v.eshape))
        x = z3.Int("x")
        arrs = []
        for a, l in zip(v.arrs, leaves):
            c = z3.Const(ex.fresh_name("fill"), a.sort())
            ex.assume(FA([x], c[x] == z3.If(z3.And(v.lo + frm <= x, x < v.lo + to), l, a[x]), [c[x]]))
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # (the same fact, triggered by the old element)
                ex.assume(FA([x], c[x] == z3.If(z3.And(v.lo + frm <= x, x < v.lo + to), l, a[x]), [a[x]]))
            arrs.append(c)
        return v.copy(arrs=arrs)

    # priority queue of structured elements: a sequence whose top is an arbitrary maximal element
    def pq_top(self, ex, obj, v):
        ex.oblige(v.len > 0, "top() on a non-empty priority queue", "bounds")
        if v.meta.get("top") is None:
            k = ex.fresh("top")
            ex.assume(z3.And(v.lo <= k, k < v.hi))
            v = v.copy()
            v.meta["top"] = k
            ex.store(obj, v)
            cmp = v.meta.get("cmp")
            if cmp is not None:
                j = z3.Int(ex.fresh_name("j"))
                self.pq_order(ex, obj, v, k, cmp)
        return v.meta["top"]

    def pq_order(self, ex, obj, v, k, cmp):
        """top is not less (by the comparator) than any element: instantiated symbolically for a bound index"""
        j = z3.Const(ex.fresh_name("j"), I)
        f = self.pure_apply(ex, cmp, [ex.temp(ex.seq_get(v, k)), ex.temp(ex.seq_get(v, j))])
        if f is not None:
            body = z3.Implies(z3.And(v.lo <= j, j < v.hi), z3.Not(f))
            ex.assume(FA([j], body, [v.arrs[0][j]]))

    def pure_apply(self, ex, fv, args):
        """evaluate a comparator on symbolic arguments to one formula (single path through its body only)"""
        st, tr, pre = ex.st, ex.trace, ex.prefix
        ex.st = st.clone()
        n0 = len(ex.trace)
        ex.discover += 1
        pend = list(ex.pending)
        try:
            r = ex.rv(ex.apply_value(fv, args))
            if len(ex.trace) != n0:
                return None
            return r
        except Unsupported:
            return None
        finally:
            ex.discover -= 1
            ex.st, ex.trace, ex.prefix, ex.pending = st, tr, pre, pend

    def pq_method(self, ex, fn, e, obj, v, name, A):
        if name == "top":
            k = self.pq_top(ex, obj, v)
            return obj.i(k)
        if name == "pop":
            k = self.pq_top(ex, obj, v)
            v = ex.load(obj)
            last = ex.seq_get(v, simp(v.hi - 1))
            v2 = ex.seq_set(v, k, last).copy(hi=simp(v.hi - 1))
            v2.meta["top"] = None
            ex.store(obj, v2)
            return UNIT
        if name in ("push", "emplace"):
            x = self.emplace_value(ex, e, v.meta["etid"], v) if name == "emplace" else A(0)
            v = ex.load(obj).copy()
            v.meta["top"] = None
            self.seq_push(ex, obj, v, x)
            return UNIT
        return NotImplemented

    def bag_method(self, ex, fn, e, obj, v, name, A):
        if name == "empty":
            self.bag_axioms(ex, v)
            return v.size == 0
        if name == "size":
            return v.size
        if name in ("push", "emplace"):
            if v.eshape is None:
                leaves = [A(0)]
            else:
                x = self.emplace_value(ex, e, v.etid, v) if name == "emplace" else A(0)
                leaves = ex.flatten(x)[1]
                if [l.sort() for l in leaves] != [k.sort() for k in v.keys()]:
                    raise Unsupported("element pushed to a priority queue")
            ex.store(obj, ex.load(obj).add(leaves, 1))
            return UNIT
        if name in ("top", "pop"):
            ex.oblige(v.size > 0, "%s() on a non-empty priority queue" % name, "bounds")
            if v.top is None:
                self.bag_axioms(ex, v)
                if v.eshape is None:
                    leaves = [ex.fresh("top")]
                else:
                    leaves = [z3.Const(ex.fresh_name("top"), k.sort()) for k in v.keys()]
                ex.assume(v.sel(leaves) > 0)
                v = v.copy(top=leaves)
                ex.store(obj, v)
                if v.cmp is not None and v.eshape is not None:
                    # the top is not less, by the comparator, than any element
                    ks = [z3.Const(ex.fresh_name("bk"), k.sort()) for k in v.keys()]
                    f = self.pure_apply(ex, v.cmp, [ex.temp(ex.unflatten(v.eshape, leaves)), ex.temp(ex.unflatten(v.eshape, ks))])
                    if f is not None:
                        ex.assume(FA(ks, z3.Implies(v.sel(ks) > 0, z3.Not(f)), [v.sel(ks)]))
            if name == "top":
                return v.top[0] if v.eshape is None else ex.temp(ex.unflatten(v.eshape, v.top))
            ex.store(obj, v.add(v.top, -1))
            return UNIT
        return NotImplemented

    def set_method(self, ex, fn, e, obj, v, name, A):
        if name == "size":
            self.set_axioms(ex, v)
            return v.size
        if name == "empty":
            self.set_axioms(ex, v)
            return v.size == 0
        if name in ("count", "contains"):
            c = z3.Select(v.arr, A(0))
            return c if name == "contains" else z3.If(c, Z(1), Z(0))
        if name in ("insert", "emplace"):
            x = A(0)
            was = z3.Select(v.arr, x)
            n = SetV(z3.Store(v.arr, x, z3.BoolVal(True)), v.size + z3.If(was, Z(0), Z(1)), v.kind)
            if ex.opts.get("card"):
                # cardinality of a set with one element added
                ex.assume(CARD(n.arr) == CARD(v.arr) + z3.If(was, Z(0), Z(1)))
            ex.store(obj, n)
            return Opq("insert_result")
        if name in ("begin",):
            return self.begin(ex, obj)
        if name in ("end",):
            return self.end(ex, obj)
        if name == "reserve":
            return UNIT
        return NotImplemented

    def map_method(self, ex, fn, e, obj, v, name, A):
        if name == "size":
            return v.size
        if name == "empty":
            self.map_axioms(ex, v)
            return v.size == 0
        if name in ("count", "contains"):
            c = z3.Select(v.pres, A(0))
            return c if name == "contains" else z3.If(c, Z(1), Z(0))
        if name == "operator[]":
            x = A(0)
            was = z3.Select(v.pres, x)
            zero = self.value_init(ex, v.vtid)
            nv = MapV(z3.Store(v.pres, x, z3.BoolVal(True)), z3.Store(v.val, x, z3.If(was, z3.Select(v.val, x), zero)), v.size + z3.If(was, Z(0), Z(1)), v.vtid)
            ex.store(obj, nv)
            return obj.i(x)
        if name == "begin":
            return self.begin(ex, obj)
        if name == "end":
            return self.end(ex, obj)
        if name == "reserve":
            return UNIT
        return NotImplemented

    # ------------------------------------------------------------------ functors
    def apply(self, ex, c, args, e):
        if not isinstance(c, Opq):
            return None
        v = lambda i: ex.rv(args[i])
        k = c.kind
        if k.startswith("global:"):
            k = k[7:]
        if k in ("std::less", "std::ranges::less"):
            return v(0) < v(1)
        if k in ("std::greater", "std::ranges::greater"):
            return v(0) > v(1)
        if k == "std::plus":
            return v(0) + v(1) if z3.is_real(v(0)) else ex.arith("+", v(0), v(1), e["t"] if e else None)
        if k in ("std::identity",):
            return args[0]
        if k in ("std::equal_to", "std::ranges::equal_to"):
            return v(0) == v(1)
        if k.startswith("functor:"):
            return c.data(ex, args)
        return None

    # ------------------------------------------------------------------ free functions and stateless objects
    def free(self, ex, fn, e, sq, name, args, obj):
        v = lambda i: ex.rv(args[i], e["args"][i].get("t") if i < len(e["args"]) else None)
        # range access CPOs and friends: std::ranges::begin is an object, its class is std::ranges::__access::_Begin
        cls = sq.split("::")[-2] if name == "operator()" else ""
        if sq in ("std::make_shared", "std::make_unique"):
            tid = e["ta"][0]["t"]
            cs = [f for f in (ex.prog.fns[i] for i in e.get("ctors", ())) if len(f["params"]) >= len(args) and all("def" in p for p in f["params"][len(args):])]
            if len(cs) != 1:
                raise Unsupported("constructor of %s" % ex.prog.types[tid].get("s"))
            lv = ex.temp(self.default_rec(ex, tid, ex.prog.types[tid], True), tid, "heap")
            ex.inline(cs[0], lv, list(args) + [ex.eval(p["def"]) for p in cs[0]["params"][len(args):]], e, ctor=True)
            return Ref(lv)
        if name in ("operator==", "operator!=") and len(args) == 2 and all(isinstance(ex.rv(a), Ref) or "nullptr" in str(getattr(ex.rv(a), "kind", "")) for a in args):
            x, y = [w.lv if isinstance(w, Ref) else None for w in (ex.rv(a) for a in args)]
            same = x is y or (x is not None and y is not None and x.obj == y.obj and not x.path and not y.path)
            return z3.BoolVal(same if name == "operator==" else not same)
        key = name if name != "operator()" else cls
        if key in ("begin", "cbegin", "_Begin", "__cust_access::_Begin"):
            return self.begin(ex, args[0])
        if key in ("end", "cend", "_End"):
            return self.end(ex, args[0])
        if key in ("size", "_Size", "ssize", "_SSize"):
            x = v(0)
            if isinstance(x, Seq):
                return x.len
            if isinstance(x, (SetV, MapV, Bag)):
                return x.size
            if isinstance(x, Rec) and x.name == "subrange":
                return simp(x.fields["e"].pos - x.fields["b"].pos)
            if isinstance(x, RangeVal):
                return self.rng_len(ex, x)
            if isinstance(x, Ref) and x.lv is not None and isinstance(ex.rv(x.lv), Seq):
                return ex.rv(x.lv).len
            if isinstance(x, Rec) and x.tid is not None:
                return self.member_call(ex, args[0], "size", [])
        if key in ("empty", "_Empty"):
            x = v(0)
            if isinstance(x, Seq):
                return x.len == 0
            if isinstance(x, RangeVal):
                return self.rng_len(ex, x) == 0
            if isinstance(x, Rec) and x.tid is not None:
                return self.member_call(ex, args[0], "empty", [])
        if key in ("distance", "__distance_fn"):
            a = v(0)
            if len(args) > 1:
                b = v(1)
                if isinstance(a, It) and isinstance(b, It):
                    return simp(b.pos - a.pos)
            if isinstance(a, (RangeVal,)):
                return self.rng_len(ex, a)
            if isinstance(a, Seq):
                return a.len
            if len(args) > 1 and isinstance(a, Rec) and isinstance(v(1), Rec) and a.tid is not None:
                return self.rec_distance(ex, a, v(1))
            if len(args) == 1 and isinstance(a, Rec) and a.tid is not None:
                if self.has_method(ex, a, "size", 0):
                    return self.member_call(ex, args[0], "size", [])
                r = args[0] if isinstance(args[0], LV) else ex.temp(a, a.tid)
                return self.rec_distance(ex, ex.rv(self.begin(ex, r)), ex.rv(self.end(ex, r)))
        if key in ("find_if", "__find_if_fn", "any_of", "__any_of_fn", "all_of", "__all_of_fn", "none_of", "__none_of_fn"):
            r = self.search(ex, key.replace("__", "").replace("_fn", ""), args)
            if r is not None:
                return r
        if key in ("next", "__next_fn", "advance", "__advance_fn") and isinstance(v(0), Rec) and v(0).tid is not None:
            r = self.rec_advance(ex, v(0), v(1) if len(args) > 1 else Z(1))
            if "next" in key:
                return r
            ex.store(args[0], r)
            return UNIT
        if key in ("next", "__next_fn"):
            x = v(0)
            n = v(1) if len(args) > 1 else Z(1)
            lo, hi = self.it_bounds(ex, x)
            r = x.at(simp(x.pos + n))
            ex.oblige(z3.And(lo <= r.pos, r.pos <= hi), "iterator advanced within its range", "bounds")
            return r
        if key in ("advance", "__advance_fn"):
            x = v(0)
            lo, hi = self.it_bounds(ex, x)
            r = x.at(simp(x.pos + v(1)))
            ex.oblige(z3.And(lo <= r.pos, r.pos <= hi), "iterator advanced within its range", "bounds")
            ex.store(args[0], r)
            return UNIT
        if key in ("prev", "__prev_fn"):
            x = v(0)
            n = v(1) if len(args) > 1 else Z(1)
            return x.at(simp(x.pos - n))
        if sq in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::move_if_noexcept", "std::__niter_base"):
            if sq == "std::addressof" or sq == "std::cref":
                return Ref(args[0] if isinstance(args[0], LV) else ex.temp(args[0]))
            return args[0]
        if sq in ("std::max", "std::min", "std::ranges::max", "std::ranges::min") and len(args) == 2:
            a, b = v(0), v(1)
            return z3.If(a < b, b, a) if name == "max" else z3.If(b < a, b, a)
        if sq == "std::get" or sq == "std::ranges::get":
            i = int(e["ta"][0]["v"])
            base = args[0] if isinstance(args[0], LV) else ex.temp(args[0])
            return self.tuple_get(ex, base, i, None)
        if sq == "std::operator<<" and args:  # writes to a stream
            return args[0]
        if sq in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "std::operator==", "std::operator!=") and args and \
                "_ordering" in str(ex.prog.ty(fn["params"][0]["t"]).get("name")) and z3.is_expr(v(0)):
            return {"<": lambda a: a < 0, ">": lambda a: a > 0, "<=": lambda a: a <= 0, ">=": lambda a: a >= 0, "==": lambda a: a == 0, "!=": lambda a: a != 0}[sq[13:]](v(0))
        if sq in ("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple"):
            tid = ex.prog.deref(e["t"])
            t = ex.prog.types[tid]
            d = self.default_rec(ex, tid, t, True)
            ft = self.field_types(ex, d)
            return Rec(d.name, {k: self.bind_field(ex, ft.get(k), a) for k, a in zip(d.fields, args)}, tid)
        if sq == "std::swap" or sq == "std::ranges::swap" or (cls == "_Swap"):
            a, b = v(0), v(1)
            ex.store(args[0], b)
            ex.store(args[1], a)
            return UNIT
        if sq in ("std::fill",) or key in ("__fill_fn",):
            if sq == "std::fill":
                b, en, x = v(0), v(1), v(2)
                rng = b.rng
                s = ex.load(rng)
                x = self.conv(ex, x, s.meta["etid"]) if s.meta.get("etid") is not None else x
                if simp(b.pos).eq(simp(s.lo)) and simp(en.pos).eq(simp(s.hi)):
                    ns = s.copy(arrs=[z3.K(I, l) for l in ex.flatten(x)[1]])
                else:
                    ns = self.fill_from(ex, s, simp(b.pos - s.lo), simp(en.pos - s.lo), x)
                ex.store(rng, ns, kind="data")
                return UNIT
            s = v(0)
            x = v(1)
            x = self.conv(ex, x, s.meta["etid"]) if s.meta.get("etid") is not None else x
            ex.store(args[0], s.copy(arrs=[z3.K(I, l) for l in ex.flatten(x)[1]]), kind="data")
            return UNIT
        if sq == "std::shuffle":
            # a permutation of the elements
            a, b = v(0), v(1)
            if isinstance(a, It) and isinstance(a.rng, LV):
                lv = a.rng
                s = ex.load(lv)
                inr = lambda i: z3.And(a.pos <= i, i < b.pos)
                perm, inv = z3.Function(ex.fresh_name("perm"), I, I), z3.Function(ex.fresh_name("perminv"), I, I)
                x = z3.Int("x")
                arrs = []
                for o in s.arrs:
                    c = z3.Const(ex.fresh_name("sh"), o.sort())
                    ex.assume(FA([x], c[x] == z3.If(inr(x), o[perm(x)], o[x]), [c[x]]))
                    ex.assume(FA([x], z3.Implies(inr(x), c[inv(x)] == o[x]), [o[x]]))
                    arrs.append(c)
                ex.assume(FA([x], z3.Implies(inr(x), z3.And(inr(perm(x)), inv(perm(x)) == x)), [perm(x)]))
                ex.assume(FA([x], z3.Implies(inr(x), z3.And(inr(inv(x)), perm(inv(x)) == x)), [inv(x)]))
                ex.store(lv, s.copy(arrs=arrs), kind="data")
                ex.st.ghost["perm"] = ex.st.ghost.get("perm", ()) + ((lv.obj, perm, inv, s),)
                return UNIT
        if sq == "std::iota":
            b, en, x = v(0), v(1), v(2)
            s = ex.load(b.rng)
            y = z3.Int("x")
            a = z3.Const(ex.fresh_name("iota"), s.arrs[0].sort())
            ex.assume(FA([y], a[y] == z3.If(z3.And(b.pos <= y, y < en.pos), y - b.pos + x, s.arrs[0][y]), [a[y]]))
            ex.store(b.rng, s.copy(arrs=[a]), kind="data")
            return UNIT
        if key == "__transform_fn" or key == "__sort_fn":
            r = self.range_algo(ex, key, args, e)
            if r is not None:
                return r
        if key == "__copy_fn" or sq == "std::copy":
            src = v(0)
            if sq == "std::copy":
                b, en, out = v(0), v(1), v(2)
            else:
                b, en = (self.begin(ex, args[0]), self.end(ex, args[0]))
                out = v(1)
            if isinstance(out, Opq) and out.kind == "out":
                self.copy_out(ex, b, en, out)
                return Opq("copy_result")
        if key == "_Reverse" or sq == "std::views::reverse":
            lv = args[0] if isinstance(args[0], LV) else ex.temp(args[0])
            w = ex.rv(lv)
            if isinstance(w, Ref):
                lv = w.lv
            return RangeVal("reverse", [], static=HLV(lv), tid=None)
        if name == "operator|":
            f = v(1)
            if isinstance(f, Opq) and ("reverse" in f.kind):
                lv = args[0] if isinstance(args[0], LV) else ex.temp(args[0])
                return RangeVal("reverse", [], static=HLV(lv), tid=None)
        if sq in ("std::back_inserter",):
            return Opq("backins", args[0])
        if sq in ("std::format", "std::vformat", "std::to_string"):
            return Opq("str", "")
        if sq in ("__assert_fail",):
            ex.oblige(z3.BoolVal(False), "assert() in the code holds", "assert")
            raise PathEnd()
        if sq in ("std::abs", "abs", "std::fabs", "std::llabs"):
            a = v(0)
            return z3.If(a >= 0, a, -a)
        if sq == "std::numeric_limits::max":
            raise Unsupported("non-constant numeric_limits")
        if sq == "std::exchange":
            old = v(0)
            ex.store(args[0], v(1))
            return old
        if sq == "std::invoke" or key == "invoke":
            f = args[0]
            fv = ex.rv(f)
            if isinstance(fv, Rec) and name == "invoke":
                op = self.find_method(ex, fv, "operator()", len(args) - 1)
                return ex.inline(op, f if isinstance(f, LV) else ex.temp(fv), args[1:], e)
            return ex.apply_value(f, args[1:], e)
        if sq in ("std::identity::operator()",):
            return args[-1]
        if sq in ("std::ranges::subrange",):
            return Rec("subrange", {"b": self.as_it(ex, v(0)), "e": self.as_it(ex, v(1))}, None)
        if name in ("operator==", "operator!=") and len(args) == 2:
            c = self.val_eq(ex, v(0), v(1))
            return c if name == "operator==" else z3.Not(c)
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+") and len(args) == 2:
            a, b = v(0), v(1)
            if not (z3.is_expr(a) and z3.is_expr(b)):
                return self.binop(ex, name[8:], a, b, e)
        if obj is not None:
            o = obj if isinstance(obj, Opq) else ex.rv(obj)
            if isinstance(o, Opq):
                k = o.kind
                r = self.apply(ex, o, args, e)
                if r is not None:
                    return r
        if sq in ("std::less::operator()", "std::greater::operator()", "std::plus::operator()", "std::equal_to::operator()", "std::ranges::less::operator()"):
            r = self.apply(ex, Opq(sq[:-12]), args, e)
            if r is not None:
                return r
        return NotImplemented

    def has_method(self, ex, rec, name, nargs):
        try:
            self.find_method(ex, rec, name, nargs)
            return True
        except Unsupported:
            return False

    def find_method(self, ex, rec, name, nargs):
        classes = [rec.tid]
        for t in classes:
            for f in ex.prog.fns:
                if f["sq"].split("::")[-1] == name and f.get("rec") == t and f.get("body") and len(f["params"]) == nargs:
                    return f
            if t is not None:
                classes += [b["t"] if isinstance(b, dict) else b for b in ex.prog.types[t].get("bases", [])]
        raise Unsupported("method %s of %s" % (name, rec.name))

    def pure(self, ex, thunk):
        """value of a side-effect-free computation, its paths merged"""
        base = ex.st
        npc = len(base.pc)
        start = base.clone()
        frames, loops = list(ex.frames), list(ex.loopstack)
        outs = []

        def one():
            ex.st = start.clone()
            ex.frames, ex.loopstack = list(frames), list(loops)
            r = ex.rv(thunk())
            for k, v in start.store.items():
                if ex.st.store.get(k) is not v:
                    raise Unsupported("side effect in a callable: %s" % k)
            c = ex.st.pc[npc:]
            if any(has_quant(x) for x in c):
                raise Unsupported("assumption inside a callable")
            outs.append((z3.And(c) if c else z3.BoolVal(True), r, ex.fresh_n, ex.gen_n))
        try:
            ex.explore(one)
        finally:
            ex.st, ex.frames, ex.loopstack = base, frames, loops
        if not outs:
            raise Unsupported("callable without outcome")
        ex.fresh_n = max(o[2] for o in outs)
        ex.gen_n = max(o[3] for o in outs)
        shp, leaves = ex.flatten(outs[-1][1])
        for c, r, _, _ in reversed(outs[:-1]):
            s2, l2 = ex.flatten(r)
            if not ex.shape_eq(shp, s2):
                raise Unsupported("callable with results of different shape")
            leaves = [z3.If(c, a, b) for a, b in zip(l2, leaves)]
        return ex.unflatten(shp, leaves)

    def range_algo(self, ex, key, args, e):
        lv = args[0] if isinstance(args[0], LV) else None
        while lv is not None and isinstance(ex.load(lv), Ref):
            lv = ex.load(lv).lv
        s = ex.load(lv) if lv is not None else None
        if not isinstance(s, Seq) or s.eshape is None:
            return None
        x, y = z3.Int("x"), z3.Int("y")
        inr = lambda i: z3.And(s.lo <= i, i < s.hi)
        if key == "__transform_fn":
            out = ex.rv(args[1])
            if not (isinstance(out, Opq) and out.kind == "backins"):
                return None
            i0 = z3.Int(ex.fresh_name("ti"))
            r = self.pure(ex, lambda: (ex.assume_local(inr(i0)), ex.apply_value(args[2], [lv.i(i0)], e))[1])
            shp, leaves = ex.flatten(r)
            dlv = out.data
            d = ex.load(dlv)
            if d.eshape is None:
                d = ex.seq_init_shape(d, shp)
            elif not ex.shape_eq(d.eshape, shp):
                return None
            arrs = []
            n = s.hi - s.lo
            for a, l in zip(d.arrs, leaves):
                c = z3.Const(ex.fresh_name("tr"), a.sort())
                ex.assume(FA([x], c[x] == z3.If(z3.And(d.hi <= x, x < d.hi + n), z3.substitute(l, (i0, x - d.hi + s.lo)), a[x]), [c[x]]))
                arrs.append(c)
            for l, c in zip(leaves, arrs):
                # (the same fact, triggered by the source elements)
                for a in s.arrs:
                    if a.sort() == c.sort() and z3.simplify(l).eq(z3.simplify(a[i0])):
                        ex.assume(FA([x], z3.Implies(inr(x), c[x - s.lo + d.hi] == a[x]), [a[x]]))
            ex.store(dlv, d.copy(arrs=arrs, hi=simp(d.hi + n)))
            return Opq("transform_result")
        # sort: a permutation of the elements, ordered by the comparison
        cmp = args[1] if len(args) > 1 else Opq("std::ranges::less")
        perm, inv = z3.Function(ex.fresh_name("perm"), I, I), z3.Function(ex.fresh_name("perminv"), I, I)
        arrs = [z3.Const(ex.fresh_name("so"), a.sort()) for a in s.arrs]
        lt = self.cmp_term(ex, cmp, lv, e)
        # the comparison is a strict weak order on the elements
        u, v, w = (z3.Int(ex.fresh_name("sw")) for _ in range(3))
        rng = [inr(u), inr(v), inr(w)]
        ex.oblige(z3.Implies(z3.And(rng), z3.And(z3.Not(lt(u, u)), z3.Implies(z3.And(lt(u, v), lt(v, w)), lt(u, w)),
                                                 z3.Implies(z3.And(z3.Not(lt(u, v)), z3.Not(lt(v, u)), z3.Not(lt(v, w)), z3.Not(lt(w, v))), z3.And(z3.Not(lt(u, w)), z3.Not(lt(w, u)))))),
                  "sort: the comparison is a strict weak order on the elements", "pre")
        for a, c in zip(s.arrs, arrs):
            ex.assume(FA([x], z3.Implies(inr(x), c[x] == a[perm(x)]), [c[x]]))
            ex.assume(FA([x], z3.Implies(z3.Not(inr(x)), c[x] == a[x]), [c[x]]))
            ex.assume(FA([x], z3.Implies(inr(x), c[inv(x)] == a[x]), [a[x]]))
        ex.assume(FA([x], z3.Implies(inr(x), z3.And(inr(perm(x)), inv(perm(x)) == x)), [perm(x)]))
        ex.assume(FA([x], z3.Implies(inr(x), z3.And(inr(inv(x)), perm(inv(x)) == x)), [inv(x)]))
        ex.store(lv, s.copy(arrs=arrs), kind="data")
        lt2 = self.cmp_term(ex, cmp, lv, e)
        pats = [(a[x], a[y]) for a in arrs]
        ex.assume(FA([x, y], z3.Implies(z3.And(inr(x), inr(y), x < y), z3.Not(lt2(y, x))), pats))
        ex.st.ghost["perm"] = ex.st.ghost.get("perm", ()) + ((lv.obj, perm, inv, s),)
        return Opq("sort_result")

    def cmp_term(self, ex, cmp, lv, e):
        i0, j0 = z3.Int(ex.fresh_name("ci")), z3.Int(ex.fresh_name("cj"))
        s = ex.load(lv)

        def run():
            ex.assume_local(z3.And(s.lo <= i0, i0 < s.hi, s.lo <= j0, j0 < s.hi))
            return ex.apply_value(cmp, [lv.i(i0), lv.i(j0)], e)
        t = self.pure(ex, run)
        t = t if z3.is_bool(t) else t != 0
        return lambda a, b: z3.substitute(t, (i0, a), (j0, b))

    def copy_out(self, ex, b, en, out):
        name = "$" + out.data
        s = ex.st.store[name]
        n = simp(en.pos - b.pos)
        x = z3.Int("x")
        hi0 = s.hi
        r = b.rng
        if isinstance(r, RangeVal) and r.kind == "reverse":
            src = ex.load(r.static.lv)
            get = lambda a, x: a[src.lo + src.hi - 1 - (b.pos + x - hi0)]
            inv = lambda y: src.lo + src.hi - 1 - y - b.pos + hi0
        elif isinstance(r, LV):
            src = ex.load(r)
            get = lambda a, x: a[b.pos + x - hi0]
            inv = lambda y: y - b.pos + hi0
        else:
            raise Unsupported("copy from %r" % (r,))
        if s.eshape is None:
            s = ex.seq_init_shape(s, src.eshape)
        arrs = []
        for a, sa in zip(s.arrs, src.arrs):
            c = z3.Const(ex.fresh_name("out"), a.sort())
            ex.assume(FA([x], c[x] == z3.If(z3.And(hi0 <= x, x < hi0 + n), get(sa, x), a[x]), [c[x]]))
            # (the same fact, triggered by the source element)
            ex.assume(FA([x], z3.Implies(z3.And(hi0 <= inv(x), inv(x) < hi0 + n), c[inv(x)] == sa[x]), [sa[x]]))
            arrs.append(c)
        ex.store(LV(name), s.copy(arrs=arrs, hi=simp(hi0 + n)))


class HLV:
    """hashable wrapper of a location used as static data of a range"""

    def __init__(self, lv, data=None):
        self.lv, self.data = lv, data
        self.key = (lv.obj, tuple((p[1] if p[0] == "f" else p[1].get_id()) for p in lv.path))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, HLV) and o.key == self.key


# ---------------------------------------------------------------------- the graph access functions (CPOs)
def gmodel(ex, x):
    v = ex.rv(x)
    while isinstance(v, Ref):
        v = ex.rv(v.lv)
    if isinstance(v, Opq) and v.kind == "graph":
        return v.data
    raise Unsupported("graph argument is %r" % (v,))


def vid(ex, x):
    """vertex id from a descriptor value or an id"""
    v = ex.rv(x)
    if z3.is_expr(v):
        return v
    if isinstance(v, Rec) and "storage_" in v.fields:
        return v.fields["storage_"]
    raise Unsupported("vertex argument %r" % (v,))


def eparts(ex, x):
    v = ex.rv(x)
    if isinstance(v, Rec) and "edge_storage_" in v.fields:
        return v.fields["source_"].fields["storage_"], v.fields["edge_storage_"], v.name == "iedesc"
    raise Unsupported("edge argument %r" % (v,))


CPO = r"graph::(?:adj_list::)?_cpo_impls::"


@contract(CPO + r"_num_vertices::\w+::operator\(\)")
def c_num_vertices(ex, c):
    return gmodel(ex, c.args[0]).n


@contract(CPO + r"_vertices::\w+::operator\(\)")
def c_vertices(ex, c):
    return RangeVal("vertices", [], gmodel(ex, c.args[0]))


@contract(CPO + r"_vertex_id::\w+::operator\(\)")
def c_vertex_id(ex, c):
    return vid(ex, c.args[1])


@contract(CPO + r"_find_vertex::\w+::operator\(\)")
def c_find_vertex(ex, c):
    g = gmodel(ex, c.args[0])
    return It(RangeVal("vertices", [], g), c.a(1))


@contract(CPO + r"_edges::\w+::operator\(\)")
def c_edges(ex, c):
    g = gmodel(ex, c.args[0])
    u = vid(ex, c.args[1])
    ex.oblige(g.V(u), "edges(g,u): u is a vertex of g", "precondition")
    ex.assume(z3.And(g.deg(u) >= 0, g.deg(u) < (1 << 62)))
    return RangeVal("edges", [u], g)


@contract(CPO + r"_out_edges::\w+::operator\(\)")
def c_out_edges(ex, c):
    return c_edges(ex, c)


@contract(CPO + r"_in_edges::\w+::operator\(\)")
def c_in_edges(ex, c):
    g = gmodel(ex, c.args[0])
    u = vid(ex, c.args[1])
    ex.oblige(g.V(u), "in_edges(g,u): u is a vertex of g", "precondition")
    ex.assume(z3.And(g.indeg(u) >= 0, g.indeg(u) < (1 << 62)))
    return RangeVal("in_edges", [u], g)


@contract(CPO + r"_target_id::\w+::operator\(\)")
def c_target_id(ex, c):
    g = gmodel(ex, c.args[0])
    u, i, ine = eparts(ex, c.args[1])
    if ine:
        return u
    ex.oblige(g.VE(u, i), "target_id(g,uv): uv is an edge of g", "precondition")
    t = g.tgt(u, i)
    ex.assume(g.V(t))
    return t


@contract(CPO + r"_source_id::\w+::operator\(\)")
def c_source_id(ex, c):
    g = gmodel(ex, c.args[0])
    u, i, ine = eparts(ex, c.args[1])
    if ine:
        ex.oblige(z3.And(g.V(u), 0 <= i, i < g.indeg(u)), "source_id(g,uv): uv is an in-edge of g", "precondition")
        ex.assume(g.V(g.insrc(u, i)))
        return g.insrc(u, i)
    return u


@contract(CPO + r"_edge_value::\w+::operator\(\)")
def c_edge_value(ex, c):
    g = gmodel(ex, c.args[0])
    u, i, ine = eparts(ex, c.args[1])
    ex.oblige(g.VE(u, i), "edge_value(g,uv): uv is an edge of g", "precondition")
    return g.wt(u, i)


@contract(CPO + r"_(?:out_)?degree::\w+::operator\(\)")
def c_degree(ex, c):
    g = gmodel(ex, c.args[0])
    u = vid(ex, c.args[1])
    ex.oblige(g.V(u), "degree(g,u): u is a vertex of g", "precondition")
    ex.assume(z3.And(g.deg(u) >= 0, g.deg(u) < (1 << 62)))
    return g.deg(u)


@contract(CPO + r"_num_edges::\w+::operator\(\)")
def c_num_edges(ex, c):
    g = gmodel(ex, c.args[0])
    if len(c.args) == 1:
        return g.m
    u = vid(ex, c.args[1])
    ex.oblige(g.V(u), "num_edges(g,u): u is a vertex of g", "precondition")
    ex.assume(z3.And(g.deg(u) >= 0, g.deg(u) < (1 << 62)))
    return g.deg(u)


# ---------------------------------------------------------------------- views
def _view(kind):
    def f(ex, c):
        g = gmodel(ex, c.args[0])
        u = vid(ex, c.args[1])
        ex.oblige(g.V(u), "%s(g,u): u is a vertex of g" % kind, "precondition")
        ex.assume(z3.And(g.deg(u) >= 0, g.deg(u) < (1 << 62)))
        fv = ex.rv(c.args[2]) if len(c.args) > 2 else None
        return RangeVal(kind, [u], (g, fv))
    return f


for _k in ("incidence", "basic_incidence", "neighbors", "basic_neighbors"):
    contract(r"graph::views::%s" % _k)(_view(_k))


def _gview(kind):
    def f(ex, c):
        g = gmodel(ex, c.args[0])
        fv = ex.rv(c.args[1]) if len(c.args) > 1 else None
        return RangeVal(kind, [], (g, fv))
    return f


for _k in ("vertexlist", "basic_vertexlist", "edgelist", "basic_edgelist"):
    contract(r"graph::views::%s" % _k)(_gview(_k))

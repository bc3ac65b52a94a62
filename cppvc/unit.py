"""Verification units: one /repo function body (instantiated) against a contract."""
import time
import z3
from .engine import *
from .lib import Handlers, Graph

UNITS = {}


class Unit:
    """name: unique; driver: translation unit; fn: qualified name of the function; sel: instance selector;
    setup(u): binds the parameters and assumes the precondition, returns the list of arguments (and may set u.this);
    loop(u, ctx): invariants of a loop; post(u, result): obliges the postcondition; throws(u, tname): obligation when an
    exception leaves the function (None = none allowed)"""

    def __init__(self, name, driver, fn, setup, post, loop=None, sel=None, throws=None, extra=None, variant=None, unroll=None,
                 passthrough=(), opts=None, about="", on_path=None):
        self.name, self.driver, self.fn, self.setup, self.post = name, driver, fn, setup, post
        self.loop, self.sel, self.throws, self.extra, self.variant = loop, sel, throws, extra, variant
        self.unroll, self.passthrough, self.opts, self.about = unroll, passthrough, opts or {}, about

    def run(self, prog):
        """-> UnitRun with the obligations"""
        return UnitRun(self, prog)


class UnitRun:
    def __init__(self, unit, prog):
        self.unit, self.prog = unit, prog
        u = unit
        self.h = Handlers(extra=[(re.compile("^(?:%s)$" % r), self.wrap(f)) for r, f in (u.extra or [])],
                          variant=(lambda ctx: u.variant(self, ctx)) if u.variant else None,
                          unroll=u.unroll, passthrough=u.passthrough)
        self.ex = Exec(prog, u.name, self.h, loop_spec=(lambda ctx: u.loop(self, ctx)) if u.loop else None, opts=u.opts)
        self.error = None
        self.paths = 0
        self.returned = 0
        self.threw = 0
        t = time.time()
        try:
            self.fn = prog.find(u.fn, u.sel) if u.post is not None else None
            self.go()
        except Unsupported as e:
            self.error = str(e)
        self.time = time.time() - t

    def wrap(self, f):
        return lambda ex, c: f(self, c)

    # -- conveniences for setup
    def put(self, name, val, tid=None):
        self.ex.st.store[name] = val
        if tid is not None:
            self.ex.st.otype[name] = tid
        return LV(name)

    def get(self, name):
        return self.ex.st.store[name]

    def graph(self, name="g", **kw):
        g = Graph(name)
        for a in g.axioms(**kw):
            self.ex.assume(a)
        self.put("$graph:" + name, Opq("graph", g))
        return g, LV("$graph:" + name)

    def int(self, name, lo=None, hi=None):
        if len(name) < 2:
            raise Unsupported("one-letter names are kept for bound variables")
        x = z3.Int(name)
        if lo is not None:
            self.ex.assume(x >= lo)
        if hi is not None:
            self.ex.assume(x < hi)
        return x

    def seq(self, name, n, sort=None, kind="vector", rng=None, etid=None):
        """a container parameter of n scalar elements"""
        a = z3.Const(name + "0", z3.ArraySort(z3.IntSort(), z3.IntSort() if sort is None else sort))
        s = Seq(kind, ("s", z3.IntSort() if sort is None else sort), Z(0), n, [a], self.ex.new_gen(), {"etid": etid})
        x = z3.Int("x")
        if rng:
            self.ex.assume(FA([x], z3.And(rng[0] <= a[x], a[x] < rng[1]), [a[x]]))
        return self.put(name, s), a

    def rec_seq(self, name, tid, n, kind=None):
        """a container parameter (type tid, possibly a reference) of n structures -> location, {field: array}"""
        ex = self.ex
        t = ex.prog.deref(tid)
        ty = ex.prog.ty(t)
        et = ty["args"][0]["t"]
        s = self.h.empty_seq(ex, kind or self.h.STDSEQ[ty["name"]], et)
        if s.eshape is None or s.eshape[0] != "rec":
            raise Unsupported("element structure of %s" % name)
        fields = [f for f, _ in s.eshape[2]]
        arrs = [z3.Const("%s.%s0" % (name, f), a.sort()) for f, a in zip(fields, s.arrs)]
        if len(arrs) != len(s.arrs):
            raise Unsupported("nested element structure of %s" % name)
        return self.put(name, s.copy(arrs=arrs, hi=n)), dict(zip(fields, arrs))

    def field(self, s, name):
        """array of one field of a sequence of structures"""
        return s.arrs[[f for f, _ in s.eshape[2]].index(name)]

    def out(self, name="out"):
        """an output iterator; what is written is the ghost sequence $name"""
        a = z3.Const("$%s0" % name, z3.ArraySort(z3.IntSort(), z3.IntSort()))
        self.put("$" + name, Seq("ghost", ("s", z3.IntSort()), Z(0), Z(0), [a], 0, {}))
        return self.put("outit:" + name, Opq("out", name))

    def go(self):
        ex = self.ex

        def one():
            ex.st = State()
            ex.frames = []
            ex.loopstack = []
            ex.fresh_n = 0
            ex.gen_n = 0
            ex.cur_loc = ""
            self.this = None
            args = self.unit.setup(self)
            if len(ex.trace) == 0 and not ex.prefix:
                ex.canaries.append(("precondition", list(ex.st.pc)))
            self.pre = ex.st.clone()
            try:
                r = ex.inline(self.fn, self.this, args, ctor=getattr(self, "ctor", False))
                r = ex.rv(r) if not isinstance(r, LV) else r
                self.returned += 1
                ex.canaries.append(("return", list(ex.st.pc)))
                ex.cur_loc = "postcondition of " + self.unit.fn
                self.unit.post(self, r)
            except Thrown as t:
                self.threw += 1
                if self.unit.throws is None:
                    ex.oblige(z3.BoolVal(False), "no exception leaves the function (%s)" % t.tname, "exception")
                else:
                    self.unit.throws(self, t)
            except (BreakE, ContinueE):
                raise Unsupported("stray break")
        self.paths = ex.explore(one)


class Lemma(Unit):
    """lemma functions of a driver: C++ functions of namespace vcd whose name starts with `prefix`; they call the real code
    and state its contract with vcd::require (assumption about the arguments) and vcd::ensure (obligation).  Every
    parameter is an arbitrary value of its type.  Contracts of /repo functions are not used: every body is expanded."""

    def __init__(self, name, driver, prefix, opts=None, extra=None, loop=None, variant=None, unroll=None, about="", fns=(), keep=(),
                 before=None, after=None, throws=None):
        """throws(u, f, args, thrown): what holds when an exception leaves f (returns False: none may)
        before(u, f, args) / after(u, f, args, result): run before / after the body of a lemma function f"""
        self.before, self.after, self.thrown = before, after, throws
        super().__init__(name, driver, prefix, None, None, loop=loop, variant=variant, unroll=unroll, extra=list(extra or []) + [
            (r"vcd::ensure", l_ensure), (r"vcd::require", l_require), (r"vcd::forall", l_forall), (r"vcd::same", l_same),
            (r"vcd::scan", l_scan), (r"vcd::opaque", l_opaque)],
            passthrough=[r"(?!%s).*" % "|".join(["vcd::(?:ensure|require|forall|same|scan|opaque)$"] + list(keep))], opts=opts, about=about)
        self.prefix = prefix
        self.proves = list(fns)

    def functions(self, prog):
        return sorted((f for f in prog.fns if f.get("body") and f["sq"].startswith(self.prefix)), key=lambda f: f["id"])

    def run(self, prog, only=None):
        return LemmaRun(self, prog, only)


def l_ensure(u, c):
    ex = u.ex
    what = ex.rv(c.args[1])
    p = ex.rv(c.args[0])
    ex.oblige(p, "%s: %s" % (u.inst, what.data if isinstance(what, Opq) else "?"), "lemma")
    return Opq("unit")


def l_require(u, c):
    u.ex.assume(u.ex.rv(c.args[0]))
    return Opq("unit")


def l_forall(u, c):
    ex = u.ex
    lo, hi, f = ex.rv(c.args[0]), ex.rv(c.args[1]), c.args[2]
    x = ex.fresh("q")
    st = ex.st
    ex.st = st.clone()
    ex.assume(z3.And(lo <= x, x < hi))
    try:
        body = u.h.pure(ex, lambda: ex.apply_value(f, [x]))
    finally:
        ex.st = st
    return FA([x], z3.Implies(z3.And(lo <= x, x < hi), body))


def l_same(u, c):
    ex = u.ex
    return u.h.val_eq(ex, ex.rv(c.args[0]), ex.rv(c.args[1]))


def l_scan(u, c):
    u.ex.st.ghost["scan"] = (u.ex.rv(c.args[0]), u.ex.rv(c.args[1]))
    return Opq("unit")


def l_opaque(u, c):
    a = [u.ex.rv(x) for x in c.args]
    r = z3.Function("vcd.opaque", *([z3.IntSort()] * (len(a) + 1)))(*a)
    u.ex.assume(u.ex.in_range(r, c.fn["ret"]))
    return r


class LemmaRun(UnitRun):
    def __init__(self, unit, prog, only=None):
        """only: ids of the lemma functions to look at (all if None)"""
        self.all = unit.functions(prog)
        self.instances = [f for f in self.all if only is None or f["id"] in only]
        self.skipped = []
        self.pre = None
        UnitRun.__init__(self, unit, prog)

    def symbolic(self, tid, name):
        """an arbitrary value of a type"""
        ex = self.ex
        t = ex.prog.types[tid]
        if t["k"] == "ref":
            return self.put(name, self.symbolic(t["to"], name), t["to"])
        v = self.h.default_value(ex, tid, uninit=True)
        if v is None:
            raise Unsupported("arbitrary value of type %s" % t.get("s"))
        return self.arbitrary(v, tid, name)

    def arbitrary(self, v, tid, name):
        ex = self.ex
        if z3.is_expr(v):
            c = z3.Const(name, v.sort())
            if tid is not None:
                ex.note_range(c, tid)
            return c
        if isinstance(v, Rec):
            ft = self.h.field_types(ex, v)
            return Rec(v.name, {k: self.arbitrary(x, ft.get(k), name + "." + k) if not (ft.get(k) is not None and ex.prog.types[ft[k]]["k"] == "ref")
                                else Ref(self.symbolic(ft[k], name + "." + k)) for k, x in v.fields.items()}, v.tid)
        if isinstance(v, Seq):
            if v.kind == "array":
                return v.copy(arrs=[z3.Const("%s.a%d" % (name, i), a.sort()) for i, a in enumerate(v.arrs)])
            if v.eshape is None:
                raise Unsupported("arbitrary sequence of unknown elements (%s)" % name)
            n = z3.Int(name + ".size")
            ex.assume(z3.And(0 <= n, n < (1 << 62)))
            arrs = [z3.Const("%s.a%d" % (name, i), a.sort()) for i, a in enumerate(v.arrs)]
            self.nested(v.eshape, arrs, [], n)
            v = v.copy(hi=n, arrs=arrs)
            if v.kind == "omap":
                self.h.omap_axioms(ex, v)
            return v
        if isinstance(v, Ref):
            return v
        if isinstance(v, (Opq,)) and not v.kind.startswith("unknown"):
            return v
        raise Unsupported("arbitrary value %r (%s)" % (v, name))

    def nested(self, shp, arrs, idx, n):
        """sequences inside sequences start at 0 and have a size"""
        ex = self.ex
        if shp[0] == "seq":
            xs = [z3.Int("x%d" % (len(idx)))] + idx
            lo, hi = arrs[0], arrs[1]
            for k in reversed(range(len(xs))):
                lo, hi = z3.Select(lo, xs[k]), z3.Select(hi, xs[k])
            ex.assume(FA(xs, z3.And(lo == 0, hi >= 0, hi < (1 << 62)), [lo, hi]))
            if shp[2] is not None:
                self.nested(shp[2], arrs[2:], xs, None)
        elif shp[0] == "rec":
            i = 0
            for _, s in shp[2]:
                m = ex.nleaves(s)
                self.nested(s, arrs[i:i + m], idx, n)
                i += m

    def go(self):
        ex = self.ex
        if not self.instances:
            raise Unsupported("no lemma function %s" % self.unit.prefix)
        names = {}
        for f in self.all:
            names[f["sq"]] = names.get(f["sq"], 0) + 1
        seen = {}
        for f in self.all:
            seen[f["sq"]] = seen.get(f["sq"], 0) + 1
            if f not in self.instances:
                continue
            self.inst = f["sq"].split("::")[-1] + ("#%d" % seen[f["sq"]] if names[f["sq"]] > 1 else "")
            nob = len(ex.obls)

            def one(f=f):
                ex.st = State()
                ex.frames = []
                ex.loopstack = []
                ex.fresh_n = 0
                ex.gen_n = 0
                ex.cur_loc = ""
                self.h.cache = {}
                args = [self.symbolic(p["t"], "%s" % (p["n"] or "arg%d" % i)) for i, p in enumerate(f["params"])]
                try:
                    if self.unit.before:
                        self.unit.before(self, f, args)
                    r = ex.inline(f, None, args)
                    self.returned += 1
                    if self.unit.after:
                        ex.cur_loc = f["q"].split("::")[-1]
                        self.unit.after(self, f, args, r)
                    ex.canaries.append(("return", list(ex.st.pc)))
                except Thrown as t:
                    self.threw += 1
                    if self.unit.thrown and self.unit.thrown(self, f, args, t) is not False:
                        return
                    ex.oblige(z3.BoolVal(False), "%s: no exception leaves the function (%s)" % (self.inst, t.tname), "exception")
            try:
                self.paths += ex.explore(one)
            except Unsupported as x:
                del ex.obls[nob:]
                self.skipped.append((f["q"], str(x)))
        if self.skipped and len(self.skipped) == len(self.all):
            raise Unsupported("%s: %s" % self.skipped[0])

"""cppvc: a contract-based verification condition generator for instantiated C++ function bodies.

Input: the JSON program produced by extract/cppvc_extract from /repo's current headers.
A function is executed symbolically, path by path (paths are enumerated by replay); every loop is cut by an
invariant supplied by a specification, every call is replaced by a contract (handlers) or, when the callee is
itself code of the library without a contract, expanded in place.  Every proof obligation met on a path is
recorded together with the path's assumptions and later discharged by SMT solvers (solve.py).
"""
import sys
from fractions import Fraction
import z3, json, re, sys, itertools, zlib

sys.setrecursionlimit(10000)


DBL_MAX = z3.Real("DBL_MAX")   # numeric_limits<double>::max(): an arbitrary large real


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class BreakE(Exception):
    pass


class ContinueE(Exception):
    pass


class ReturnE(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    def __init__(self, tname, val=None):
        self.tname = tname
        self.val = val


# ---------------------------------------------------------------- values
class Val:
    pass


class LV:
    """a location: object key plus access path of ('f',name) / ('i',index,gen)"""
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = tuple(path)

    def f(self, name):
        return LV(self.obj, self.path + (("f", name),))

    def i(self, idx, gen=None):
        return LV(self.obj, self.path + (("i", idx, gen),))

    def __repr__(self):
        return "LV(%s%s)" % (self.obj, "".join("." + str(p[1]) if p[0] == "f" else "[%s]" % p[1] for p in self.path))


class Rec(Val):
    def __init__(self, name, fields, tid=None):
        self.name = name
        self.fields = fields
        self.tid = tid

    def set(self, f, v):
        d = dict(self.fields)
        d[f] = v
        return Rec(self.name, d, self.tid)

    def __repr__(self):
        return "Rec(%s,%s)" % (self.name, self.fields)


class Ref(Val):
    """pointer / stored reference; lv None is null"""

    def __init__(self, lv):
        self.lv = lv


class Opq(Val):
    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = data

    def __repr__(self):
        return "Opq(%s)" % self.kind


class Seq(Val):
    """sequence; elements at [lo, hi) of the leaf arrays.  gen identifies the storage for reference validity."""

    def __init__(self, kind, eshape, lo, hi, arrs, gen=0, meta=None):
        self.kind, self.eshape, self.lo, self.hi, self.arrs, self.gen = kind, eshape, lo, hi, arrs, gen
        self.meta = meta or {}

    def copy(self, **kw):
        s = Seq(self.kind, self.eshape, self.lo, self.hi, self.arrs, self.gen, dict(self.meta))
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    @property
    def len(self):
        return simp(self.hi - self.lo)

    def __repr__(self):
        return "Seq(%s,[%s,%s))" % (self.kind, self.lo, self.hi)


class SetV(Val):
    """set (unordered_set / set): characteristic array plus cardinality"""

    def __init__(self, arr, size, kind="set"):
        self.arr, self.size, self.kind = arr, size, kind


class MapV(Val):
    """map from Int to a scalar: presence, value arrays and cardinality"""

    def __init__(self, pres, val, size, vtid=None):
        self.pres, self.val, self.size, self.vtid = pres, val, size, vtid


class Bag(Val):
    """multiset (priority_queue): multiplicities (an array over the leaves of the element, nested) and total size; top is a
    remembered choice; eshape is None for scalar elements"""

    def __init__(self, cnt, size, top=None, cmp=None, eshape=None, etid=None):
        self.cnt, self.size, self.top, self.cmp, self.eshape, self.etid = cnt, size, top, cmp, eshape, etid

    def copy(self, **kw):
        b = Bag(self.cnt, self.size, self.top, self.cmp, self.eshape, self.etid)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def sel(self, leaves):
        a = self.cnt
        for l in leaves:
            a = z3.Select(a, l)
        return a

    def add(self, leaves, d):
        def go(a, ls):
            if not ls:
                return a + d
            return z3.Store(a, ls[0], go(z3.Select(a, ls[0]), ls[1:]))
        return self.copy(cnt=go(self.cnt, list(leaves)), size=self.size + d, top=None)

    def keys(self):
        """fresh bound variables, one per leaf"""
        r, so = [], self.cnt.sort()
        while isinstance(so, z3.ArraySortRef):
            r.append(z3.Const("bk%d" % len(r), so.domain()))
            so = so.range()
        return r


class RangeVal(Val):
    """an abstract range described by a contract: kind, scalar parameters, static data"""

    def __init__(self, kind, params, static=None, tid=None):
        self.kind, self.params, self.static, self.tid = kind, list(params), static, tid

    def __repr__(self):
        return "Range(%s,%s)" % (self.kind, self.params)


class It(Val):
    """iterator at position pos of range rng (RangeVal, or an LV of a Seq)"""

    def __init__(self, rng, pos, gen=None, rev=False, tid=None):
        self.rng, self.pos, self.gen, self.rev, self.tid = rng, pos, gen, rev, tid

    def at(self, pos):
        return It(self.rng, pos, self.gen, self.rev, self.tid)

    def __repr__(self):
        return "It(%s@%s)" % (self.rng, self.pos)


class Clo(Val):
    def __init__(self, tid, caps):
        self.tid, self.caps = tid, caps


class FnV(Val):
    def __init__(self, fn):
        self.fn = fn


UNIT = Opq("unit")

Z = z3.IntVal
_simp_cache = {}


def simp(x):
    return z3.simplify(x)


_crc = {}


def crc(site):
    if site not in _crc:
        _crc[site] = zlib.crc32(repr(site).encode()) & 0xffffff
    return _crc[site]


def is_lit_true(x):
    return z3.is_true(x)


def conj(*a):
    a = [x for x in a if not z3.is_true(x)]
    return z3.BoolVal(True) if not a else (a[0] if len(a) == 1 else z3.And(*a))


def FA(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        try:
            return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
        except z3.Z3Exception:  # a term of the changed code (an if, an arithmetic term) landed in a pattern: let the solver choose
            pass
    return z3.ForAll(list(vs), body)


def EX(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.Exists(list(vs), body)


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def strip_targs(q):
    """remove template argument lists from a qualified name, keeping operator<, <=, <<, ->, > names"""
    out = []
    i = 0
    depth = 0
    n = len(q)
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[^\w\s<>(]+)?", q[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["functions"]
        for f in self.fns:
            f["sq"] = strip_targs(f["q"])
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f["sq"], []).append(f)
        self.distinct_fields()

    def distinct_fields(self):
        """a structure holds the members of its bases beside its own: members of the same name in two of those classes get
        names of their own"""
        T = self.types

        def classes(t):
            out = [t]
            for b in T[t].get("bases", []):
                out += classes(b["t"] if isinstance(b, dict) else b)
            return out
        clash = set()
        for i, t in enumerate(T):
            if t and t.get("k") == "rec" and t.get("bases"):
                by = {}
                for c in set(classes(i)):
                    for f in T[c].get("fields", []):
                        by.setdefault(f["n"], set()).add(c)
                for n, cs in by.items():
                    if len(cs) > 1:
                        clash |= {(c, n) for c in cs}
        if not clash:
            return
        new = lambda c, n: "%s::%s" % (T[c].get("name", "").split("::")[-1], n)
        for c, n in clash:
            for f in T[c]["fields"]:
                if f["n"] == n:
                    f["n"] = new(c, n)

        def go(x):
            if isinstance(x, dict):
                if x.get("k") == "member" and "n" in x and isinstance(x.get("base"), dict) and x["base"].get("t") is not None:
                    t = x["base"]["t"]
                    while T[t]["k"] in ("ref", "ptr"):
                        t = T[t]["to"]
                    if (t, x["n"]) in clash:
                        x["n"] = new(t, x["n"])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        for f in self.fns:
            go(f.get("body"))
            go(f.get("inits"))
            for i in f.get("inits") or []:
                if "field" in i and (f.get("rec"), i["field"]) in clash:
                    i["field"] = new(f["rec"], i["field"])

    def find(self, name, sel=None):
        c = [f for f in self.byname.get(name, []) if f.get("body")]
        if sel:
            c = [f for f in c if sel(f)]
        if not c:
            raise Unsupported("function %s has no instantiated body in the program" % name)
        return c[0]

    def deref(self, tid):
        t = self.types[tid]
        while t["k"] == "ref":
            tid = t["to"]
            t = self.types[tid]
        return tid

    def ty(self, tid):
        return self.types[self.deref(tid)]


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("store", "pc", "ghost", "otype")

    def __init__(self):
        self.store = {}
        self.pc = []
        self.ghost = {}
        self.otype = {}

    def clone(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.otype = dict(self.otype)
        return s


class Frame:
    def __init__(self, fn, site):
        self.fn = fn
        self.env = {}
        self.names = {}
        self.this = None
        self.site = site
        self.loop_ord = 0
        self.loops = {}
        self.stop = True

    def snap(self):
        return (dict(self.env), dict(self.names), self.loop_ord, dict(self.loops))

    def restore(self, s):
        self.env, self.names, self.loop_ord, self.loops = dict(s[0]), dict(s[1]), s[2], dict(s[3])


class Obligation:
    def __init__(self, unit, name, kind, loc, pc, goal):
        self.unit, self.name, self.kind, self.loc, self.pc, self.goal = unit, name, kind, loc, pc, goal
        self.status = None


class LoopCtx:
    """what a loop specification sees"""

    def __init__(self, ex, node, frame, mods, entry, cond):
        self.ex, self.node, self.frame, self.mods, self.entry, self.condnode = ex, node, frame, mods, entry, cond
        self.fn = frame.fn["sq"]
        self.stackfns = [f.fn["sq"] for f in ex.frames]
        self.loc = node.get("l", "")
        self.depth = len(ex.loopstack)
        self.parent = ex.loopstack[-1] if ex.loopstack else None

    # -- naming
    def var(self, *names):
        """value of a variable by name, searched in the innermost frame and the frames it was called from"""
        lv = self.lv(*names)
        return None if lv is None else self.ex.load(lv)

    def lv(self, *names):
        for fr in reversed(self.ex.frames):
            for n in names:
                if n in fr.names:
                    return fr.names[n]
        return None

    def old(self, lv):
        st = self.ex.st
        self.ex.st = self.entry
        try:
            return self.ex.load(lv, check=False)
        finally:
            self.ex.st = st

    def modified(self, lv):
        return any(m[0] == lv.obj for m in self.mods)

    def iters(self):
        """(name, It) of every iterator variable the loop moves"""
        out = []
        seen = set()
        for (obj, path, kind) in sorted(self.mods, key=str):
            if obj in seen:
                continue
            v = self.ex.st.store.get(obj)
            if isinstance(v, It):
                seen.add(obj)
                out.append((obj, v))
        return out

    def counters(self):
        """scalar integer variables the loop modifies and its condition mentions"""
        ids = set()

        def walk(e):
            if isinstance(e, dict):
                if e.get("k") == "ref" and "id" in e:
                    ids.add(e["id"])
                for x in e.values():
                    walk(x)
            elif isinstance(e, list):
                for x in e:
                    walk(x)
        walk(self.condnode)
        out = []
        for fr in reversed(self.ex.frames):
            for i in ids:
                lv = fr.env.get(i)
                if isinstance(lv, LV) and not lv.path and any(m[0] == lv.obj for m in self.mods):
                    v = self.ex.st.store.get(lv.obj)
                    if z3.is_expr(v) and z3.is_int(v):
                        out.append((lv, v))
            break
        return out

    def mod_vals(self, pred):
        out, seen = [], set()
        for (obj, path, kind) in sorted(self.mods, key=str):
            if obj in seen or obj.startswith("$"):
                continue
            v = self.ex.st.store.get(obj)
            if v is not None and pred(v):
                seen.add(obj)
                out.append((LV(obj), v))
        return out

    def mod_seqs(self):
        """containers the loop modifies (ghost output sequences excluded)"""
        return self.mod_vals(lambda v: isinstance(v, Seq))

    def mod_ints(self):
        c = {lv.obj for lv, _ in self.counters()}
        return [(lv, v) for lv, v in self.mod_vals(lambda v: z3.is_expr(v) and z3.is_int(v)) if lv.obj not in c]

    def mod_bools(self):
        return self.mod_vals(lambda v: z3.is_expr(v) and z3.is_bool(v))

    @property
    def it(self):
        x = self.iters()
        return x[0][1] if x else None

    @property
    def kind(self):
        """'edges','vertices','edgelist',... for iterator loops (kind of range), 'seq' for containers,
        'count' for counter loops, else 'while'"""
        ci = self.cond_iters()
        if ci:
            r = ci[0].rng
            return r.kind if isinstance(r, RangeVal) else "seq"
        if self.counters():
            return "count"
        return "while"

    def cond_iters(self):
        ids = []

        def walk(e):
            if isinstance(e, dict):
                if e.get("k") == "ref" and "id" in e:
                    ids.append(e["id"])
                for k, x in e.items():
                    walk(x)
            elif isinstance(e, list):
                for x in e:
                    walk(x)
        walk(self.condnode)
        out = []
        fr = self.ex.frames[-1]
        for i in ids:
            lv = fr.env.get(i)
            if isinstance(lv, LV) and not lv.path and any(m[0] == lv.obj for m in self.mods):
                v = self.ex.st.store.get(lv.obj)
                if isinstance(v, It):
                    out.append(v)
        return out


class Exec:
    def __init__(self, prog, unit, handlers, loop_spec=None, opts=None):
        self.prog = prog
        self.unit = unit
        self.handlers = handlers
        self.loop_spec = loop_spec
        self.opts = opts or {}
        self.obls = []
        self.trivial = 0
        self.trace = []
        self.prefix = []
        self.pending = []
        self.st = State()
        self.frames = []
        self.loopstack = []
        self.fresh_n = 0
        self.discover = 0
        self.writes = None
        self.modcache = {}
        self.rounds = []
        self.shape_hint = {}
        self.inlined = {}
        self.contracts_used = {}
        self.loops_seen = {}
        self.paths = 0
        self.max_paths = self.opts.get("max_paths", 3000)
        self.returned = 0
        self.gen_n = 0
        self.quick = z3.Solver()
        self.qcache = {}
        self.model_preconds = []
        self.max_depth = 40
        self.hcache = {}
        self.assumptions = set()
        self.canaries = []
        self.range_known = {}

    # ------------------------------------------------------------ fresh names
    def fresh_name(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def fresh(self, base, sort=None):
        sort = z3.IntSort() if sort is None else sort
        return z3.Const(self.fresh_name(base), sort)

    def new_gen(self):
        self.gen_n += 1
        return self.gen_n

    # ------------------------------------------------------------ assumptions & obligations
    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        if z3.is_true(c):
            return
        s = simp(c) if not z3.is_quantifier(c) else c
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathEnd()
        self.st.pc.append(c)

    def oblige(self, goal, name, kind="assert", loc=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.discover:
            return
        if len(self.trace) < len(self.prefix):
            self._post_oblige(goal)
            return
        g = simp(goal) if not has_quant(goal) else goal
        loc = loc or self.cur_loc
        if z3.is_true(g) and kind != "lemma":
            self.trivial += 1
            return
        self.obls.append(Obligation(self.unit, name, kind, loc, list(self.st.pc), goal))
        self._post_oblige(goal)

    def _post_oblige(self, goal):
        # after an obligation is recorded the path may rely on it (a failed one is reported anyway)
        if not z3.is_true(goal) and not z3.is_false(goal):
            self.st.pc.append(goal)
        elif z3.is_false(goal):
            raise PathEnd()

    def qf_pc(self):
        out = []
        for c in self.st.pc:
            k = c.get_id()
            q = self.qcache.get(k)
            if q is None:
                q = has_quant(c)
                self.qcache[k] = q
                self.range_known[("keep", k)] = c
            if not q:
                out.append(c)
        return out

    def quick_valid(self, c, timeout=150):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.refuted(z3.Not(c), timeout)

    def feasible(self, c, timeout=150):
        c = simp(c)
        if z3.is_false(c):
            return False
        return not self.refuted(c, timeout)

    def refuted(self, c, timeout):
        """the quantifier-free path condition together with c is unsatisfiable (cached: replayed prefixes ask again)"""
        pc = self.qf_pc()
        key = (tuple([x.get_id() for x in pc]), c.get_id())
        r = self.qcache.get(key)
        if r is None:
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*pc)
            s.add(c)
            r = (s.check() == z3.unsat, pc, c)      # pc and c are kept alive: ids stay unique
            self.qcache[key] = r
        return r[0]

    # ------------------------------------------------------------ branching by replay
    def decide(self, n, feas=None):
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            opts = [i for i in range(n) if feas is None or feas(i)]
            if not opts:
                raise PathEnd()
            d = opts[0]
            for o in reversed(opts[1:]):
                self.pending.append(self.trace + [o])
            self.prefix = self.trace + [d]
        self.trace = self.trace + [d]
        return d

    def assume_local(self, c):
        """an assumption about fresh symbols of a pure sub-computation (dropped with it)"""
        self.st.pc.append(c)

    def branch(self, c):
        """execute both outcomes of a boolean"""
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.Not(c)
        d = self.decide(2, lambda i: self.feasible(c if i == 0 else nc))
        self.assume(c if d == 0 else nc)
        return d == 0

    def explore(self, run, reset=True):
        saved = (self.prefix, self.trace, self.pending)
        self.pending = [[]]
        n = 0
        base = self.trace
        while self.pending:
            self.prefix = self.pending.pop()
            self.trace = []
            n += 1
            self.paths += 1
            if n > self.max_paths:
                raise Unsupported("too many paths (%d)" % n)
            try:
                run()
            except PathEnd:
                pass
        self.prefix, self.trace, self.pending = saved
        return n

    # ------------------------------------------------------------ shapes
    def flatten(self, v):
        """value -> (shape, leaves)"""
        if z3.is_expr(v):
            return ("s", v.sort()), [v]
        if isinstance(v, Rec):
            shp, lv = [], []
            for k, x in v.fields.items():
                s, l = self.flatten(x)
                shp.append((k, s))
                lv += l
            return ("rec", v.name, tuple(shp), v.tid), lv
        if isinstance(v, Seq):
            return ("seq", v.kind, v.eshape), [v.lo, v.hi] + list(v.arrs)
        if isinstance(v, SetV):
            return ("set", v.kind), [v.arr, v.size]
        if isinstance(v, MapV):
            return ("map", v.vtid), [v.pres, v.val, v.size]
        if isinstance(v, Bag):
            return ("bag", v.cmp, v.eshape, v.etid), [v.cnt, v.size]
        if isinstance(v, RangeVal):
            return ("range", v.kind, v.static, v.tid), list(v.params)
        if isinstance(v, It):
            if isinstance(v.rng, RangeVal):
                s, l = self.flatten(v.rng)
                return ("it", s, v.rev, v.tid), l + [v.pos]
            idxs = [p[1] for p in v.rng.path if p[0] == "i"]
            path = tuple(("f", p[1]) if p[0] == "f" else ("i", None, None) for p in v.rng.path)
            return ("lvit", v.rng.obj, path, v.rev, v.tid), idxs + [v.pos]
        if isinstance(v, Opq):
            return ("opq", v), []
        if isinstance(v, Clo):
            return ("opq", v), []
        if isinstance(v, FnV):
            return ("opq", v), []
        if isinstance(v, Ref):
            if v.lv is None:
                return ("opq", v), []
            idxs = [p[1] for p in v.lv.path if p[0] == "i"]
            path = tuple(("f", p[1]) if p[0] == "f" else ("i", None, None) for p in v.lv.path)
            return ("refp", v.lv.obj, path), idxs
        raise Unsupported("flatten %r" % (v,))

    def nleaves(self, shp):
        k = shp[0]
        if k == "s":
            return 1
        if k == "rec":
            return sum(self.nleaves(s) for _, s in shp[2])
        if k == "seq":
            return 2 + self.nleaves(shp[2]) if shp[2] is not None else 2
        if k == "set":
            return 2
        if k == "map":
            return 3
        if k == "bag":
            return 2
        if k == "opq":
            return 0
        if k == "range":
            return len(self.range_sorts(shp[1], shp[2]))
        if k == "it":
            return self.nleaves(shp[1]) + 1
        if k == "lvit":
            return sum(1 for p in shp[2] if p[0] == "i") + 1
        if k == "refp":
            return sum(1 for p in shp[2] if p[0] == "i")
        raise Unsupported("nleaves %r" % (shp,))

    def range_sorts(self, kind, static):
        return self.handlers.range_sorts(self, kind, static)

    def leaf_sorts(self, shp):
        k = shp[0]
        if k == "s":
            return [shp[1]]
        if k == "rec":
            return [x for _, s in shp[2] for x in self.leaf_sorts(s)]
        if k == "seq":
            I = z3.IntSort()
            inner = self.leaf_sorts(shp[2]) if shp[2] is not None else []
            return [I, I] + [z3.ArraySort(I, s) for s in inner]
        if k == "set":
            return [z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort()]
        if k == "map":
            vs = self.scalar_sort(shp[1]) if shp[1] is not None else z3.IntSort()
            return [z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.ArraySort(z3.IntSort(), vs), z3.IntSort()]
        if k == "bag":
            return [z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort()]
        if k == "opq":
            return []
        if k == "range":
            return self.range_sorts(shp[1], shp[2])
        if k == "it":
            return self.leaf_sorts(shp[1]) + [z3.IntSort()]
        if k == "lvit":
            return [z3.IntSort()] * (sum(1 for p in shp[2] if p[0] == "i") + 1)
        if k == "refp":
            return [z3.IntSort()] * sum(1 for p in shp[2] if p[0] == "i")
        raise Unsupported("leaf_sorts %r" % (shp,))

    def unflatten(self, shp, lv):
        lv = list(lv)
        k = shp[0]
        if k == "s":
            return lv[0]
        if k == "rec":
            d = {}
            i = 0
            for n, s in shp[2]:
                m = self.nleaves(s)
                d[n] = self.unflatten(s, lv[i:i + m])
                i += m
            return Rec(shp[1], d, shp[3])
        if k == "seq":
            return Seq(shp[1], shp[2], lv[0], lv[1], lv[2:], 0)
        if k == "set":
            return SetV(lv[0], lv[1], shp[1])
        if k == "map":
            return MapV(lv[0], lv[1], lv[2], shp[1])
        if k == "bag":
            return Bag(lv[0], lv[1], None, shp[1], shp[2], shp[3])
        if k == "opq":
            return shp[1]
        if k == "range":
            return RangeVal(shp[1], lv, shp[2], shp[3])
        if k == "it":
            return It(self.unflatten(shp[1], lv[:-1]), lv[-1], None, shp[2], shp[3])
        if k in ("lvit", "refp"):
            p = []
            i = 0
            for x in shp[2]:
                if x[0] == "f":
                    p.append(x)
                else:
                    p.append(("i", lv[i], None))
                    i += 1
            if k == "refp":
                return Ref(LV(shp[1], p))
            return It(LV(shp[1], p), lv[-1], None, shp[3], shp[4])
        raise Unsupported("unflatten")

    def scalar_sort(self, tid):
        t = self.prog.ty(tid)
        if t["k"] in ("int", "enum"):
            return z3.IntSort()
        if t["k"] == "bool":
            return z3.BoolSort()
        if t["k"] == "float":
            return z3.RealSort()
        if t["k"] in ("ptr", "nullptr") and self.opts.get("ptr_int"):
            return z3.IntSort()
        return None

    def shape_of_type(self, tid):
        s = self.scalar_sort(tid)
        if s is not None:
            return ("s", s)
        tid = self.prog.deref(tid)
        if tid in self.shape_hint:
            return self.shape_hint[tid]
        v = self.handlers.default_value(self, tid, uninit=True)
        if v is None:
            return None
        return self.flatten(v)[0]

    # ------------------------------------------------------------ type ranges
    def trange(self, tid):
        t = self.prog.ty(tid)
        if t["k"] in ("int", "enum"):
            w = t.get("w", 32)
            if t.get("signed"):
                return -(1 << (w - 1)), (1 << (w - 1)) - 1
            return 0, (1 << w) - 1
        return None

    def in_range(self, x, tid):
        r = self.trange(tid)
        if r is None or not z3.is_int(x):
            return z3.BoolVal(True)
        return z3.And(x >= r[0], x <= r[1])

    def note_range(self, x, tid):
        """type invariant: an object of integer type holds a value of that type's range"""
        r = self.trange(tid)
        if r is None or not z3.is_expr(x) or not z3.is_int(x) or z3.is_int_value(x):
            return
        key = x.get_id()
        if key in self.st.ghost.get("#rng", ()):
            return
        d = set(self.st.ghost.get("#rng", ()))
        d.add(key)
        self.st.ghost["#rng"] = d
        self.range_known[key] = x  # keep alive so that ids stay unique
        self.st.pc.append(z3.And(x >= r[0], x <= r[1]))

    def wrap(self, x, tid, op="convert"):
        """exact conversion of a mathematical integer to an integer type"""
        t = self.prog.ty(tid)
        r = self.trange(tid)
        if r is None:
            return x
        x = simp(x)
        if z3.is_int_value(x):
            v = x.as_long()
            if r[0] <= v <= r[1]:
                return x
            w = t.get("w", 32)
            v &= (1 << w) - 1
            if t.get("signed") and v >= 1 << (w - 1):
                v -= 1 << w
            return Z(v)
        c = z3.And(x >= r[0], x <= r[1])
        if self.quick_valid(c):
            return x
        w = t.get("w", 32)
        M = 1 << w
        if t.get("signed"):
            if op == "arith":
                self.oblige(c, "signed arithmetic overflow", "overflow")
                return x
            return z3.If(c, x, ((x + (M >> 1)) % M) - (M >> 1))
        # unsigned
        if op == "arith":
            return z3.If(x >= M, x - M, z3.If(x < 0, x + M, x))
        return z3.If(c, x, x % M)

    # ------------------------------------------------------------ memory
    def load(self, lv, check=True):
        if not isinstance(lv, LV):
            return lv
        if lv.obj not in self.st.store:
            raise Unsupported("load of unknown object %s" % lv.obj)
        v = self.st.store[lv.obj]
        for p in lv.path:
            v = self.step(v, p, check)
        return v

    def step(self, v, p, check=True):
        if p[0] == "f":
            if isinstance(v, Rec):
                if p[1] not in v.fields:
                    raise Unsupported("no field %s in %s" % (p[1], v.name))
                return v.fields[p[1]]
            raise Unsupported("field %s of %r" % (p[1], v))
        idx = p[1]
        if isinstance(v, Seq):
            if check:
                if p[2] is not None and p[2] != v.gen:
                    self.oblige(z3.BoolVal(False), "use of a reference or iterator invalidated by a reallocation", "dangling")
                self.oblige(z3.And(v.lo <= idx, idx < v.hi), "element access within bounds", "bounds")
            return self.seq_get(v, idx)
        if isinstance(v, MapV):
            if check:
                self.oblige(z3.Select(v.pres, idx), "map key present", "bounds")
            return z3.Select(v.val, idx)
        raise Unsupported("index into %r" % (v,))

    def seq_get(self, v, idx):
        if v.eshape is None:
            raise Unsupported("element shape unknown")
        leaves = [simp(z3.Select(a, idx)) for a in v.arrs]
        return self.unflatten(v.eshape, leaves)

    def seq_set(self, s, idx, val):
        shp, leaves = self.flatten(val)
        if s.eshape is None:
            s = self.seq_init_shape(s, shp)
        if not self.shape_eq(s.eshape, shp):
            val = self.coerce(val, s.eshape)
            shp, leaves = self.flatten(val)
        return s.copy(arrs=[z3.Store(a, idx, l) for a, l in zip(s.arrs, leaves)])

    def shape_eq(self, a, b):
        return self.leaf_sorts(a) == self.leaf_sorts(b) and self.field_sig(a) == self.field_sig(b)

    def field_sig(self, shp):
        """the fields of (nested) records, in the order of their leaves"""
        if isinstance(shp, tuple) and shp and shp[0] == "rec":
            return tuple((k, self.field_sig(s)) for k, s in shp[2])
        if isinstance(shp, tuple) and shp and shp[0] == "seq" and shp[2] is not None:
            return ("seq", self.field_sig(shp[2]))
        return None

    def coerce(self, val, shp):
        """val (a structure) as an element of shape shp: empty sequences of not yet known elements get their shape"""
        if isinstance(val, Seq) and val.eshape is None and shp[0] == "seq" and shp[2] is not None and val.kind == shp[1]:
            return self.seq_init_shape(val, shp[2])
        if isinstance(val, Rec) and shp[0] == "rec" and {k for k, _ in shp[2]} == set(val.fields):
            # (fields in the order of the shape)
            return Rec(val.name, {k: val.fields[k] if self.shape_eq(self.flatten(val.fields[k])[0], s) else self.coerce(val.fields[k], s) for k, s in shp[2]}, val.tid)
        raise Unsupported("shape mismatch storing %r" % (val,))

    def seq_init_shape(self, s, shp):
        sorts = self.leaf_sorts(shp)
        arrs = [z3.Const(self.fresh_name("el"), z3.ArraySort(z3.IntSort(), so)) for so in sorts]
        return s.copy(eshape=shp, arrs=arrs)

    def record_write(self, obj, path, kind):
        if self.writes is not None:
            pre = []
            for p in path:
                if p[0] == "i":
                    kind = "data"
                    break
                pre.append(p[1])
            self.writes.add((obj, tuple(pre), kind))

    def store(self, lv, val, kind="all", check=True):
        if not isinstance(lv, LV):
            raise Unsupported("store to a non-location")
        if kind == "all" and self.writes is not None:
            try:
                old = self.st.store.get(lv.obj)
                for p in lv.path:
                    old = self.step(old, p, False) if old is not None else None
            except Unsupported:
                old = None
            if isinstance(old, It) and isinstance(val, It) and self.same_range(old.rng, val.rng):
                kind = "pos"
        self.record_write(lv.obj, lv.path, kind)
        if not lv.path:
            self.st.store[lv.obj] = val
            return
        self.st.store[lv.obj] = self._upd(self.st.store[lv.obj], lv.path, val, check)

    def _upd(self, v, path, val, check):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            if not isinstance(v, Rec):
                raise Unsupported("field store to %r" % (v,))
            if len(path) == 1:
                return v.set(p[1], val)
            return v.set(p[1], self._upd(v.fields[p[1]], path[1:], val, check))
        if isinstance(v, Seq):
            if check:
                if p[2] is not None and p[2] != v.gen:
                    self.oblige(z3.BoolVal(False), "write through a reference or iterator invalidated by a reallocation", "dangling")
                self.oblige(z3.And(v.lo <= p[1], p[1] < v.hi), "element write within bounds", "bounds")
            if len(path) == 1:
                return self.seq_set(v, p[1], val)
            return self.seq_set(v, p[1], self._upd(self.seq_get(v, p[1]), path[1:], val, check))
        if isinstance(v, MapV):
            return MapV(v.pres, z3.Store(v.val, p[1], val), v.size, v.vtid)
        raise Unsupported("indexed store to %r" % (v,))

    def same_range(self, a, b):
        if isinstance(a, RangeVal) and isinstance(b, RangeVal):
            return a.kind == b.kind and a.static == b.static and len(a.params) == len(b.params) and all(
                x.eq(y) for x, y in zip(a.params, b.params))
        if isinstance(a, LV) and isinstance(b, LV):
            return a.obj == b.obj and len(a.path) == len(b.path) and all(
                p[0] == q[0] and (p[1] == q[1] if p[0] == "f" else simp(p[1]).eq(simp(q[1]))) for p, q in zip(a.path, b.path))
        return False

    def temp(self, val, tid=None, name="tmp"):
        k = self.fresh_name(name)
        self.st.store[k] = val
        if tid is not None:
            self.st.otype[k] = tid
        return LV(k)

    def rv(self, x, tid=None):
        """value of an evaluated expression"""
        if isinstance(x, LV):
            v = self.load(x)
            if tid is not None and z3.is_expr(v):
                self.note_range(v, tid)
            return v
        return x

    # ------------------------------------------------------------ havoc
    def havoc_val(self, v, kind, tid=None, base="h"):
        if z3.is_expr(v):
            c = self.fresh(base, v.sort())
            if tid is not None:
                self.note_range(c, tid)
            return c
        if isinstance(v, Seq):
            if v.eshape is None:
                et = v.meta.get("etid")
                shp = self.shape_of_type(et) if et is not None else None
                if shp is None:
                    shp = self.shape_hint.get(et)
                if shp is None:
                    return v if kind == "data" else v
                v = self.seq_init_shape(v, shp)
            arrs = [z3.Const(self.fresh_name(base), a.sort()) for a in v.arrs]
            if kind == "data":
                return v.copy(arrs=arrs)
            hi = self.fresh(base + ".hi")
            lo = v.lo
            if v.kind in ("queue",):
                lo = self.fresh(base + ".lo")
            r = v.copy(arrs=arrs, hi=hi, lo=lo, gen=self.new_gen())
            self.assume(lo >= 0) if not z3.is_int_value(lo) else None
            self.assume(z3.And(hi >= lo, hi - lo < (1 << 62)))
            return r
        if isinstance(v, Rec):
            ft = self.handlers.field_types(self, v)
            return Rec(v.name, {k: self.havoc_val(x, "all", ft.get(k), base + "." + k) for k, x in v.fields.items()}, v.tid)
        if isinstance(v, It):
            if kind == "pos":
                return It(v.rng, self.fresh(base + ".pos"), v.gen, v.rev, v.tid)
            shp, leaves = self.flatten(v)
            return self.unflatten(shp, [self.fresh(base + ".it", l.sort()) for l in leaves])
        if isinstance(v, SetV):
            r = SetV(self.fresh(base, v.arr.sort()), self.fresh(base + ".size"), v.kind)
            self.handlers.set_axioms(self, r)
            return r
        if isinstance(v, MapV):
            r = MapV(self.fresh(base + ".p", v.pres.sort()), self.fresh(base + ".v", v.val.sort()), self.fresh(base + ".size"), v.vtid)
            self.handlers.map_axioms(self, r)
            return r
        if isinstance(v, Bag):
            r = v.copy(cnt=self.fresh(base + ".cnt", v.cnt.sort()), size=self.fresh(base + ".size"), top=None)
            self.handlers.bag_axioms(self, r)
            return r
        if isinstance(v, Opq) or isinstance(v, Clo) or isinstance(v, FnV):
            h = self.handlers.havoc_opq(self, v)
            return h if h is not None else v
        if isinstance(v, Ref):
            if v.lv is None:
                return v
            shp, leaves = self.flatten(v)
            return self.unflatten(shp, [self.fresh(base + ".r", l.sort()) for l in leaves])
        if isinstance(v, RangeVal):
            shp, leaves = self.flatten(v)
            return self.unflatten(shp, [self.fresh(base + ".rg", l.sort()) for l in leaves])
        raise Unsupported("havoc %r" % (v,))

    def havoc(self, obj, pre, kind, base=None):
        lv = LV(obj, [("f", f) for f in pre])
        v = self.load(lv, check=False)
        tid = self.st.otype.get(obj) if not pre else None
        if pre:
            parent = self.load(LV(obj, [("f", f) for f in pre[:-1]]), check=False)
            tid = self.handlers.field_types(self, parent).get(pre[-1])
        base = base or re.sub(r"[#@].*", "", str(obj)) + "".join("." + f for f in pre)
        nv = self.havoc_val(v, kind, tid, base)
        w = self.writes
        self.writes = None
        self.store(lv, nv, check=False)
        self.writes = w

    # ------------------------------------------------------------ expressions
    cur_loc = ""

    def eval(self, e):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s at %s" % (k, e.get("l")))
        if e.get("l"):
            self.cur_loc = e["l"]
        return m(e)

    def val(self, e):
        return self.rv(self.eval(e), e.get("t"))

    def e_const(self, e):
        t = self.prog.ty(e["t"])
        if t["k"] == "bool":
            return z3.BoolVal(e["v"] != "0")
        return Z(int(e["v"]))

    def e_fconst(self, e):
        f = float(e["v"])
        if f == sys.float_info.max:
            self.assume(DBL_MAX > 1000000)
            return DBL_MAX
        return z3.RealVal(str(Fraction(f)))

    def e_str(self, e):
        return Opq("str", e["v"])

    def e_null(self, e):
        return Ref(None)

    def e_zero(self, e):
        return self.handlers.default_value(self, e["t"])

    def e_unsupported(self, e):
        raise Unsupported("expression %s at %s" % (e.get("what"), e.get("l")))

    def lookup(self, id):
        for fr in reversed(self.frames):
            if id in fr.env:
                return fr.env[id]
            if fr.stop:
                break
        return None

    def e_ref(self, e):
        if "fn" in e:
            return FnV(e["fn"])
        r = self.frames[-1].env.get(e["id"])
        if r is not None:
            return r
        if e.get("glob"):
            return self.handlers.global_var(self, e)
        raise Unsupported("variable %s not in scope at %s" % (e.get("n"), e.get("l")))

    def e_this(self, e):
        th = self.frames[-1].this
        if th is None:
            raise Unsupported("this")
        return Ref(th)

    def e_member(self, e):
        b = self.eval(e["base"])
        if e["arrow"]:
            b = self.rv(b)
            if isinstance(b, Ref):
                if b.lv is None:
                    self.oblige(z3.BoolVal(False), "null dereference", "null")
                    raise PathEnd()
                b = b.lv
            else:
                b = self.handlers.deref(self, b)
        if "fn" in e:
            return FnV(e["fn"])
        if isinstance(b, LV):
            # reference members alias their target
            v = self.load(b, check=False)
            if isinstance(v, Rec):
                if e["n"] not in v.fields:
                    r = self.handlers.missing_member(self, v, e, b)
                    if r is not None:
                        return r
                    raise Unsupported("member %s of %s" % (e["n"], v.name))
                fv = v.fields[e["n"]]
                if isinstance(fv, Ref) and not self.is_ptr(e["t"]):
                    if fv.lv is None:
                        raise Unsupported("unset reference member")
                    return fv.lv
                return b.f(e["n"])
            r = self.handlers.member(self, v, e, b)
            if r is not None:
                return r
            raise Unsupported("member %s of %r at %s" % (e["n"], v, e.get("l")))
        if isinstance(b, Rec):
            fv = b.fields.get(e["n"])
            if fv is None:
                r = self.handlers.missing_member(self, b, e, None)
                if r is not None:
                    return r
                raise Unsupported("member %s of rvalue %s" % (e["n"], b.name))
            if isinstance(fv, Ref) and not self.is_ptr(e["t"]):
                return fv.lv
            return fv
        r = self.handlers.member(self, b, e, None)
        if r is not None:
            return r
        raise Unsupported("member %s of %r at %s" % (e["n"], b, e.get("l")))

    def is_ptr(self, tid):
        t = self.prog.types[tid]
        return t["k"] == "ptr" or (t["k"] == "rec" and t.get("name") in ("std::shared_ptr", "std::unique_ptr"))

    def e_cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            return self.val(e["e"])
        if ck in ("ToVoid",):
            self.eval(e["e"])
            return UNIT
        x = self.eval(e["e"])
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "ArrayToPointerDecay", "ConstructorConversion",
                  "UserDefinedConversion", "NoOp", "LValueBitCast", "Dependent"):
            return self.handlers.cast(self, ck, x, e)
        x = self.rv(x, e["e"].get("t"))
        if ck == "IntegralCast":
            if z3.is_bool(x):
                x = z3.If(x, Z(1), Z(0))
            return self.wrap(x, e["t"])
        if ck == "IntegralToBoolean":
            return x != 0 if not z3.is_bool(x) else x
        if ck in ("IntegralToFloating",):
            if z3.is_bool(x):
                x = z3.If(x, Z(1), Z(0))
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        if ck == "FloatingCast":
            return x
        if ck == "FloatingToBoolean":
            return x != 0
        if ck == "FloatingToIntegral":
            t = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            self.oblige(self.in_range(t, e["t"]), "float to integer conversion in range", "overflow")
            return t
        if ck == "PointerToBoolean":
            return self.handlers.ptr_bool(self, x)
        if ck == "NullToPointer":
            return Ref(None)
        raise Unsupported("cast %s at %s" % (ck, e.get("l")))

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.eval(e["e"])
            old = self.rv(lv, e["e"]["t"])
            one = 1 if op == "++" else -1
            if z3.is_expr(old):
                if z3.is_real(old):
                    new = old + one
                else:
                    new = self.wrap(old + one, e["e"]["t"], "arith")
            else:
                new = self.handlers.ptr_add(self, old, Z(one))
            self.store(lv, new)
            return old if e["post"] else lv
        if op == "&":
            lv = self.eval(e["e"])
            if not isinstance(lv, LV):
                raise Unsupported("address of rvalue")
            return Ref(lv)
        if op == "*":
            v = self.val(e["e"])
            return self.deref_ptr(v)
        if op == "!":
            v = self.val(e["e"])
            return z3.Not(v)
        if op == "-":
            v = self.val(e["e"])
            if z3.is_real(v):
                return -v
            return self.wrap(-v, e["t"], "arith")
        if op == "+":
            return self.val(e["e"])
        if op == "__extension__":
            return self.eval(e["e"])
        if op == "~":
            v = self.val(e["e"])
            return self.wrap(-v - 1, e["t"])
        raise Unsupported("unary %s at %s" % (op, e.get("l")))

    def deref_ptr(self, v):
        if isinstance(v, Ref):
            if v.lv is None:
                self.oblige(z3.BoolVal(False), "null dereference", "null")
                raise PathEnd()
            return v.lv
        r = self.handlers.deref(self, v)
        if r is None:
            raise Unsupported("dereference of %r" % (v,))
        return r

    def arith(self, op, a, b, tid):
        if z3.is_bool(a):
            a = z3.If(a, Z(1), Z(0))
        if z3.is_bool(b):
            b = z3.If(b, Z(1), Z(0))
        if op == "<=>":
            if z3.is_real(a) or z3.is_real(b):
                a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
            return z3.If(a < b, Z(-1), z3.If(a == b, Z(0), Z(1)))
        if z3.is_real(a) or z3.is_real(b):
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                self.oblige(b != 0, "floating division by non-zero", "div")
                return a / b
            raise Unsupported("float op " + op)
        if op == "+":
            return self.wrap(a + b, tid, "arith")
        if op == "-":
            return self.wrap(a - b, tid, "arith")
        if op == "*":
            x = a * b
            if self.quick_valid(self.in_range(x, tid)):
                return x
            if self.prog.ty(tid).get("signed"):
                self.oblige(self.in_range(x, tid), "signed arithmetic overflow", "overflow")
                return x
            return x % (1 << self.prog.ty(tid)["w"])
        if op in ("/", "%"):
            self.oblige(b != 0, "division by non-zero", "div")
            if not self.prog.ty(tid).get("signed") or self.quick_valid(z3.And(a >= 0, b > 0)):
                return a / b if op == "/" else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - b * q
        if op in ("&", "|", "^", "<<", ">>"):
            r = self.handlers.bitop(self, op, a, b, tid)
            if r is not None:
                return r
        raise Unsupported("operator %s at %s" % (op, self.cur_loc))

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            a = self.val(e["a"])
            if not self.branch(a):
                return z3.BoolVal(False)
            return self.val(e["b"])
        if op == "||":
            a = self.val(e["a"])
            if self.branch(a):
                return z3.BoolVal(True)
            return self.val(e["b"])
        if op == ",":
            self.eval(e["a"])
            return self.eval(e["b"])
        if op == "=":
            b = self.val(e["b"])
            a = self.eval(e["a"])
            self.assign(a, b, e)
            return a
        a = self.val(e["a"])
        b = self.val(e["b"])
        if not z3.is_expr(a) or not z3.is_expr(b):
            return self.handlers.binop(self, op, a, b, e)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if z3.is_bool(a) and z3.is_bool(b) and op in ("==", "!="):
                return a == b if op == "==" else a != b
            if z3.is_bool(a):
                a = z3.If(a, Z(1), Z(0))
            if z3.is_bool(b):
                b = z3.If(b, Z(1), Z(0))
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        return self.arith(op, a, b, e["t"])

    def e_assignop(self, e):
        lv = self.eval(e["a"])
        b = self.val(e["b"])
        a = self.rv(lv, e["a"]["t"])
        op = e["op"][:-1]
        if not z3.is_expr(a):
            self.store(lv, self.handlers.binop(self, op, a, b, e))
            return lv
        if z3.is_bool(a) and op in ("|", "&", "^") and z3.is_bool(b):
            r = z3.Or(a, b) if op == "|" else z3.And(a, b) if op == "&" else z3.Xor(a, b)
            self.store(lv, r)
            return lv
        if z3.is_bool(a) and op in ("|", "&"):
            bb = b if z3.is_bool(b) else b != 0
            self.store(lv, z3.Or(a, bb) if op == "|" else z3.And(a, bb))
            return lv
        ct = e["ct"]
        if z3.is_int(a) and self.prog.ty(ct)["k"] == "float":
            a = z3.ToReal(a)
        r = self.arith(op, a, b, ct)
        tt = self.prog.ty(e["t"])
        if tt["k"] in ("int",) and z3.is_int(r):
            r = self.wrap(r, e["t"])
        self.store(lv, r)
        return lv

    def assign(self, a, b, e=None):
        if isinstance(a, LV):
            cur = None
            try:
                cur = self.load(a, check=False)
            except Unsupported:
                pass
            if isinstance(cur, Opq) and self.handlers.opq_assign(self, a, cur, b):
                return
            self.store(a, b)
            return
        if isinstance(a, Opq) and self.handlers.opq_assign(self, None, a, b):
            return
        raise Unsupported("assignment to %r at %s" % (a, self.cur_loc))

    def e_cond(self, e):
        c = self.val(e["c"])
        if self.branch(c):
            return self.eval(e["a"])
        return self.eval(e["b"])

    def e_index(self, e):
        a = self.eval(e["a"])
        b = self.val(e["b"])
        return self.handlers.index(self, a, b)

    def e_throw(self, e):
        if e.get("e") is None:
            raise Thrown("rethrow")
        tname = self.prog.ty(e["e"]["t"]).get("name", "?")
        raise Thrown(tname)

    def e_lambda(self, e):
        caps = {}
        for c in e["caps"]:
            if c.get("this"):
                caps["this"] = ("this", self.frames[-1].this)
            elif c.get("ref"):
                lv = self.eval(c["init"])
                if not isinstance(lv, LV):
                    lv = self.temp(lv)
                caps[c["id"]] = ("ref", lv, c["n"])
            else:
                v = self.rv(self.eval(c["init"]))
                caps[c["id"]] = ("val", v, c["n"])
        return Clo(self.prog.deref(e["t"]), caps)

    def e_initlist(self, e):
        return self.handlers.initlist(self, e)

    def e_construct(self, e):
        return self.handlers.construct(self, e)

    def e_call(self, e):
        if "fn" not in e:
            c = self.rv(self.eval(e["callee"]))
            args = [self.eval(a) for a in e["args"]]
            return self.apply_value(c, args, e)
        fn = self.prog.fns[e["fn"]]
        return self.handlers.call(self, fn, e)

    def e_new(self, e):
        return self.handlers.new(self, e)

    def e_delete(self, e):
        return self.handlers.delete(self, e)

    def e_arraycopy(self, e):
        return self.rv(self.eval(e["e"]))

    def e_pseudodtor(self, e):
        return UNIT

    # ------------------------------------------------------------ calls
    def apply_value(self, c, args, e=None, argtypes=None):
        """call a callable value with evaluated arguments"""
        if isinstance(c, LV):
            clv = c
            c = self.load(c)
        else:
            clv = None
        if isinstance(c, FnV):
            return self.inline(self.prog.fns[c.fn], None, args, e)
        if isinstance(c, Clo):
            ops = self.prog.types[c.tid].get("ops", [])
            f = self.pick_op(ops, args)
            return self.inline(f, clv or self.temp(c), args, e, clo=c)
        r = self.handlers.apply(self, c, args, e)
        if r is None:
            raise Unsupported("call of %r" % (c,))
        return r

    def pick_op(self, ops, args):
        if not ops:
            raise Unsupported("no instantiated call operator")
        best = None
        for o in ops:
            f = self.prog.fns[o]
            if f.get("body") and len(f["params"]) == len(args):
                best = f
                break
        if best is None:
            raise Unsupported("no matching call operator")
        return best

    def inline(self, fn, this, args, e=None, clo=None, ctor=False):
        if not fn.get("body"):
            raise Unsupported("call of function without body or contract: %s" % fn["q"])
        if len(self.frames) > self.max_depth:
            raise Unsupported("inlining too deep: %s" % fn["q"])
        if any(f.fn is fn for f in self.frames) and not clo:
            if sum(1 for f in self.frames if f.fn is fn) > 3:
                raise Unsupported("recursive call of %s without a contract" % fn["q"])
        site = (self.frames[-1].site if self.frames else ()) + (fn["id"], (e or {}).get("l", ""))
        fr = Frame(fn, site)
        fr.stop = True
        self.inlined[fn["sq"]] = self.inlined.get(fn["sq"], 0) + 1
        if this is not None and not isinstance(this, LV):
            this = self.temp(this)
        fr.this = this
        if clo is not None:
            for k, c in clo.caps.items():
                if c[0] == "this":
                    fr.this = c[1]
                elif c[0] == "ref":
                    fr.env[k] = c[1]
                    fr.names[c[2]] = c[1]
                else:
                    if isinstance(this, LV) and isinstance(self.st.store.get(this.obj), Clo) and not this.path:
                        # by-copy captures live in the closure object
                        lv = LV(this.obj + "$cap%s" % k)
                        if lv.obj not in self.st.store:
                            self.st.store[lv.obj] = c[1]
                        fr.env[k] = lv
                    else:
                        fr.env[k] = self.temp(c[1], name=c[2])
                    fr.names[c[2]] = fr.env[k]
        for i, p in enumerate(fn["params"]):
            if i >= len(args):
                raise Unsupported("missing argument for %s" % fn["q"])
            a = args[i]
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        loc = self.cur_loc
        try:
            if fn.get("inits") is not None and ctor:
                self.run_inits(fn)
            try:
                self.exec(fn["body"])
                r = UNIT
            except ReturnE as x:
                r = x.v
        finally:
            self.frames.pop()
            self.cur_loc = loc
        rt = self.prog.types[fn["ret"]]
        if rt["k"] != "ref" and isinstance(r, LV):
            r = self.rv(r)
        return r

    def bind_param(self, fr, p, a):
        t = self.prog.types[p["t"]]
        if t["k"] == "ref":
            if not isinstance(a, LV):
                a = self.temp(a, t["to"], p["n"] or "arg")
            fr.env[p["id"]] = a
            if p["n"]:
                fr.names[p["n"]] = a
        else:
            v = self.rv(a)
            k = "%s#%d@%x" % (p["n"], p["id"], crc(fr.site))
            self.st.store[k] = v
            self.st.otype[k] = p["t"]
            fr.env[p["id"]] = LV(k)
            if p["n"]:
                fr.names[p["n"]] = LV(k)

    def run_inits(self, fn):
        this = self.frames[-1].this
        for i in fn["inits"]:
            if i.get("deleg"):
                v = self.eval(i["e"])
                v = self.rv(v)
                self.store(this, v)
                continue
            if "field" in i:
                v = self.eval(i["e"])
                cur = self.load(this, check=False)
                if not isinstance(cur, Rec):
                    raise Unsupported("constructor of non-record")
                ft = self.handlers.field_types(self, cur).get(i["field"])
                if ft is not None and self.prog.types[ft]["k"] == "ref":
                    if not isinstance(v, LV):
                        v = self.temp(v)
                    v = Ref(v)
                else:
                    v = self.rv(v)
                self.store(this.f(i["field"]), v)
            elif "base" in i:
                v = self.rv(self.eval(i["e"]))
                self.handlers.base_init(self, this, i["base"], v)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        if s.get("l"):
            self.cur_loc = s["l"]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement kind %s at %s" % (s["k"], s.get("l")))
        m(s)

    def s_unsupported(self, s):
        raise Unsupported("statement %s at %s" % (s.get("what"), s.get("l")))

    def s_null(self, s):
        pass

    def s_block(self, s):
        fr = self.frames[-1]
        names = dict(fr.names)
        try:
            for x in s["b"]:
                self.exec(x)
        finally:
            if s is not fr.fn.get("body"):
                fr.names = names   # the names declared in the block go out of scope

    def s_expr(self, s):
        self.eval(s["e"])

    def s_decl(self, s):
        for v in s["vars"]:
            self.declare(v)

    def objkey(self, v):
        fr = self.frames[-1]
        return "%s#%d@%x" % (v["n"] or "anon", v["id"], crc(fr.site))

    def declare(self, v):
        fr = self.frames[-1]
        t = self.prog.types[v["t"]]
        if v["k"] == "decomp":
            return self.declare_decomp(v, t)
        if t["k"] == "ref":
            x = self.eval(v["init"])
            if not isinstance(x, LV):
                k = self.objkey(v)
                self.st.store[k] = x
                self.st.otype[k] = t["to"]
                self.record_write(k, (), "all")
                x = LV(k)
            else:
                x = self.handlers.tag_ref(self, x)
            fr.env[v["id"]] = x
            fr.names[v["n"]] = x
            return
        if v.get("init") is not None:
            x = self.rv(self.eval(v["init"]), v["init"].get("t"))
        else:
            x = self.handlers.default_value(self, v["t"], uninit=True)
        k = self.objkey(v)
        for kk in [kk for kk in self.st.store if isinstance(kk, str) and kk.startswith(k + "$cap")]:
            del self.st.store[kk]
        self.record_write(k, (), "all")
        self.st.store[k] = x
        self.st.otype[k] = v["t"]
        fr.env[v["id"]] = LV(k)
        fr.names[v["n"]] = LV(k)

    def declare_decomp(self, v, t):
        fr = self.frames[-1]
        x = self.eval(v["init"])
        k = self.objkey(v)
        if t["k"] == "ref" and isinstance(x, LV):
            base = self.handlers.tag_ref(self, x)
        else:
            x = self.rv(x)
            self.st.store[k] = x
            self.st.otype[k] = v["t"]
            base = LV(k)
        fr.env[v["id"]] = base
        for b in v["binds"]:
            if "expr" in b:
                y = self.eval(b["expr"])
                if not isinstance(y, LV):
                    y = self.temp(y, b["t"], b["n"])
            else:
                y = self.handlers.tuple_get(self, base, b["i"], b)
                if not isinstance(y, LV):
                    y = self.temp(y, b["t"], b["n"])
            fr.env[b["id"]] = y
            if "hid" in b:
                fr.env[b["hid"]] = y
            fr.names[b["n"]] = y

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cvar"):
            self.declare(s["cvar"])
        c = self.val(s["c"])
        if self.branch(c):
            self.exec(s["a"])
        else:
            self.exec(s["b"])

    def s_return(self, s):
        if s["e"] is None:
            raise ReturnE(UNIT)
        rt = self.prog.types[self.frames[-1].fn["ret"]]
        x = self.eval(s["e"])
        if rt["k"] != "ref":
            x = self.rv(x, s["e"].get("t"))
        elif not isinstance(x, LV):
            x = self.temp(x)
        raise ReturnE(x)

    def s_break(self, s):
        raise BreakE()

    def s_continue(self, s):
        raise ContinueE()

    def s_switch(self, s):
        c = self.val(s["c"])
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        items = []
        default = None
        for i, x in enumerate(body):
            y = x
            while y["k"] in ("case", "default"):
                if y["k"] == "case":
                    items.append((self.val(y["v"]), i))
                else:
                    default = i
                y = y["b"]
        start = None
        for v, i in items:
            if self.branch(c == v):
                start = i
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for x in body[start:]:
                y = x
                while y is not None and y["k"] in ("case", "default"):
                    y = y["b"]
                self.exec(y)
        except BreakE:
            pass

    def s_try(self, s):
        try:
            self.exec(s["b"])
        except Thrown as t:
            for h in s["h"]:
                self.exec(h["b"])
                return
            raise

    # ------------------------------------------------------------ loops
    def s_while(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.exec(s["b"]), None, s["c"])

    def cond_of(self, s):
        if s.get("cvar"):
            self.declare(s["cvar"])
        return self.val(s["c"])

    def s_for(self, s):
        if s["init"]:
            self.exec(s["init"])
        self.loop(s, (lambda: self.val(s["c"])) if s["c"] else (lambda: z3.BoolVal(True)), lambda: self.exec(s["b"]),
                  (lambda: self.eval(s["inc"])) if s["inc"] else None, s["c"])

    def s_do(self, s):
        self.loop(s, lambda: self.val(s["c"]), lambda: self.exec(s["b"]), None, s["c"], post=True)

    def s_rangefor(self, s):
        self.exec(s["rdecl"])
        self.exec(s["begin"])
        self.exec(s["end"])

        def body():
            self.declare(s["var"])
            self.exec(s["b"])
        self.loop(s, lambda: self.val(s["cond"]), body, lambda: self.eval(s["inc"]), s["cond"])

    def loop(self, node, cond, body, inc, condnode, post=False):
        fr = self.frames[-1]
        if id(node) not in fr.loops:
            fr.loops[id(node)] = fr.loop_ord
            fr.loop_ord += 1
        ordn = fr.loops[id(node)]
        lname = "%s#loop%d" % (fr.fn["sq"], ordn)
        unroll = self.handlers.unroll(self, node, lname) if hasattr(self.handlers, "unroll") else 0
        if unroll:
            return self.unrolled(node, cond, body, inc, post, unroll)
        mods = self.loop_mods(node, cond, body, inc, post)
        # ghost variables that loop specifications update at the end of an iteration
        mods = mods | {(n, (), "all") for n in self.opts.get("ghosts", ()) if n in self.st.store}
        entry = self.st.clone()
        ctx = LoopCtx(self, node, fr, mods, entry, condnode)
        ctx.name = lname
        ctx.ord = ordn
        if self.loop_spec is None:
            raise Unsupported("loop without specification: %s at %s" % (lname, node.get("l")))
        self.loops_seen[(lname, node.get("l"))] = ctx.kind
        loc = node.get("l")

        def check(stage):
            for nm, f in self.loop_invs(ctx):
                self.oblige(f, "%s [%s %s]" % (nm, lname, stage), "invariant " + stage, loc)
        ctx.phase = "init"
        check("initially")
        # arbitrary iteration
        for m in sorted(mods, key=str):
            if m[0] in self.st.store:
                self.havoc(*m)
        self.handlers.havoc_ghost(self, ctx)
        ctx.phase = "assume"
        for nm, f in self.loop_invs(ctx):
            self.assume(f)
        ctx.head = self.st.clone()
        ctx.phase = "run"
        variant0 = self.handlers.variant(self, ctx)
        self.loopstack.append(ctx)
        depth = len(self.loopstack)
        outer_writes, self.writes = self.writes, set()
        try:
            if not post:
                c = cond()
                if self.branch(c):
                    if not self.discover:
                        self.canaries.append((lname + " body", list(self.st.pc)))
                    try:
                        body()
                    except ContinueE:
                        pass
                    except BreakE:
                        return
                    if inc:
                        inc()
                    ctx.phase = "preserve"
                    check("preserved")
                    self.check_variant(ctx, variant0)
                    raise PathEnd()
                return
            else:
                try:
                    body()
                except ContinueE:
                    pass
                except BreakE:
                    return
                c = cond()
                if self.branch(c):
                    ctx.phase = "preserve"
                    check("preserved")
                    self.check_variant(ctx, variant0)
                    raise PathEnd()
                return
        finally:
            del self.loopstack[depth - 1:]
            mine = self.writes
            self.writes = outer_writes
            if self.writes is not None:
                self.writes |= mine
            if not self.discover:
                self.check_frame(ctx, mine, mods)

    def check_frame(self, ctx, writes, mods):
        """the locations the loop body really wrote must be among those that were made arbitrary at the loop head"""
        for w in writes:
            if w[0] not in ctx.entry.store:
                continue
            if not any(m[0] == w[0] and w[1][:len(m[1])] == m[1] and (len(m[1]) < len(w[1]) or m[2] == "all" or m[2] == w[2]) for m in mods):
                raise Unsupported("frame of loop %s: write to %s not discovered" % (ctx.name, w))

    def check_variant(self, ctx, v0):
        if v0 is None:
            return
        v1 = self.handlers.variant(self, ctx)
        self.oblige(z3.And(v0 >= 0, v1 < v0), "loop variant decreases [%s]" % ctx.name, "termination")

    def unrolled(self, node, cond, body, inc, post, n):
        for k in range(n + 1):
            if not post or k > 0:
                c = cond()
                if not self.branch(c):
                    return
            if k == n:
                self.oblige(z3.BoolVal(False), "loop unrolled completely", "unwind")
                raise PathEnd()
            try:
                body()
            except ContinueE:
                pass
            except BreakE:
                return
            if inc:
                inc()

    def loop_invs(self, ctx):
        out = []
        for n, v in ctx.iters():
            lo, hi = self.handlers.it_bounds(self, v)
            out.append(("iterator within its range", z3.And(lo <= v.pos, v.pos <= hi)))
        if self.discover:
            return out
        r = self.loop_spec(ctx)
        if r is None:
            raise Unsupported("no invariant for loop %s (%s) at %s" % (ctx.name, ctx.kind, ctx.loc))
        return out + list(r)

    def loop_mods(self, node, cond, body, inc, post):
        """which locations may the loop write?  found by executing its body until no new location appears"""
        fr = self.frames[-1]
        # (inside the discovery of an outer loop the state depends on what that has made arbitrary so far)
        key = (id(node), fr.site, tuple(self.rounds))
        if key in self.modcache and all(m[0] in self.st.store for m in self.modcache[key]):
            mods = self.modcache[key]
            if self.writes is not None:
                self.writes |= {m for m in mods if m[0] in self.st.store}
            return mods
        outer_writes = self.writes
        snap_st = self.st
        snap_frames = [(f, f.snap()) for f in self.frames]
        snap_stack = list(self.loopstack)
        fn0, loc0 = self.fresh_n, self.cur_loc
        existing = set(self.st.store.keys())
        mods = set()
        rounds0 = self.rounds
        self.discover += 1
        try:
            while True:
                allw = set()
                self.rounds = rounds0 + [frozenset(mods)]

                def run():
                    self.st = snap_st.clone()
                    del self.frames[len(snap_frames):]
                    for f, s in snap_frames:
                        f.restore(s)
                    self.loopstack[:] = snap_stack
                    self.fresh_n = fn0 + 100000 * self.discover
                    for m in sorted(mods, key=str):
                        if m[0] in self.st.store:
                            self.havoc(*m)
                    self.handlers.havoc_ghost(self, None)
                    self.writes = set()
                    try:
                        if not post:
                            self.assume(cond())
                        try:
                            body()
                        except (ContinueE, BreakE):
                            pass
                        if inc:
                            inc()
                        if post:
                            cond()
                    except (ReturnE, Thrown, BreakE, ContinueE):
                        pass
                    finally:
                        allw.update(self.writes)
                self.explore(run)
                new = {m for m in allw if m[0] in existing}
                # normalise: an 'all' write subsumes parts
                new |= mods
                norm = set()
                for m in new:
                    dominated = any(o != m and o[0] == m[0] and m[1][:len(o[1])] == o[1] and
                                    (len(o[1]) < len(m[1]) or (o[2] == "all" and m[2] != "all")) for o in new)
                    if not dominated:
                        norm.add(m)
                if norm <= mods and mods <= norm:
                    break
                mods = norm
        finally:
            self.discover -= 1
            self.rounds = rounds0
            self.st = snap_st
            del self.frames[len(snap_frames):]
            for f, s in snap_frames:
                f.restore(s)
            self.loopstack[:] = snap_stack
            self.fresh_n = fn0
            self.cur_loc = loc0
            self.writes = outer_writes
        self.modcache[key] = mods
        if self.writes is not None:
            self.writes |= mods
        return mods

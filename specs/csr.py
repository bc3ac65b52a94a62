"""C18: loading a compressed graph (lemma functions of drivers/lem18.cpp).
row_index_[v] is the number of loaded edges with a source below v, col_index_ holds the targets in loading order."""
import re
from .common import *
from cppvc.unit import Lemma
from .load import edges_of, leafpos


def rep(u):
    """row index R, column index C, edge values EV and vertex values VV of the graph"""
    g = u.ex.rv(u.garg)
    out = {}
    for k, x in g.fields.items():
        if isinstance(x, Seq):
            if k.endswith("row_index_"):
                out["R"] = x
            elif k.endswith("col_index_"):
                out["C"] = x
            elif k.endswith("partition_"):
                out["P"] = x
            elif "row_values" in k:
                out["VV"] = x
            elif "col_values" in k:
                out["EV"] = x
            elif k == "v_":  # only one of the two kinds of values
                out["VV" if u.noev else "EV"] = x
    return out


def before(u, f, args):
    ex = u.ex
    u.garg = args[0]
    X = ex.rv(args[1])
    u.S, u.T, u.W = edges_of(X)
    u.noev = u.W is None
    u.m = X.hi
    d = rep(u)
    u.d0 = d
    k = z3.Int("k")
    for a in (u.S, u.T):
        ex.assume(FA([k], z3.And(0 <= a[k], a[k] < 2 ** 32 - 1), [a[k]]))  # the id type can hold the number of vertices
    if u.W is not None and u.W.range() == I:
        ex.assume(FA([k], z3.And(-2 ** 31 <= u.W[k], u.W[k] < 2 ** 31), [u.W[k]]))  # range of int
    ex.assume(u.m < 2 ** 32)  # the edge index type can hold the number of edges
    if len(args) == 7:
        ex.assume(z3.And(ex.rv(args[2]) < 2 ** 32, ex.rv(args[3]) < 2 ** 32))
    # a graph without edges: new, or load_vertices() was called
    ex.assume(d["C"].hi == 0)
    if "EV" in d:
        ex.assume(d["EV"].hi == 0)
    R = d["R"]
    ex.assume(z3.And(R.hi != 1, R.hi < 2 ** 32))
    ex.assume(FA([k], R.arrs[0][k] == 0, [R.arrs[0][k]]))
    if "VV" in d:
        ex.assume(d["VV"].hi <= z3.If(R.hi == 0, 0, R.hi - 1))


def inv(u, K, final=False):
    d = rep(u)
    v, j, i = z3.Ints("v j i")
    R, C = d["R"], d["C"]
    r, c = named(u.ex, R.arrs[0]), named(u.ex, C.arrs[0])
    S, T = u.S, u.T
    out = [("one column entry per edge", z3.And(0 <= K, K <= u.m, C.lo == 0, C.hi == K, R.lo == 0, R.hi >= 0)),
           ("columns are the targets", FA([j], z3.Implies(z3.And(0 <= j, j < K), c[j] == T[j]), [c[j]], )),
           ("sources are ordered", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < K), S[i] <= S[j]), [(S[i], S[j])])),
           ("row starts are edge numbers", FA([v], z3.Implies(z3.And(0 <= v, v < R.hi), z3.And(0 <= r[v], r[v] <= K)), [r[v]])),
           ("row starts ascend", FA([v, i], z3.Implies(z3.And(0 <= v, v < i, i < R.hi), r[v] <= r[i]), [(r[v], r[i])])),
           ("an edge comes before the start of a row exactly if its source does",
            FA([v, j], z3.Implies(z3.And(0 <= v, v < R.hi, 0 <= j, j < K), (S[j] < v) == (j < r[v])), [(r[v], S[j])]))]
    if "EV" in d:
        w = named(u.ex, d["EV"].arrs[0])
        out.append(("edge values are those loaded", FA([j], z3.Implies(z3.And(0 <= j, j < K), w[j] == u.W[j]), [w[j]])))
        out.append(("one value per edge", z3.And(d["EV"].lo == 0, d["EV"].hi == K)))
    return out


def roles(u, ints):
    """the last source, the largest target, the number of lines among the integers a loop changes"""
    ex = u.ex
    wide = [x for lv, x in ints if ex.prog.ty(ex.st.otype[lv.obj]).get("w", 32) == 64] if ints else []
    rest = [(lv.obj, x) for lv, x in ints if not any(x is y for y in wide)]
    top = [x for n, x in rest if re.match(r"(?i).*(max|larg|high|top)", n)]
    if len(top) != 1:
        top = [x for _, x in rest[1:]]
    last = [x for _, x in rest if not any(x is y for y in top)]
    return last[0] if last else None, top[0] if top else None, wide[0] if wide else None


def loop(u, ctx):
    gobj = u.garg.obj
    its, cs = ctx.cond_iters(), ctx.counters()
    K = its[0].pos if its else cs[0][1] if cs else None
    if K is None or not any(m[0] == gobj for m in ctx.mods):
        return None
    d = rep(u)
    j = z3.Int("j")
    out = inv(u, K)
    R = d["R"]
    out.append(("rows up to the last source", z3.If(K == 0, R.hi == 0, R.hi == u.S[K - 1] + 1)))
    last, top, lines = roles(u, [(lv, x) for lv, x in ctx.mod_ints() if lv.obj != gobj])
    if last is not None:
        out.append(("the last source", z3.If(K == 0, last == 0, last == u.S[K - 1])))
    if top is not None:
        out += [("no target is larger", z3.And(0 <= top, top < 2 ** 32 - 1)), ("no target is larger", FA([j], z3.Implies(z3.And(0 <= j, j < K), u.T[j] <= top), [u.T[j]]))]
        out.append(("it is a target", z3.Or(top == 0, EX([j], z3.And(0 <= j, j < K, u.T[j] == top)))))
    if lines is not None:
        out.append(("lines read", lines == K))
    return out


def after(u, f, args, r):
    ex = u.ex


def throws(u, f, args, t):
    i, j = z3.Ints("i j")
    u.ex.oblige(EX([i, j], z3.And(0 <= i, i < j, j < u.m, u.S[j] < u.S[i])), "post: an exception means that the edges are not ordered", "post")


REG.setdefault("C18", []).append(Lemma("load_edges", "lem18", "vcd::C18_load_edges", before=before, loop=loop, after=after, throws=throws))


# ---------------------------------------------------------------- load_vertices, before or after load_edges
def vbefore(u, f, args):
    ex = u.ex
    u.garg = args[0]
    X = ex.rv(args[1])
    fs = dict((p[-1], X.arrs[i]) for p, i, _ in leafpos(X.eshape))
    u.S, u.W, u.m = fs["id"], fs.get("value"), X.hi
    u.noev = u.W is not None and "EV" not in {("EV" if "col_values" in k else "") for k in ex.rv(u.garg).fields}
    d = u.d0 = rep(u)
    R, C = d["R"], d["C"]
    r = R.arrs[0]
    k, i = z3.Ints("k i")
    ex.assume(FA([k], z3.And(0 <= u.S[k], u.S[k] < 2 ** 32 - 1), [u.S[k]]))  # the id type can hold the number of vertices
    if u.W is not None and u.W.range() == I:
        ex.assume(FA([k], z3.And(-2 ** 31 <= u.W[k], u.W[k] < 2 ** 31), [u.W[k]]))  # range of int
    ex.assume(z3.And(R.hi != 1, R.hi < 2 ** 32, C.hi < 2 ** 32, u.m < 2 ** 32))
    # rows as load_edges leaves them
    ex.assume(z3.Implies(R.hi == 0, C.hi == 0))
    ex.assume(z3.Implies(R.hi > 0, r[R.hi - 1] == C.hi))
    if "VV" in d:
        ex.assume(d["VV"].hi <= z3.If(R.hi == 0, 0, R.hi - 1))
    u.n0 = z3.If(R.hi == 0, 0, R.hi - 1)
    u.cnt = z3.IntVal(0)
    if len(args) > 2:
        u.cnt = ex.rv(args[2])
        ex.assume(u.cnt < 2 ** 32)
    v = z3.Int("v")
    u.LAST = z3.Function("last", I, I, I)
    ex.assume(FA([v], u.LAST(v, 0) == -1, [u.LAST(v, 0)]))


def structure(u):
    """edges and rows stay; new vertices have no edges"""
    d = rep(u)
    R, R0, C, C0 = d["R"], u.d0["R"], d["C"], u.d0["C"]
    v, j = z3.Ints("v j")
    r, c = named(u.ex, R.arrs[0]), named(u.ex, C.arrs[0])
    out = [("edges stay", z3.And(C.lo == 0, C.hi == C0.hi, R.lo == 0, FA([j], z3.Implies(z3.And(0 <= j, j < C0.hi), c[j] == C0.arrs[0][j]), [c[j]]))),
           ("rows stay", FA([v], z3.Implies(z3.And(0 <= v, v < R0.hi), r[v] == R0.arrs[0][v]), [r[v]])),
           ("new rows come after all edges", FA([v], z3.Implies(z3.And(R0.hi <= v, v < R.hi), r[v] == C.hi), [r[v]])),
           ("vertices stay", z3.Or(R.hi == R0.hi, R.hi > R0.hi))]
    if "EV" in d:
        w = named(u.ex, d["EV"].arrs[0])
        out.append(("edge values stay", z3.And(d["EV"].hi == u.d0["EV"].hi, FA([j], w[j] == u.d0["EV"].arrs[0][j], [w[j]]))))
    return out


def values(u, K):
    d = rep(u)
    if "VV" not in d or u.W is None:
        return []
    V, V0, L = d["VV"], u.d0["VV"], u.LAST
    v = z3.Int("v")
    val = named(u.ex, V.arrs[0])
    return [("a value for every vertex", z3.And(V.lo == 0, V.hi >= z3.If(d["R"].hi == 0, 0, d["R"].hi - 1), V.hi >= V0.hi)),
            ("vertex values are the last ones loaded, the others as before",
             FA([v], z3.Implies(z3.And(0 <= v, v < V.hi), val[v] == z3.If(L(v, K) >= 0, u.W[L(v, K)], z3.If(v < V0.hi, V0.arrs[0][v], 0))), [val[v]])),
            ("last entry of a vertex", FA([v], z3.And(-1 <= L(v, K), L(v, K) < K, z3.Implies(L(v, K) >= 0, u.S[L(v, K)] == v)), [L(v, K)]))]


def vloop(u, ctx):
    gobj = u.garg.obj
    its, cs = ctx.cond_iters(), ctx.counters()
    K = its[0].pos if its else cs[0][1] if cs else None
    if K is None:
        return None
    j, v = z3.Ints("j v")
    out = []
    for lv, x in ctx.mod_ints():
        if lv.obj == gobj:
            continue
        out += [("ids have 32 bits", z3.And(0 <= x, x < 2 ** 32 - 1)), ("no id is larger", FA([j], z3.Implies(z3.And(0 <= j, j < K), u.S[j] <= x), [u.S[j]])),
                ("it is an id", z3.Or(x == 0, EX([j], z3.And(0 <= j, j < K, u.S[j] == x))))]
    if any(m[0] == gobj for m in ctx.mods):
        if ctx.phase == "assume":
            L = u.LAST
            u.ex.assume(FA([v], L(v, K + 1) == z3.If(u.S[K] == v, K, L(v, K)), [L(v, K + 1), L(v, K)]))
        out += structure(u) + values(u, K)
    return out


def vafter(u, f, args, res):
    ex = u.ex
    d = rep(u)
    R = d["R"]
    j = z3.Int("j")
    n = z3.If(R.hi == 0, 0, R.hi - 1)
    ex.assume(ex.fresh("first") == u.S[0])
    for nm, q in structure(u) + (values(u, u.m) if not ex.quick_valid(u.m == 0) else []):
        ex.oblige(z3.Implies(u.m > 0, q) if "val" in nm and "edge" not in nm else q, "post: " + nm, "post")
    ex.oblige(FA([j], z3.Implies(z3.And(0 <= j, j < u.m), u.S[j] < n), [u.S[j]]), "post: every id is a vertex", "post")
    ex.oblige(z3.And(n >= u.n0, n >= u.cnt, z3.Or(n == u.n0, n == u.cnt, EX([j], z3.And(0 <= j, j < u.m, u.S[j] == n - 1)))), "post: number of vertices", "post")


REG.setdefault("C18", []).append(Lemma("load_vertices", "lem18", "vcd::C18_load_vertices", before=vbefore, loop=vloop, after=vafter))

"""C19, C20: what load_edges leaves in a dynamic graph (lemma functions of drivers/lem19.cpp).
Edge j of the loaded range goes to row source(j) at position (old length) + (number of earlier edges with that source), so
each row is its old content followed by the loaded edges with that source in their order."""
from .common import *
from cppvc.unit import Lemma


def leafpos(shp, path=()):
    """(path of field names, number of the first array, shape) of every part of an element shape"""
    i = 0
    out = []
    if shp[0] == "rec":
        for k, s in shp[2]:
            for p, j, q in leafpos(s, path + (k,)):
                out.append((p, i + j, q))
            i += nleaves(s)
    elif shp[0] == "seq":
        out.append((path, 0, shp))
    else:
        out.append((path, 0, shp))
    return out


def nleaves(s):
    if s[0] == "rec":
        return sum(nleaves(x) for _, x in s[2])
    if s[0] == "seq":
        return 2 + (nleaves(s[2]) if s[2] is not None else 0)
    return 1


class Rows:
    """the edge rows inside the vertex container: LO[v], HI[v], ID[v][p], VAL[v][p]"""

    def __init__(self, V, want):
        for p, i, s in leafpos(V.eshape):
            if s[0] == "seq" and s[2] is not None and s[2][0] == "rec" and want in str(s[2][1]):
                self.LO, self.HI = V.arrs[i], V.arrs[i + 1]
                self.kind = s[1]
                self.VAL = None
                for q, j, t in leafpos(s[2]):
                    if "value" in q[-1]:
                        self.VAL = V.arrs[i + 2 + j]
                    elif "_id" in q[-1]:
                        self.ID = V.arrs[i + 2 + j]
                return
        raise Unsupported("no edge rows in the vertices")


def graph_of(u):
    ex = u.ex
    g = ex.rv(u.garg)
    V = next((x for x in g.fields.values() if isinstance(x, Seq) and x.eshape is not None and x.eshape[0] == "rec" and any(s[0] == "seq" for _, _, s in leafpos(x.eshape))), None)
    ec = g.fields.get("edge_count_")
    if V is None or ec is None or V.kind == "omap":
        raise Unsupported("vertex container of the graph")
    return V, ec


def edges_of(s):
    f = dict((p[-1], s.arrs[i]) for p, i, _ in leafpos(s.eshape))
    return f["source_id"], f["target_id"], f.get("value")


def before(u, f, args):
    ex = u.ex
    u.garg = args[0]
    R = ex.rv(args[1])
    u.R = R
    u.S, u.T, u.W = edges_of(R)
    V, ec = graph_of(u)
    u.V0, u.ec0, u.n0, u.m = V, ec, V.hi, R.hi
    u.bidir = any(s[0] == "seq" and "dynamic_in_edge" in str(s[2][1]) for _, _, s in leafpos(V.eshape) if s[0] == "seq")
    u.CNT = {"out": z3.Function("cnt_out", I, I, I), "in": z3.Function("cnt_in", I, I, I)}
    v, k = z3.Ints("v k")
    ex.assume(z3.And(ec >= 0, ec + R.hi < 2 ** 62))  # the edges fit into memory
    for a in (u.S, u.T):
        ex.assume(FA([k], z3.And(0 <= a[k], a[k] < 2 ** 32), [a[k]]))  # range of uint32_t
    for c in u.CNT.values():
        ex.assume(FA([v], c(v, 0) == 0, [c(v, 0)]))
        ex.assume(FA([v, k], c(v, k) >= 0, [c(v, k)]))


def dirs(u):
    return [("out", u.S, u.T, "dynamic_out_edge")] + ([("in", u.T, u.S, "dynamic_in_edge")] if u.bidir else [])


def rows_inv(u, K, n0=None):
    """K edges of the range are in the graph"""
    V, ec = graph_of(u)
    v, p, j = z3.Ints("v p j")
    out = [("number of edges inserted", z3.And(0 <= K, K <= u.m)),
           ("the ids of inserted edges are vertices", FA([j], z3.Implies(z3.And(0 <= j, j < K), z3.And(u.S[j] < V.hi, u.T[j] < V.hi)), [u.S[j]], ))]
    for d, own, oth, cls in dirs(u):
        r, r0, c = Rows(V, cls), Rows(u.V0, cls), u.CNT[d]
        LO, HI, ID, VAL = named(u.ex, r.LO), named(u.ex, r.HI), named(u.ex, r.ID), named(u.ex, r.VAL) if r.VAL is not None else None
        base = lambda x: z3.If(x < u.n0, r0.HI[x], 0)
        isv = lambda x: z3.And(0 <= x, x < V.hi)
        eq = lambda x, q, w: z3.And(ID[x][q] == oth[w], VAL[x][q] == u.W[w]) if VAL is not None else ID[x][q] == oth[w]
        if r.kind == "flist":  # edges are put in front
            out += [("%s-rows grow by the edges of their vertex" % d, FA([v], z3.Implies(isv(v), z3.And(HI[v] == base(v), LO[v] == -c(v, K))), [HI[v], LO[v]])),
                    ("edges already inserted are in their %s-row, the last one first" % d,
                     FA([j], z3.Implies(z3.And(0 <= j, j < K), z3.And(c(own[j], j) < c(own[j], K), eq(own[j], -1 - c(own[j], j), j))), [own[j]]))]
        else:
            out += [("%s-rows grow by the edges of their vertex" % d, FA([v], z3.Implies(isv(v), z3.And(r.LO[v] == 0, HI[v] == base(v) + c(v, K))), [HI[v]])),
                    ("edges already inserted are in their %s-row in order" % d,
                     FA([j], z3.Implies(z3.And(0 <= j, j < K), z3.And(c(own[j], j) < c(own[j], K), eq(own[j], base(own[j]) + c(own[j], j), j))), [own[j]]))]
        out += [("%s-rows keep what they had" % d, FA([v, p], z3.Implies(z3.And(0 <= v, v < u.n0, 0 <= p, p < r0.HI[v]),
                                                     z3.And(ID[v][p] == r0.ID[v][p], VAL[v][p] == r0.VAL[v][p] if VAL is not None else True)), [ID[v][p]]))]
    return out


def counted(u, K):
    """definition of the counts at K"""
    v = z3.Int("v")
    for d, own, oth, cls in dirs(u):
        c = u.CNT[d]
        u.ex.assume(FA([v], c(v, K + 1) == c(v, K) + z3.If(own[K] == v, 1, 0), [c(v, K + 1), c(v, K)]))


def loop(u, ctx):
    ex = u.ex
    out = []
    gobj = u.garg.obj
    V, ec = graph_of(u)
    its = ctx.cond_iters()
    cs = ctx.counters()
    pos = its[0].pos if its else cs[0][1] if cs else None
    j = z3.Int("j")
    if any(m[0] == gobj for m in ctx.mods):
        K = simp(ec - u.ec0)
        out += rows_inv(u, K)
        if any(m[0] == gobj and (not m[1] or m[1][0] == "edge_count_") for m in ctx.mods):
            if pos is None:
                return None
            out.append(("the edges are taken one by one", K == pos))
            if ctx.phase == "assume":
                counted(u, K)
    P = [(lv, s) for lv, s in ctx.mod_seqs() if lv.obj != gobj and s.eshape is not None and s.eshape[0] == "rec"]
    if P:
        if pos is None:
            return None
        for lv, s in P:
            S, T, W = edges_of(s)
            out.append(("the collected edges are those seen", z3.And(s.lo == 0, s.hi == pos, FA([j], z3.Implies(z3.And(0 <= j, j < pos), z3.And(
                S[j] == u.S[j], T[j] == u.T[j], W[j] == u.W[j] if W is not None else True)), [S[j], u.S[j]]))))
        for lv, x in ctx.mod_ints():
            if cs and lv.obj == cs[0][0].obj:
                continue
            x0 = ctx.entry.store[lv.obj]
            out += [("ids have 32 bits", z3.Or(x < 2 ** 32, x == x0)), ("the largest id", z3.And(x0 <= x, FA([j], z3.Implies(z3.And(0 <= j, j < pos), z3.And(u.S[j] <= x, u.T[j] <= x)), [u.S[j]]))),
                    ("is an id", z3.Or(x == x0, EX([j], z3.And(0 <= j, j < pos, z3.Or(u.S[j] == x, u.T[j] == x)))))]
    return out


def after(u, f, args, r):
    ex = u.ex
    V, ec = graph_of(u)
    j = z3.Int("j")
    ex.assume(z3.And(ex.fresh("first") == u.S[0], ex.fresh("first") == u.T[0]))
    ex.oblige(ec == u.ec0 + u.m, "post: the edge count grows by the number of edges loaded", "post")
    for nm, q in rows_inv(u, u.m):
        ex.oblige(q, "post: " + nm, "post")
    if len(args) > 2:
        n = ex.rv(args[2])
        ex.oblige(V.hi == z3.If(n > u.n0, n, u.n0), "post: number of vertices", "post")
    else:
        ex.oblige(z3.And(V.hi >= u.n0, z3.Or(V.hi == u.n0, EX([j], z3.And(0 <= j, j < u.m, z3.Or(u.S[j] == V.hi - 1, u.T[j] == V.hi - 1))))), "post: number of vertices", "post")


def throws(u, f, args, t):
    """load_edges(range, projection, vertex_count) rejects ids that are no vertices, and only then throws"""
    if len(args) < 3:
        return False
    ex = u.ex
    n = ex.rv(args[2])
    j = z3.Int("j")
    N = z3.If(n > u.n0, n, u.n0)
    ex.oblige(EX([j], z3.And(0 <= j, j < u.m, z3.Or(u.S[j] >= N, u.T[j] >= N))), "post: an exception means that some id is no vertex", "post")


# ---------------------------------------------------------------- load_vertices
def vertex_value(V):
    """array of the vertex values inside the vertex container"""
    for p, i, s in leafpos(V.eshape):
        if s[0] == "s" and "value" in p[-1]:
            return V.arrs[i]


def vbefore(u, f, args):
    ex = u.ex
    u.garg = args[0]
    R = ex.rv(args[1])
    fs = dict((p[-1], R.arrs[i]) for p, i, _ in leafpos(R.eshape))
    u.S, u.W = fs["id"], fs.get("value")
    V, ec = graph_of(u)
    u.V0, u.ec0, u.n0, u.m = V, ec, V.hi, R.hi
    v, k = z3.Ints("v k")
    ex.assume(FA([k], z3.And(0 <= u.S[k], u.S[k] < 2 ** 32), [u.S[k]]))  # range of uint32_t
    u.LAST = z3.Function("last", I, I, I)
    ex.assume(FA([v], u.LAST(v, 0) == -1, [u.LAST(v, 0)]))
    u.N = z3.If(u.m > u.n0, u.m, u.n0)
    if len(args) > 2:
        n = ex.rv(args[2])
        u.N = z3.If(n > u.N, n, u.N)


def vertices_inv(u, K):
    V, ec = graph_of(u)
    v, p = z3.Ints("v p")
    isv = lambda x: z3.And(0 <= x, x < V.hi)
    out = [("the vertices are there", z3.And(V.lo == 0, V.hi == u.N, ec == u.ec0))]
    VAL, VAL0 = vertex_value(V), vertex_value(u.V0)
    L = u.LAST
    if u.W is not None:
        val = named(u.ex, VAL)
        out.append(("vertex values are the last ones loaded, the others as before",
                    FA([v], z3.Implies(isv(v), val[v] == z3.If(L(v, K) >= 0, u.W[L(v, K)], z3.If(v < u.n0, VAL0[v], 0))), [val[v]])))
        out.append(("last entry of a vertex", FA([v], z3.And(-1 <= L(v, K), L(v, K) < K, z3.Implies(L(v, K) >= 0, u.S[L(v, K)] == v)), [L(v, K)])))
    for i, (a, b) in enumerate(zip(V.arrs, u.V0.arrs)):
        if a is not VAL and not (VAL is not None and a.eq(VAL)):
            w = named(u.ex, a)
            out.append(("edge rows are left alone (%d)" % i, FA([v], z3.Implies(z3.And(0 <= v, v < u.n0), w[v] == b[v]), [w[v]])))
            out.append(("new vertices have no edges (%d)" % i, FA([v], z3.Implies(z3.And(u.n0 <= v, v < V.hi), w[v] == 0), [w[v]])) if a.sort().range() == I else ("", z3.BoolVal(True)))
    return out


def vloop(u, ctx):
    gobj = u.garg.obj
    if not any(m[0] == gobj for m in ctx.mods) and not u.W is None:
        return []
    its, cs = ctx.cond_iters(), ctx.counters()
    K = its[0].pos if its else cs[0][1] if cs else None
    if K is None:
        return None
    j, v = z3.Ints("j v")
    if ctx.phase == "assume":
        L = u.LAST
        u.ex.assume(FA([v], L(v, K + 1) == z3.If(u.S[K] == v, K, L(v, K)), [L(v, K + 1), L(v, K)]))
    V, ec = graph_of(u)
    return vertices_inv(u, K) + [("ids seen are vertices", FA([j], z3.Implies(z3.And(0 <= j, j < K), u.S[j] < V.hi), [u.S[j]]))]


def vafter(u, f, args, r):
    ex = u.ex
    V, ec = graph_of(u)
    j = z3.Int("j")
    for nm, q in vertices_inv(u, u.m):
        ex.oblige(q, "post: " + nm, "post")
    ex.oblige(FA([j], z3.Implies(z3.And(0 <= j, j < u.m), u.S[j] < V.hi), [u.S[j]]), "post: every id is a vertex", "post")


def vthrows(u, f, args, t):
    j = z3.Int("j")
    u.ex.oblige(EX([j], z3.And(0 <= j, j < u.m, u.S[j] >= u.N)), "post: an exception means that some id is no vertex", "post")


REG.setdefault("C19", []).append(Lemma("load_edges", "lem19", "vcd::C19_load_edges", loop=loop, before=before, after=after, throws=throws))
REG.setdefault("C19", []).append(Lemma("load_vertices", "lem19", "vcd::C19_load_vertices", loop=vloop, before=vbefore, after=vafter, throws=vthrows))
REG.setdefault("C20", []).append(Lemma("load_edges, both rows", "lem20", "vcd::C20_load_edges", loop=loop, before=before, after=after, throws=throws))
REG.setdefault("C20", []).append(Lemma("in-edges", "lem20", "vcd::C20_in_edges"))
REG.setdefault("C20", []).append(Lemma("out-edges", "lem20", "vcd::C20_out_edges"))
REG.setdefault("C20", []).append(Lemma("find_in_edge", "lem20", "vcd::C20_find"))

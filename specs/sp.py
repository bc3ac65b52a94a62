"""shortest paths: Dijkstra (C01)"""
from .common import *

def inf(u):
    return DBL_MAX


def weight(u):
    g = u.g

    def f(ex, args):
        s, i, _ = eparts(ex, args[1])
        return g.wt(s, i)
    return Opq("functor:weight", f)


def combine(u, c):
    """std::plus<double>: machine arithmetic taken as real arithmetic; sums of finite distances stay below infinity (assumption)"""
    a, b = c.a(0), c.a(1)
    r = a + b
    c.ex.assume(z3.Implies(a < inf(u), r < inf(u)))
    return r


def sources(u):
    g, ex = u.g, u.ex
    if u.unit.opts.get("single"):
        s = u.int("source", 0, 1 << 64)
        u.issrc = lambda v: v == s
        u.nsrc, u.src = Z(1), {}
        u.src = z3.Const("srcs0", z3.ArraySort(I, I))
        ex.assume(u.src[0] == s)
        return u.put("source", s)
    n = u.int("nsrc", 0, 1 << 62)
    lv, a = u.seq("srcs", n)
    k = z3.Int("k")
    v = z3.Int("v")
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(a[k] >= 0, a[k] < (1 << 64))), [a[k]]))
    u.nsrc, u.src = n, a
    u.issrc = z3.Function("issrc", I, B)
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n), u.issrc(a[k])), [a[k]]))
    ex.assume(FA([v], z3.Implies(u.issrc(v), EX([k], z3.And(0 <= k, k < n, a[k] == v))), [u.issrc(v)]))
    return lv


def ach_axioms(u):
    """ach(v,d): some walk from a source to v has total weight d (least predicate closed under these rules)"""
    g, ex = u.g, u.ex
    u.ach = z3.Function("ach", I, R, B)
    k, v, i = z3.Ints("k v i")
    d = z3.Real("d")
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), u.ach(u.src[k], 0)), [u.src[k]]))
    ex.assume(FA([v, d, i], z3.Implies(z3.And(u.ach(v, d), g.VE(v, i)), u.ach(g.tgt(v, i), d + g.wt(v, i))), [(u.ach(v, d), g.tgt(v, i))]))


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    s = sources(u)
    ach_axioms(u)
    dn, pn = u.int("dist.n", 0, 1 << 62), u.int("pred.n", 0, 1 << 62)
    dlv, d = u.seq("dist", dn, z3.RealSort())
    u.nopred = bool(u.unit.opts.get("nopred"))
    plv = [] if u.nopred else [u.seq("pred", pn)[0]]
    v = z3.Int("v")
    ex.assume(FA([v], z3.Implies(z3.And(0 <= v, v < dn), d[v] == inf(u)), [d[v]]))   # documented precondition: init_shortest_paths
    u.dn, u.pn = dn, pn
    return [glv, s, dlv] + plv + [u.put("w", weight(u)), u.put("vis", Opq("visitor")), u.put("less", Opq("std::less")), u.put("plus", Opq("std::plus"))]


def base(u, x=None):
    g = u.g
    D = u.get("dist")
    d = D.arrs[0]
    v, i, k = z3.Ints("v i k")
    fin = lambda v: d[v] < inf(u)
    r = [("size of the distance range", z3.And(D.lo == 0, D.hi == u.dn, g.n <= u.dn)),
         ("a distance is infinite or the weight of a walk", FA([v], z3.Implies(g.V(v), z3.Or(d[v] == inf(u), z3.And(fin(v), d[v] >= 0, u.ach(v, d[v])))), [d[v]]))]
    if u.nopred:
        return r
    P = u.get("pred")
    p = P.arrs[0]
    r += [("size of the predecessor range", z3.And(P.lo == 0, P.hi == u.pn, g.n <= u.pn)),
         ("predecessors close or undercut the distance",
          FA([v], z3.Implies(z3.And(g.V(v), fin(v), z3.Not(u.issrc(v))),
                             z3.And(g.V(p[v]), EX([i], z3.And(g.E(p[v], i), g.tgt(p[v], i) == v, d[p[v]] + g.wt(p[v], i) <= d[v], fin(p[v]))))), [p[v]]))]
    return r


def queue_lv(u, ctx):
    for fr in reversed(ctx.ex.frames):
        for lv in fr.names.values():
            if not lv.path and isinstance(ctx.ex.st.store.get(lv.obj), Bag):
                return lv


def loop(u, ctx):
    g, ex = u.g, u.ex
    d = u.get("dist").arrs[0]
    v, i, k = z3.Ints("v i k")
    fin = lambda v: d[v] < inf(u)
    if ctx.kind == "count":
        return [("counter in range", z3.And([z3.And(0 <= c, c <= g.n) for _, c in ctx.counters()]))]
    q = ex.load(queue_lv(u, ctx))
    cnt = q.cnt
    r = base(u) + [("queued vertices are reached", FA([v], z3.Implies(cnt[v] > 0, z3.And(g.V(v), fin(v))), [cnt[v]]))]
    if ctx.kind == "seq" or ctx.kind == "single":
        p = ctx.cond_iters()[0].pos
        return r + [("sources so far are vertices, at distance 0", FA([k], z3.Implies(z3.And(0 <= k, k < p), z3.And(g.V(u.src[k]), d[u.src[k]] == 0)), [u.src[k]])),
                    ("only sources are reached and they are queued", FA([v], z3.Implies(z3.And(g.V(v), fin(v)), z3.And(u.issrc(v), d[v] == 0, cnt[v] > 0)), [d[v]]))]
    x = pos = None
    if ctx.kind in EDGES:
        x, pos = edge_loop_u(ctx)
    relaxed = lambda v, i: z3.And(g.wt(v, i) >= 0, fin(g.tgt(v, i)), d[g.tgt(v, i)] <= d[v] + g.wt(v, i))
    r += [("sources are vertices, at distance 0", FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), z3.And(g.V(u.src[k]), d[u.src[k]] == 0)), [u.src[k]])),
          ("edges of reached vertices that are not queued are relaxed",
           FA([v, i], z3.Implies(z3.And(g.VE(v, i), fin(v), cnt[v] == 0, v != x if x is not None else True), relaxed(v, i)), [g.tgt(v, i)]))]
    if x is not None:
        r += [("the vertex being examined is reached", z3.And(g.V(x), fin(x), d[x] == ctx.old(LV("dist")).arrs[0][x])),
              ("its edges so far are relaxed", FA([i], z3.Implies(z3.And(0 <= i, i < pos), relaxed(x, i)), [g.tgt(x, i)]))]
    return r


def post(u, r):
    ex, g = u.ex, u.g
    d = u.get("dist").arrs[0]
    v, i, k = z3.Ints("v i k")
    dd = z3.Real("dd")
    fin = lambda v: d[v] < inf(u)
    ex.oblige(z3.And(g.n <= u.dn, True if u.nopred else g.n <= u.pn), "post: too small result ranges are reported, not processed", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), z3.And(g.V(u.src[k]), d[u.src[k]] == 0))), "post: sources are in range and have distance 0", "post")
    ex.oblige(FA([v], z3.Implies(g.V(v), z3.Or(d[v] == inf(u), z3.And(fin(v), u.ach(v, d[v]))))), "post: every finite distance is the weight of a walk from a source", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(g.VE(v, i), fin(v)), z3.And(g.wt(v, i) >= 0, fin(g.tgt(v, i)), d[g.tgt(v, i)] <= d[v] + g.wt(v, i)))),
              "post: no edge out of a reached vertex improves a distance or has negative weight (with the previous two: distances are exact, by induction over walks)", "post")
    if u.nopred:
        return
    p = u.get("pred").arrs[0]
    ex.oblige(FA([v], z3.Implies(z3.And(g.V(v), fin(v), z3.Not(u.issrc(v))),
                                 z3.And(g.V(p[v]), EX([i], z3.And(g.E(p[v], i), g.tgt(p[v], i) == v, d[p[v]] + g.wt(p[v], i) == d[v]))))),
              "post: the predecessor's edge closes the distance exactly", "post")


def throws(u, t):
    ex, g = u.ex, u.g
    v, i, k = z3.Ints("v i k")
    if "out_of_range" not in t.tname:
        ex.oblige(z3.BoolVal(False), "no exception other than std::out_of_range leaves the function (%s)" % t.tname, "exception")
        return
    ex.oblige(z3.Or(u.dn < g.n, z3.BoolVal(False) if u.nopred else u.pn < g.n, EX([k], z3.And(0 <= k, k < u.nsrc, u.src[k] >= g.n)), EX([v, i], z3.And(g.VE(v, i), g.wt(v, i) < 0))),
              "std::out_of_range only for a too small range, a source out of range or a negative weight", "exception")


for nm, fn, single, nopred in (("dijkstra_shortest_paths", "graph::dijkstra_shortest_paths", False, False), ("dijkstra_shortest_paths (one source)", "graph::dijkstra_shortest_paths", True, False),
                               ("dijkstra_shortest_distances", "graph::dijkstra_shortest_distances", False, True),
                               ("dijkstra_shortest_distances (one source)", "graph::dijkstra_shortest_distances", True, True)):
    unit("C01", name=nm, driver="alg1", fn=fn, setup=setup, loop=loop, post=post, throws=throws,
         sel=(lambda f, p=nm: (f["params"][1]["n"] == "source") == ("one source" in p)),
         opts={"must_reach": ["precondition", "return"], "single": single, "nopred": nopred},
         extra=[(r"std::plus::operator\(\)", combine), (r"vcd::Visitor::.*", lambda u, c: UNIT)])

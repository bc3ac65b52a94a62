"""shortest paths: Bellman-Ford (C02)"""
from .common import *
from .sp import inf, weight, combine, sources, base as sp_base


def axioms(u):
    """achk(v,d,j): some walk with exactly j edges from a source to v has total weight d"""
    g, ex = u.g, u.ex
    u.achk = z3.Function("achk", I, R, I, B)
    u.pu, u.pi = z3.Function("lastu", I, R, I, I), z3.Function("lasti", I, R, I, I)
    k, v, i, j = z3.Ints("k v i j")
    d = z3.Real("d")
    A, pu, pi = u.achk, u.pu, u.pi
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), A(u.src[k], 0, 0)), [u.src[k]]))
    ex.assume(FA([v, d, j, i], z3.Implies(z3.And(A(v, d, j), g.VE(v, i)), A(g.tgt(v, i), d + g.wt(v, i), j + 1)), [(A(v, d, j), g.tgt(v, i))]))
    u.look = z3.Function("look", I, R, I, B)   # always true; controls where the last step of a walk is looked at
    ex.assume(FA([v, d, j], u.look(v, d, j), [u.look(v, d, j)]))
    # a walk is empty (at a source) or extends a shorter one by its last edge
    a, b = pu(v, d, j), pi(v, d, j)
    ex.assume(FA([v, d, j], z3.Implies(A(v, d, j), z3.And(j >= 0, z3.Implies(j == 0, z3.And(u.issrc(v), d == 0)),
              z3.Implies(j > 0, z3.And(g.VE(a, b), g.tgt(a, b) == v, A(a, d - g.wt(a, b), j - 1))))), [u.look(v, d, j)]))
    u.ach, u.hops = z3.Function("ach", I, R, B), z3.Function("hops", I, R, I)
    ex.assume(FA([v, d, j], z3.Implies(A(v, d, j), z3.And(u.ach(v, d), d < inf(u))), [A(v, d, j)]))   # walk weights are representable (assumption)
    ex.assume(FA([v, d], z3.Implies(u.ach(v, d), A(v, d, u.hops(v, d))), [u.ach(v, d)]))
    ex.assume(FA([v, d, i], z3.Implies(z3.And(u.ach(v, d), g.VE(v, i)), u.ach(g.tgt(v, i), d + g.wt(v, i))), [(u.ach(v, d), g.tgt(v, i))]))


def lemma(u):
    """removing cycles: if no negative cycle is reachable from the sources, some walk with fewer than n edges weighs no more than a given walk"""
    g, ex = u.g, u.ex
    v, j = z3.Ints("v j")
    d = z3.Real("d")
    u.negcyc = z3.Bool("negative_cycle_reachable")
    sj, sd = z3.Function("shortj", I, R, I), z3.Function("shortd", I, R, R)
    ex.assume(FA([v, d], z3.Implies(z3.And(z3.Not(u.negcyc), u.ach(v, d)),
              z3.And(0 <= sj(v, d), sj(v, d) < g.n, sd(v, d) <= d, u.achk(v, sd(v, d), sj(v, d)))), [u.ach(v, d)]))


def setup(u):
    g, glv = u.graph(edgelist=True)
    u.g = g
    ex = u.ex
    s = sources(u)
    axioms(u)
    dn, pn = u.int("dist.n", 0, 1 << 62), u.int("pred.n", 0, 1 << 62)
    dlv, d = u.seq("dist", dn, z3.RealSort())
    v = z3.Int("v")
    ex.assume(FA([v], z3.Implies(z3.And(0 <= v, v < dn), d[v] == inf(u)), [d[v]]))
    u.dn, u.pn = dn, pn
    u.put("$hops", z3.Const("hops0", z3.ArraySort(I, I)))
    u.put("$round", Z(0))
    u.put("$d0", z3.Const("d0", z3.ArraySort(I, R)))
    u.nopred = bool(u.unit.opts.get("nopred"))
    plv = [] if u.nopred else [u.seq("pred", pn)[0]]
    return [glv, s, dlv] + plv + [u.put("w", weight(u)), u.put("vis", Opq("visitor")), u.put("less", Opq("std::less")), u.put("plus", Opq("std::plus"))]


def dist(u):
    return u.get("dist").arrs[0]


def facts(u):
    g = u.g
    D = u.get("dist")
    d = D.arrs[0]
    v, i, j = z3.Ints("v i j")
    r = [("sizes of the result ranges", z3.And(D.lo == 0, D.hi == u.dn, g.n <= u.dn)),
         ("a distance is infinite or the weight of a walk",
          FA([v], z3.Implies(g.V(v), z3.Or(d[v] == inf(u), z3.And(d[v] < inf(u), u.ach(v, d[v])))), [d[v]]))]
    if not u.nopred:
        P = u.get("pred")
        p = P.arrs[0]
        r += [("size of the predecessor range", z3.And(P.lo == 0, P.hi == u.pn, g.n <= u.pn)),
              ("predecessors close or undercut the distance",
               FA([v], z3.Implies(z3.And(g.V(v), d[v] < inf(u), z3.Not(u.issrc(v))),
                                  z3.And(g.V(p[v]), EX([i], z3.And(g.E(p[v], i), g.tgt(p[v], i) == v, d[p[v]] + g.wt(p[v], i) <= d[v], d[p[v]] < inf(u))))), [p[v]]))]
    return r


def below(u, dd, k, ctx):
    """dd[v] is at most the weight of every walk of at most k edges to v"""
    v, j = z3.Ints("v j")
    d = z3.Real("d")
    return FA([v, d, j], z3.Implies(z3.And(True if ctx.phase == "assume" else u.look(v, d, j), u.achk(v, d, j), j <= k), dd[v] <= d), [u.achk(v, d, j)])


def srcs_ok(u, hi):
    k = z3.Int("k")
    return ("sources so far are vertices, at distance at most 0", FA([k], z3.Implies(z3.And(0 <= k, k < hi), z3.And(u.g.V(u.src[k]), dist(u)[u.src[k]] <= 0)), [u.src[k]]))


def loop(u, ctx):
    g, ex = u.g, u.ex
    d = dist(u)
    v, i, k = z3.Ints("v i k")
    r = facts(u)
    if ctx.kind in ("seq", "single"):
        p = ctx.cond_iters()[0].pos
        return r + [srcs_ok(u, p),
                    ("only sources are reached", FA([v], z3.Implies(z3.And(g.V(v), d[v] < inf(u)), z3.And(u.issrc(v), d[v] == 0)), [d[v]]))]
    r.append(srcs_ok(u, u.nsrc))
    if ctx.kind == "count":
        c = ctx.counters()[0][1]
        u.kctx = ctx
        rel = z3.Or([truth(b) for _, b in ctx.mod_bools()]) if ctx.mod_bools() else z3.BoolVal(True)
        return r + [("round within range", z3.And(0 <= c, c <= g.n)),
                    ("the last round relaxed an edge", z3.Or(c == 0, rel)),
                    ("distances undercut all walks of at most as many edges as rounds", below(u, d, c, ctx))]
    sc = scanned(u, ctx)
    # are we in a relaxation pass (inside the loop over rounds)?
    rounds = [c for c in ex.loopstack if c.kind == "count" and c is not ctx]
    if rounds:
        c = rounds[-1].counters()[0][1]
        d0 = rounds[-1].head.store["dist"].arrs[0]
        same = z3.And([z3.Not(truth(b)) for _, b in ctx.mod_bools()])
        r += [("distances only decrease", FA([v], z3.Implies(g.V(v), d[v] <= d0[v]), [d[v]])),
              ("edges so far are relaxed with respect to the distances at the start of the round",
               FA([v, i], z3.Implies(z3.And(g.VE(v, i), sc(v, i), d0[v] < inf(u)), d[g.tgt(v, i)] <= d0[v] + g.wt(v, i)), [g.tgt(v, i)])),
              ("the flag is raised when a distance changes", FA([v], z3.Implies(z3.And(g.V(v), same), d[v] == d0[v]), [d[v]])),
              ("round within range", z3.And(0 <= c, c < g.n))]
        return r
    return r + [("edges so far cannot be relaxed", FA([v, i], z3.Implies(z3.And(g.VE(v, i), sc(v, i), d[v] < inf(u)), d[g.tgt(v, i)] <= d[v] + g.wt(v, i)), [g.tgt(v, i)])),
                ("distances undercut all walks of at most n edges", below(u, d, g.n, ctx))]


def opt_has(ex, r):
    r = ex.rv(r)
    return r.fields["has"], r.fields["val"]


def post(u, r):
    ex, g = u.ex, u.g
    has, val = opt_has(ex, r)
    lemma(u)
    d = dist(u)
    v, i, k = z3.Ints("v i k")
    dd = z3.Real("dd")
    j = z3.Int("j")
    ex.oblige(z3.And(g.n <= u.dn, True if u.nopred else g.n <= u.pn), "post: too small result ranges are reported, not processed", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), g.V(u.src[k]))), "post: sources are in range", "post")
    ex.oblige(FA([v], z3.Implies(z3.And(g.V(v), d[v] != inf(u)), z3.And(d[v] < inf(u), u.ach(v, d[v])))),
              "post: every finite distance is the weight of a walk from a source (unreachable vertices stay infinite)", "post")
    ex.oblige(z3.Implies(z3.Not(has), FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), d[u.src[k]] <= 0))), "post: sources have distance at most 0", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(z3.Not(has), g.VE(v, i), d[v] < inf(u)), d[g.tgt(v, i)] <= d[v] + g.wt(v, i))),
              "post: when no vertex is returned no edge out of a reached vertex can be relaxed (so distances are exact and no negative cycle is reachable, by induction over walks)", "post")
    ex.oblige(z3.Implies(has, z3.And(u.negcyc, g.V(val))), "post: a returned vertex means that a negative cycle is reachable from the sources", "post")
    if not u.nopred:
        p = u.get("pred").arrs[0]
        ex.oblige(FA([v], z3.Implies(z3.And(z3.Not(has), g.V(v), d[v] < inf(u), z3.Not(u.issrc(v))),
                                     z3.And(g.V(p[v]), EX([i], z3.And(g.E(p[v], i), g.tgt(p[v], i) == v, d[p[v]] + g.wt(p[v], i) == d[v]))))),
                  "post: the predecessor's edge closes the distance exactly", "post")


def throws(u, t):
    ex, g = u.ex, u.g
    k = z3.Int("k")
    if "out_of_range" not in t.tname:
        ex.oblige(z3.BoolVal(False), "no exception other than std::out_of_range leaves the function (%s)" % t.tname, "exception")
        return
    ex.oblige(z3.Or(u.dn < g.n, z3.BoolVal(False) if u.nopred else u.pn < g.n, EX([k], z3.And(0 <= k, k < u.nsrc, u.src[k] >= g.n))),
              "std::out_of_range only for a too small range or a source out of range", "exception")


for nm, fn, single, nopred in (("bellman_ford_shortest_paths", "graph::bellman_ford_shortest_paths", False, False), ("bellman_ford_shortest_paths (one source)", "graph::bellman_ford_shortest_paths", True, False),
                               ("bellman_ford_shortest_distances", "graph::bellman_ford_shortest_distances", False, True),
                               ("bellman_ford_shortest_distances (one source)", "graph::bellman_ford_shortest_distances", True, True)):
    unit("C02", name=nm, driver="alg1", fn=fn, setup=setup, loop=loop, post=post, throws=throws,
         sel=(lambda f, p=nm: (f["params"][1]["n"] == "source") == ("one source" in p)),
         opts={"must_reach": ["precondition", "return"], "single": single, "nopred": nopred},
         extra=[(r"std::plus::operator\(\)", combine), (r"vcd::Visitor::.*", lambda u, c: UNIT)])


# ---------------------------------------------------------------- find_negative_cycle
def fnc_setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    n = u.int("pred.n", 0, 1 << 62)
    plv, p = u.seq("pred", n)
    u.p = p
    has, x = z3.Bool("has_vertex"), u.int("vertex", 0, 1 << 62)
    u.has, u.x = has, x
    v, k = z3.Ints("v k")
    ex.assume(z3.And(g.n <= n, FA([v], z3.Implies(g.V(v), g.V(p[v])), [p[v]]), z3.Implies(has, g.V(x))))
    # it(v,k): k steps back from v
    u.it = z3.Function("steps_back", I, I, I)
    ex.assume(FA([v], u.it(v, 0) == v, [u.it(v, 0)]))
    ex.assume(FA([v, k], z3.Implies(z3.And(g.V(v), k >= 0), z3.And(g.V(u.it(v, k)), u.it(v, k + 1) == p[u.it(v, k)])), [u.it(v, k)]))
    # on a cycle: some positive number of steps leads back; lemma (pigeonhole): g.n steps back always end on a cycle
    u.cyc, u.per = z3.Function("on_cycle", I, B), z3.Function("period", I, I)
    ex.assume(FA([v], z3.Implies(u.cyc(v), z3.And(u.per(v) >= 1, u.it(v, u.per(v)) == v)), [u.cyc(v)]))
    ex.assume(FA([v, k], z3.Implies(z3.And(k >= 1, u.it(v, k) == v), u.cyc(v)), [u.it(v, k)]))
    ex.assume(FA([v], z3.Implies(g.V(v), u.cyc(u.it(v, g.n))), [u.it(v, g.n)]))
    u.outlv = u.out()
    u.put("$steps", Z(0))
    return [glv, plv, u.put("cyc", Rec("std::optional", {"has": has, "val": x})), u.outlv]


def fnc_loop(u, ctx):
    g = u.g
    o = u.get("$out")
    a = o.arrs[0]
    k = z3.Int("k")
    cur = [x for lv, x in ctx.mod_ints()]
    if not any(m[0] == "$out" for m in ctx.mods):
        c = ctx.counters()[0][1]
        return [("counter within the number of vertices", z3.And(0 <= c, c <= g.n)), ("nothing written yet", z3.And(o.lo == 0, o.hi == 0)),
                ("as many steps back from the given vertex", z3.And([x == u.it(u.x, c) for x in cur]))]
    r = [("written so far are steps back", z3.And(o.lo == 0, o.hi >= 0, FA([k], z3.Implies(z3.And(0 <= k, k + 1 < o.hi), a[k + 1] == u.p[a[k]]), [a[k + 1]]),
                                                  FA([k], z3.Implies(z3.And(0 <= k, k < o.hi), g.V(a[k])), [a[k]])))]
    for lv, x in ctx.mod_ints() + ctx.counters():
        s = ctx.entry.store[lv.obj]
        r += [("the current vertex follows the last one written", z3.And(g.V(x), z3.Implies(o.hi > 0, x == u.p[a[o.hi - 1]]))),
              ("the walk starts on a cycle", z3.And(g.V(s), u.cyc(s))),
              ("the first one written is the starting vertex", z3.Implies(o.hi > 0, a[0] == s)),
              ("as many steps from the start as were written", x == u.it(s, o.hi)),
              ("the start was not met again", FA([k], z3.Implies(z3.And(0 < k, k <= o.hi), u.it(s, k) != s), [u.it(s, k)]))]
    return r


def fnc_variant(u, ctx):
    if any(m[0] == "$out" for m in ctx.mods):
        s = ctx.entry.store[(ctx.mod_ints() + ctx.counters())[0][0].obj]
        return u.per(s) - u.get("$out").hi
    return None


def fnc_post(u, r):
    ex, g = u.ex, u.g
    o = u.get("$out")
    a = o.arrs[0]
    k = z3.Int("k")
    ex.oblige(z3.Implies(z3.Not(u.has), o.hi == 0), "post: nothing is written when no vertex is given", "post")
    ex.oblige(z3.Implies(u.has, o.hi > 0), "post: a cycle is not empty", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(0 <= k, k + 1 < o.hi), a[k + 1] == u.p[a[k]])), "post: each vertex written is the predecessor of the previous one", "post")
    ex.oblige(z3.Implies(u.has, u.p[a[o.hi - 1]] == a[0]), "post: the walk is closed", "post")


unit("C02", name="find_negative_cycle", driver="alg1", fn="graph::find_negative_cycle", setup=fnc_setup, loop=fnc_loop, post=fnc_post, variant=fnc_variant)

from .common import *

AII = z3.ArraySort(I, I)
AAII = z3.ArraySort(I, AII)


def ghost(u, name, sort, init=None):
    v = z3.Const(name + "_0", sort) if init is None else init
    u.put(name, v)


def zero():
    return z3.K(I, Z(0))


def sources(u, distinct=False):
    g, ex = u.g, u.ex
    if u.unit.opts.get("single"):
        s = u.int("source", 0)
        ex.assume(g.V(s))
        u.nsrc, u.src = Z(1), z3.Const("srcs0", AII)
        ex.assume(u.src[0] == s)
        return u.put("source", s)
    n = u.int("nsrc", 0, 1 << 62)
    lv, a = u.seq("srcs", n)
    k, l = z3.Ints("k l")
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n), g.V(a[k])), [a[k]]))
    if distinct:
        ex.assume(FA([k, l], z3.Implies(z3.And(0 <= k, k < n, 0 <= l, l < n, k != l), a[k] != a[l]), [(a[k], a[l])]))
    u.nsrc, u.src = n, a
    return lv


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    s = sources(u, distinct=True)
    # walk(n,v): there is a walk with n edges from some source to v (least predicate closed under these rules)
    u.walk = z3.Function("walk", I, I, B)
    k, v, i, n = z3.Ints("k v i n")
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), u.walk(0, u.src[k])), [u.src[k]]))
    ex.assume(FA([n, v, i], z3.Implies(z3.And(u.walk(n, v), g.VE(v, i)), u.walk(n + 1, g.tgt(v, i))), [(u.walk(n, v), g.tgt(v, i))]))
    for nm in ("$disc", "$exam", "$fin"):
        ghost(u, nm, AII, zero())
    ghost(u, "$edge", AAII, z3.K(I, zero()))
    ghost(u, "$lev", AII)
    ghost(u, "$cur", I, Z(-1))
    ghost(u, "$curv", I, Z(-1))
    return [glv, s, u.put("vis", Opq("visitor"))]


def bump(u, name, v):
    a = u.get(name)
    u.ex.store(LV(name), z3.Store(a, v, a[v] + 1))


def on_discover(u, c):
    v = vid(c.ex, c.args[1])
    bump(u, "$disc", v)
    u.ex.store(LV("$lev"), z3.Store(u.get("$lev"), v, u.get("$cur") + 1))
    return UNIT


def on_examine(u, c):
    v = vid(c.ex, c.args[1])
    bump(u, "$exam", v)
    l = u.get("$lev")[v]
    u.ex.oblige(l >= u.get("$cur"), "vertices are examined in non-decreasing hop distance", "post")
    u.ex.oblige(u.get("$disc")[v] == 1, "a vertex is discovered before it is examined", "post")
    u.ex.store(LV("$cur"), l)
    u.ex.store(LV("$curv"), v)
    return UNIT


def on_finish(u, c):
    v = vid(c.ex, c.args[1])
    u.ex.oblige(z3.And(u.get("$curv") == v, u.get("$exam")[v] == 1), "a vertex is finished after it was examined", "post")
    bump(u, "$fin", v)
    return UNIT


def on_edge(u, c):
    s, i, _ = eparts(c.ex, c.args[1])
    u.ex.oblige(u.get("$curv") == s, "an edge is examined while its source is", "post")
    e = u.get("$edge")
    u.ex.store(LV("$edge"), z3.Store(e, s, z3.Store(e[s], i, e[s][i] + 1)))
    return UNIT


def loop(u, ctx):
    ex, g = u.ex, u.g
    vis_lv, q_lv = find_state(u, ctx)
    vis, q = ex.load(vis_lv), ex.load(q_lv)
    V = lambda x: truth(vis.arrs[0][x])
    Q = q.arrs[0]
    disc, exam, fin, edge, lev, cur = (u.get("$" + n) for n in ("disc", "exam", "fin", "edge", "lev", "cur"))
    v, j, k, i = z3.Ints("v j k i")
    inq = lambda j: z3.And(q.lo <= j, j < q.hi)
    x = pos = None
    if ctx.kind in EDGES:
        x, pos = edge_loop_u(ctx)
    r = [("size of the visited marks", z3.And(vis.lo == 0, vis.hi == g.n)),
         ("discovered once iff marked", FA([v], z3.Implies(g.V(v), disc[v] == z3.If(V(v), 1, 0)), [disc[v]])),
         ("examined at most once, and only discovered vertices",
          FA([v], z3.Implies(g.V(v), z3.And(0 <= exam[v], exam[v] <= 1, z3.Implies(exam[v] == 1, V(v)))), [exam[v]])),
         ("finished iff examined", FA([v], z3.Implies(g.V(v), fin[v] == (z3.If(v == x, 0, exam[v]) if x is not None else exam[v])), [fin[v]])),
         ("queued vertices are discovered and not examined", FA([j], z3.Implies(inq(j), z3.And(g.V(Q[j]), V(Q[j]), exam[Q[j]] == 0)), [Q[j]])),
         ("queued vertices are distinct", FA([j, k], z3.Implies(z3.And(inq(j), inq(k), j != k), Q[j] != Q[k]), [(Q[j], Q[k])])),
         ("a discovered vertex is queued or examined", FA([v], z3.Implies(z3.And(g.V(v), V(v), exam[v] == 0), in_seq(q, v)), [vis.arrs[0][v]])),
         ("levels of queued vertices", FA([j], z3.Implies(inq(j), z3.And(cur <= lev[Q[j]], lev[Q[j]] <= cur + 1)), [Q[j]])),
         ("queue ordered by level", FA([j, k], z3.Implies(z3.And(inq(j), inq(k), j <= k), lev[Q[j]] <= lev[Q[k]]), [(Q[j], Q[k])])),
         ("levels are realised by walks", FA([v], z3.Implies(z3.And(g.V(v), V(v)), z3.And(u.walk(lev[v], v), 0 <= lev[v], lev[v] <= cur + 1)), [lev[v]])),
         ("edges of examined vertices reach discovered vertices at most one level further, each examined once",
          FA([v, i], z3.Implies(z3.And(g.VE(v, i), exam[v] == 1, v != x if x is not None else True),
                                z3.And(V(g.tgt(v, i)), lev[g.tgt(v, i)] <= lev[v] + 1, edge[v][i] == 1)), [g.tgt(v, i), edge[v][i]])),
         ("edges of other vertices are not examined", FA([v, i], z3.Implies(z3.And(g.VE(v, i), exam[v] == 0), edge[v][i] == 0), [edge[v][i]]))]
    if ctx.kind in ("seq", "single"):
        p = ctx.cond_iters()[0].pos
        r += [("no vertex examined before the search starts", z3.And(cur == -1, FA([v], exam[v] == 0, [exam[v]]))),
              ("sources so far are discovered", FA([k], z3.Implies(z3.And(0 <= k, k < p), V(u.src[k])), [u.src[k]])),
              ("only sources so far are discovered", FA([v], z3.Implies(z3.And(g.V(v), V(v)), EX([k], z3.And(0 <= k, k < p, u.src[k] == v))), [vis.arrs[0][v]]))]
    else:
        r += [("sources are discovered at level 0", FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), z3.And(V(u.src[k]), lev[u.src[k]] == 0)), [u.src[k]]))]
    if ctx.kind in ("seq", "single"):
        r += [("sources are at level 0", FA([v], z3.Implies(z3.And(g.V(v), V(v)), lev[v] == 0), [lev[v]]))]
    if x is not None:
        r += [("the vertex being examined", z3.And(g.V(x), V(x), exam[x] == 1, cur == lev[x], u.get("$curv") == x)),
              ("edges seen so far", FA([i], z3.Implies(z3.And(0 <= i, i < pos), z3.And(V(g.tgt(x, i)), lev[g.tgt(x, i)] <= lev[x] + 1, edge[x][i] == 1)), [g.tgt(x, i)])),
              ("edges to come", FA([i], z3.Implies(z3.And(pos <= i, i < g.deg(x)), edge[x][i] == 0), [edge[x][i]]))]
    return r


def find_state(u, ctx):
    seqs = [(lv, s) for fr in ctx.ex.frames for lv in fr.names.values() if not lv.path
            for s in [ctx.ex.st.store.get(lv.obj)] if isinstance(s, Seq) and lv.obj not in ("srcs",) and not lv.obj.startswith("$")]
    vis = [lv for lv, s in seqs if s.kind == "vector" and s.eshape and s.eshape[0] == "s"]
    q = [lv for lv, s in seqs if s.kind in ("queue", "deque")]
    return vis[0], q[0]


def post(u, r):
    ex, g = u.ex, u.g
    disc, exam, fin, edge, lev = (u.get("$" + n) for n in ("disc", "exam", "fin", "edge", "lev"))
    v, i, k = z3.Ints("v i k")
    ex.oblige(FA([v], z3.Implies(g.V(v), z3.And(z3.Or(disc[v] == 0, disc[v] == 1), exam[v] == disc[v], fin[v] == disc[v]))),
              "post: each vertex is discovered, examined and finished together, at most once", "post")
    ex.oblige(FA([v], z3.Implies(z3.And(g.V(v), disc[v] == 1), u.walk(lev[v], v))), "post: discovered vertices are reachable, by a walk as long as their level", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), z3.And(disc[u.src[k]] == 1, lev[u.src[k]] == 0))), "post: every source is discovered at level 0", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(g.VE(v, i), disc[v] == 1), z3.And(disc[g.tgt(v, i)] == 1, lev[g.tgt(v, i)] <= lev[v] + 1))),
              "post: discovered vertices are closed under edges and levels grow by at most one (hence all reachable vertices are discovered and level = hop distance)", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(g.VE(v, i)), edge[v][i] == disc[v])), "post: every out-edge of a reached vertex is examined exactly once, no other edge", "post")


P = r"vcd::Visitor::"
for nm, single in (("breadth_first_search", False), ("breadth_first_search (one source)", True)):
    unit("C03", name=nm, driver="alg1", fn="graph::breadth_first_search", setup=setup, loop=loop, post=post, opts={"single": single},
         sel=lambda f, single=single: (f["params"][1]["n"] == "source") == single,
         extra=[(P + "on_discover_vertex", on_discover), (P + "on_examine_vertex", on_examine), (P + "on_finish_vertex", on_finish), (P + "on_examine_edge", on_edge)])

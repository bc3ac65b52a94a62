"""depth first search (C04)"""
from .common import *
from .bfs import AII, AAII, ghost, zero, bump


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    u.s = u.int("source", 0)
    ex.assume(g.V(u.s))
    u.reach = z3.Function("reach", I, B)
    v, i = z3.Ints("v i")
    ex.assume(u.reach(u.s))
    ex.assume(FA([v, i], z3.Implies(z3.And(u.reach(v), g.VE(v, i)), u.reach(g.tgt(v, i))), [(u.reach(v), g.tgt(v, i))]))
    for nm in ("$disc", "$fin"):
        ghost(u, nm, AII, zero())
    ghost(u, "$edge", AAII, z3.K(I, zero()))
    ghost(u, "$act", AII, zero())     # discovered and unfinished vertices, innermost last
    ghost(u, "$nact", I, Z(0))
    ghost(u, "$pv", I, Z(-1))         # examined edge that is not classified yet
    ghost(u, "$pi", I, Z(-1))
    ghost(u, "$tree", I, Z(-1))       # target of a tree edge that is not discovered yet
    return [glv, u.put("source", u.s), u.put("vis", Opq("visitor"))]


def top(u):
    return u.get("$act")[u.get("$nact") - 1]


def on_discover(u, c):
    v = vid(c.ex, c.args[1])
    n = u.get("$nact")
    u.ex.oblige(z3.Or(z3.And(n == 0, v == u.s), z3.And(n > 0, u.get("$tree") == v)), "only the source and targets of tree edges are discovered", "post")
    u.ex.oblige(u.get("$pv") == -1, "an examined edge is classified before anything else happens", "post")
    bump(u, "$disc", v)
    u.ex.store(LV("$act"), z3.Store(u.get("$act"), n, v))
    u.ex.store(LV("$nact"), n + 1)
    u.ex.store(LV("$tree"), Z(-1))
    return UNIT


def on_finish(u, c):
    v = vid(c.ex, c.args[1])
    n = u.get("$nact")
    u.ex.oblige(z3.And(n > 0, top(u) == v), "the vertex finished is the innermost unfinished one (proper nesting)", "post")
    u.ex.oblige(z3.And(u.get("$pv") == -1, u.get("$tree") == -1), "an examined edge is classified before anything else happens", "post")
    bump(u, "$fin", v)
    u.ex.store(LV("$nact"), n - 1)
    return UNIT


def on_edge(u, c):
    s, i, _ = eparts(c.ex, c.args[1])
    u.ex.oblige(z3.And(u.get("$nact") > 0, top(u) == s), "an edge is examined while its source is the innermost unfinished vertex", "post")
    u.ex.oblige(z3.And(u.get("$pv") == -1, u.get("$tree") == -1), "an examined edge is classified before anything else happens", "post")
    e = u.get("$edge")
    u.ex.store(LV("$edge"), z3.Store(e, s, z3.Store(e[s], i, e[s][i] + 1)))
    u.ex.store(LV("$pv"), s)
    u.ex.store(LV("$pi"), i)
    return UNIT


def classify(what):
    def f(u, c):
        s, i, _ = eparts(c.ex, c.args[1])
        d, n = u.get("$disc"), u.get("$fin")
        t = u.g.tgt(s, i)
        u.ex.oblige(z3.And(u.get("$pv") == s, u.get("$pi") == i), "the edge classified is the one just examined, classified once", "post")
        if what == "tree":
            u.ex.oblige(d[t] == 0, "tree edge: target undiscovered", "post")
            u.ex.store(LV("$tree"), t)
        elif what == "back":
            u.ex.oblige(z3.And(d[t] == 1, n[t] == 0), "back edge: target discovered and unfinished", "post")
        else:
            u.ex.oblige(n[t] == 1, "forward or cross edge: target finished", "post")
        u.ex.store(LV("$pv"), Z(-1))
        u.ex.store(LV("$pi"), Z(-1))
        return UNIT
    return f


def state(u, ctx):
    seqs = local_seqs(u, ctx)
    color = [s for lv, s in seqs if s.eshape and s.eshape[0] == "s"]
    st = [s for lv, s in seqs if s.eshape and s.eshape[0] == "rec"]
    return color[0], st[0]


def loop(u, ctx):
    ex, g = u.ex, u.g
    color, S = state(u, ctx)
    C = color.arrs[0]
    at = frame_view(ex, S)
    disc, fin, edge, act, nact = (u.get("$" + n) for n in ("disc", "fin", "edge", "act", "nact"))
    v, j, k, i = z3.Ints("v j k i")
    ins = lambda j: z3.And(S.lo <= j, j < S.hi)
    gray = lambda v: z3.And(disc[v] == 1, fin[v] == 0)
    # position of a vertex on the stack
    r = [("size of the colours", z3.And(color.lo == 0, color.hi == g.n, S.lo == 0)),
         ("nothing pending", z3.And(u.get("$pv") == -1, u.get("$tree") == -1)),
         ("colours tell what was discovered and finished",
          FA([v], z3.Implies(g.V(v), z3.And(disc[v] == z3.If(C[v] == 0, 0, 1), fin[v] == z3.If(C[v] == 2, 1, 0), 0 <= C[v], C[v] <= 2)), [C[v], disc[v], fin[v]])),
         ("the stack holds the unfinished vertices in order of discovery", z3.And(nact == S.hi, FA([k], z3.Implies(ins(k), z3.And(g.V(act[k]), gray(act[k]), at(k)[0] == act[k])), [act[k]] + [a[k] for a in S.arrs]))),
         ("frames", FA([k], z3.Implies(ins(k), z3.And([0 <= at(k)[1], at(k)[1] <= g.deg(act[k])] + ([at(k)[2] == g.deg(act[k])] if at(k)[2] is not None else []) +
                                                     [x == act[k] for x in at(k)[3]])), [act[k]] + [a[k] for a in S.arrs])),
         ("the stack has no duplicates", FA([j, k], z3.Implies(z3.And(ins(j), ins(k), j != k), act[j] != act[k]), [(act[j], act[k])])),
         ("unfinished vertices are on the stack", FA([v], z3.Implies(z3.And(g.V(v), gray(v)), EX([k], z3.And(ins(k), act[k] == v))), [C[v]])),
         ("discovered vertices are reachable", FA([v], z3.Implies(z3.And(g.V(v), disc[v] == 1), u.reach(v)), [disc[v]])),
         ("the source is discovered", disc[u.s] == 1),
         ("edges of unfinished vertices: those before the cursor are examined",
          FA([k, i], z3.Implies(z3.And(ins(k), g.E(act[k], i)), z3.And(edge[act[k]][i] == z3.If(i < at(k)[1], 1, 0), z3.Implies(i < at(k)[1], disc[g.tgt(act[k], i)] == 1))),
             [edge[act[k]][i], g.tgt(act[k], i)])),
         ("edges of undiscovered vertices are not examined", FA([v, i], z3.Implies(z3.And(g.VE(v, i), disc[v] == 0), edge[v][i] == 0), [edge[v][i]])),
         ("edges of finished vertices are examined and lead to discovered ones",
          FA([v, i], z3.Implies(z3.And(g.VE(v, i), fin[v] == 1), z3.And(edge[v][i] == 1, disc[g.tgt(v, i)] == 1)), [edge[v][i], g.tgt(v, i)]))]
    return r


def post(u, r):
    ex, g = u.ex, u.g
    disc, fin, edge = (u.get("$" + n) for n in ("disc", "fin", "edge"))
    v, i = z3.Ints("v i")
    ex.oblige(FA([v], z3.Implies(g.V(v), z3.And(z3.Or(disc[v] == 0, disc[v] == 1), fin[v] == disc[v]))), "post: each vertex is discovered and finished together, at most once", "post")
    ex.oblige(z3.And(u.get("$nact") == 0, u.get("$pv") == -1, u.get("$tree") == -1), "post: everything discovered is finished and every examined edge is classified", "post")
    ex.oblige(FA([v], z3.Implies(z3.And(g.V(v), disc[v] == 1), u.reach(v))), "post: discovered vertices are reachable", "post")
    ex.oblige(disc[u.s] == 1, "post: the source is discovered", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(g.VE(v, i), disc[v] == 1), disc[g.tgt(v, i)] == 1)), "post: discovered vertices are closed under edges (hence all reachable vertices are discovered)", "post")
    ex.oblige(FA([v, i], z3.Implies(g.VE(v, i), edge[v][i] == disc[v])), "post: every out-edge of a discovered vertex is examined exactly once, no other edge", "post")


P = r"vcd::DfsVisitor::"
unit("C04", name="depth_first_search", driver="alg1", fn="graph::depth_first_search", setup=setup, loop=loop, post=post,
     extra=[(P + "on_discover_vertex", on_discover), (P + "on_finish_vertex", on_finish), (P + "on_examine_edge", on_edge), (P + "on_tree_edge", classify("tree")),
            (P + "on_back_edge", classify("back")), (P + "on_forward_or_cross_edge", classify("fc")), (P + "on_(start_vertex|finish_edge)", lambda u, c: UNIT)])

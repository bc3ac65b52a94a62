"""topological sort (C05)"""
from .common import *
from .bfs import AII
from .dfs import state as dfs_state


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    v, i, a, k = z3.Ints("v i a k")
    mode = u.unit.opts["mode"]
    args = [glv]
    if mode == "sources":
        n = u.int("nsrc", 0, 1 << 62)
        lv, src = u.seq("srcs", n)
        ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n), g.V(src[k])), [src[k]]))
        args.append(lv)
        u.want = lambda v: EX([k], z3.And(0 <= k, k < n, src[k] == v))
        u.src, u.nsrc = src, n
    elif mode == "single":
        s = u.int("source", 0)
        ex.assume(g.V(s))
        args.append(u.put("source", s))
        u.src, u.nsrc = z3.Const("srcs0", AII), Z(1)
        ex.assume(u.src[0] == s)
    else:
        # every vertex is requested
        u.src, u.nsrc = z3.Const("srcs0", AII), g.n
        ex.assume(FA([v], u.src[v] == v, [u.src[v]]))
    u.reach = z3.Function("reach", I, B)
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < u.nsrc), u.reach(u.src[k])), [u.src[k]]))
    if mode == "all":
        ex.assume(FA([v], z3.Implies(g.V(v), u.reach(v)), [u.reach(v)]))
    ex.assume(FA([v, i], z3.Implies(z3.And(u.reach(v), g.VE(v, i)), u.reach(g.tgt(v, i))), [(u.reach(v), g.tgt(v, i))]))
    u.path = z3.Function("path", I, I, B)   # a walk with at least one edge
    ex.assume(FA([v, i], z3.Implies(g.VE(v, i), u.path(v, g.tgt(v, i))), [g.tgt(v, i)]))
    ex.assume(FA([a, v, i], z3.Implies(z3.And(u.path(a, v), g.VE(v, i)), u.path(a, g.tgt(v, i))), [(u.path(a, v), g.tgt(v, i))]))
    out = u.out()
    return args + [out]


def parts(u, ctx):
    """colours, finish order, stack of frames, colours at loop entry"""
    seqs = local_seqs(u, ctx, skip=("srcs",))
    sc = [x for x in seqs if x[1].eshape and x[1].eshape[0] == "s" and x[1].kind == "vector"]
    # the colours are as many as the vertices; the finish order starts empty
    color = [x for x in sc if x[1].meta.get("enum")] or sc[:1]
    fin = [s for lv, s in sc if lv.obj != color[0][0].obj]
    st = [s for lv, s in seqs if s.eshape and s.eshape[0] == "rec"]
    return color[0][1], fin[0], st[-1] if st else None, ctx.entry.store[color[0][0].obj]


def loop(u, ctx):
    ex, g = u.ex, u.g
    color, F, S, color0 = parts(u, ctx)
    C, f = color.arrs[0], F.arrs[0]
    v, j, k, i = z3.Ints("v j k i")
    inF = lambda k: z3.And(0 <= k, k < F.hi)
    o = u.get("$out")
    r = [("sizes", z3.And(color.lo == 0, color.hi == g.n, F.lo == 0, F.hi >= 0, o.hi == 0, o.lo == 0)),
         ("colours", FA([v], z3.Implies(g.V(v), z3.And(0 <= C[v], C[v] <= 2, z3.Implies(C[v] != 0, u.reach(v)))), [C[v]])),
         ("finished vertices", FA([k], z3.Implies(inF(k), z3.And(g.V(f[k]), C[f[k]] == 2)), [f[k]])),
         ("finished vertices are recorded once", FA([j, k], z3.Implies(z3.And(inF(j), inF(k), j != k), f[j] != f[k]), [(f[j], f[k])])),
         ("finished vertices are recorded", FA([v], z3.Implies(z3.And(g.V(v), C[v] == 2), EX([k], z3.And(inF(k), f[k] == v))), [C[v]])),
         ("edges of finished vertices lead to vertices finished earlier",
          FA([k, i], z3.Implies(z3.And(inF(k), g.E(f[k], i)), EX([j], z3.And(0 <= j, j < k, f[j] == g.tgt(f[k], i)))), [g.tgt(f[k], i)]))]
    if ctx.kind != "while":
        p = ctx.cond_iters()[0].pos
        return r + [("no search in progress", FA([v], z3.Implies(g.V(v), C[v] != 1), [C[v]])),
                    ("requested vertices so far are finished", FA([k], z3.Implies(z3.And(0 <= k, k < p), C[u.src[k]] == 2), [u.src[k]])),
                    ("no cycle found", z3.And([z3.Not(truth(b)) for lv, b in ctx.mod_bools()]))]
    at = frame_view(ex, S)
    ins = lambda k: z3.And(0 <= k, k < S.hi)
    A = lambda k: at(k)[0]
    pats = lambda k: [a[k] for a in S.arrs]
    C0 = color0.arrs[0]
    r += [("no cycle found", z3.And([z3.Not(truth(b)) for lv, b in ctx.mod_bools()])),
          ("visited vertices stay visited", FA([v], z3.Implies(z3.And(g.V(v), C0[v] != 0), C[v] != 0), [C[v]])),
          ("frames", z3.And(S.lo == 0, FA([k], z3.Implies(ins(k), z3.And([g.V(A(k)), C[A(k)] == 1, 0 <= at(k)[1], at(k)[1] <= g.deg(A(k))] +
                                                                        ([at(k)[2] == g.deg(A(k))] if at(k)[2] is not None else []) + [x == A(k) for x in at(k)[3]])), pats(k)))),
          ("the stack has no duplicates", FA([j, k], z3.Implies(z3.And(ins(j), ins(k), j != k), A(j) != A(k)), [(A(j), A(k))])),
          ("unfinished vertices are on the stack", FA([v], z3.Implies(z3.And(g.V(v), C[v] == 1), EX([k], z3.And(ins(k), A(k) == v))), [C[v]])),
          ("the stack is a path", FA([j, k], z3.Implies(z3.And(ins(j), ins(k), j < k), u.path(A(j), A(k))), [(A(j), A(k))])),
          ("edges before the cursor lead to finished vertices, or to the next one on the stack",
           FA([k, i], z3.Implies(z3.And(ins(k), 0 <= i, i < at(k)[1]), z3.Or(C[g.tgt(A(k), i)] == 2, z3.And(k + 1 < S.hi, g.tgt(A(k), i) == A(k + 1)))), [g.tgt(A(k), i)]))]
    return r


def post(u, r):
    ex, g = u.ex, u.g
    ret = truth(ex.rv(r))
    O = u.get("$out")
    o = O.arrs[0]
    v, j, k, i = z3.Ints("v j k i")
    ino = lambda k: z3.And(0 <= k, k < O.hi)
    ex.oblige(z3.Implies(z3.Not(ret), O.hi == 0), "post: nothing is written when a cycle is found", "post")
    ex.oblige(z3.Implies(z3.Not(ret), EX([v], z3.And(g.V(v), u.reach(v), u.path(v, v)))), "post: false means that a cycle is reachable", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(ret, ino(k)), z3.And(g.V(o[k]), u.reach(o[k]))), [o[k]]), "post: reachable vertices are written", "post")
    ex.oblige(FA([j, k], z3.Implies(z3.And(ret, ino(k), ino(j), j != k), o[j] != o[k]), [(o[j], o[k])]), "post: no vertex is written twice", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(ret, 0 <= k, k < u.nsrc), EX([j], z3.And(ino(j), o[j] == u.src[k]))), [u.src[k]]), "post: every requested vertex is written", "post")
    ex.oblige(FA([k, i], z3.Implies(z3.And(ret, ino(k), g.E(o[k], i)), EX([j], z3.And(k < j, j < O.hi, o[j] == g.tgt(o[k], i)))), [g.tgt(o[k], i)]),
              "post: edges lead from earlier to later written vertices (so all reachable vertices are written and no cycle is reachable)", "post")


for mode in ("sources", "single", "all"):
    unit("C05", name="topological_sort (%s)" % mode, driver="alg1", fn="graph::topological_sort", setup=setup, loop=loop, post=post, opts={"mode": mode},
         sel=lambda f, mode=mode: {"sources": "sources", "single": "source", "all": "result"}[mode] == f["params"][1]["n"])

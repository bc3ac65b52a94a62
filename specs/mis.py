from .common import *


def setup(u):
    g, glv = u.graph()
    u.g = g
    out = u.out("mis")
    seed = u.int("seed", 0)
    u.seed = seed
    ex = u.ex
    ex.assume(z3.Or(g.n == 0, seed < g.n))
    # the graph is symmetric: rev(a,i) is the position at the target of an edge leading back
    rev = z3.Function("rev", I, I, I)
    a, i = z3.Ints("a i")
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), z3.And(g.VE(g.tgt(a, i), rev(a, i)), g.tgt(g.tgt(a, i), rev(a, i)) == a)), [g.tgt(a, i)]))
    return [glv, out, u.put("seed", seed)]


def loopfree(u, v):
    i = z3.Int("i")
    return FA([i], z3.Implies(u.g.E(v, i), u.g.tgt(v, i) != v), [u.g.tgt(v, i)])


def hasloop(u, v):
    i = z3.Int("i")
    return EX([i], z3.And(u.g.E(v, i), u.g.tgt(v, i) == v))


def S_inv(u, rem=None):
    """about the written sequence S (and the marks, while they exist)"""
    g = u.g
    S = u.get("$mis")
    s = S.arrs[0]
    j, k, i, v = z3.Ints("j k i v")
    inr = lambda x: z3.And(0 <= x, x < S.hi)
    r = [("written vertices are vertices of the graph", FA([j], z3.Implies(inr(j), g.V(s[j])), [s[j]])),
         ("written vertices are distinct", FA([j, k], z3.Implies(z3.And(inr(j), inr(k), j != k), s[j] != s[k]), [(s[j], s[k])])),
         ("written vertices have no self-loop and are pairwise non-adjacent",
          FA([j, i, k], z3.Implies(z3.And(inr(j), g.E(s[j], i), inr(k)), g.tgt(s[j], i) != s[k]), [(g.tgt(s[j], i), s[k])]))]
    if rem is not None:
        r += [("written vertices are marked", FA([j], z3.Implies(inr(j), truth(rem[s[j]])), [s[j]])),
              ("neighbours of written vertices are marked",
               FA([j, i], z3.Implies(z3.And(inr(j), g.E(s[j], i)), truth(rem[g.tgt(s[j], i)])), [g.tgt(s[j], i)])),
              ("a marked vertex is written, has a self-loop or a written neighbour",
               FA([v], z3.Implies(z3.And(g.V(v), truth(rem[v])), covered(u, v)), [rem[v]]))]
    return r


def covered(u, v):
    g, S = u.g, u.get("$mis")
    s = S.arrs[0]
    j, i = z3.Ints("j i")
    return z3.Or(EX([j], z3.And(0 <= j, j < S.hi, s[j] == v)), hasloop(u, v),
                 EX([j, i], z3.And(0 <= j, j < S.hi, g.E(s[j], i), g.tgt(s[j], i) == v)))


def marks(u, ctx):
    c = [(lv, v) for lv, v in ctx.mod_seqs()]
    return c[0] if c else None


def loop(u, ctx):
    g = u.g
    S = u.get("$mis")
    i, v = z3.Ints("i v")
    if ctx.kind in EDGES:
        x, p = edge_loop_u(ctx)
        m = marks(u, ctx)
        if m:   # marking the neighbours of x
            lv, r = m
            r0 = ctx.old(lv)
            a, a0 = r.arrs[0], r0.arrs[0]
            return [("size of the marks", z3.And(r.lo == r0.lo, r.hi == r0.hi)),
                    ("marks only grow", FA([v], z3.Implies(truth(a0[v]), truth(a[v])), [a0[v], a[v]])),
                    ("neighbours seen so far are marked", FA([i], z3.Implies(z3.And(0 <= i, i < p), truth(a[g.tgt(x, i)])), [g.tgt(x, i)])),
                    ("only neighbours are newly marked",
                     FA([v], z3.Implies(truth(a[v]), z3.Or(truth(a0[v]), EX([i], z3.And(0 <= i, i < p, g.tgt(x, i) == v)))), [a[v]]))]
        flag = z3.Or([b for _, b in ctx.mod_bools()] + [z3.BoolVal(False)])
        return [("no self-loop seen yet, or the flag is set", z3.Or(flag, FA([i], z3.Implies(z3.And(0 <= i, i < p), g.tgt(x, i) != x), [g.tgt(x, i)]))),
                ("the flag is set only for a self-loop", z3.Implies(flag, hasloop(u, x)))]
    if ctx.kind in VERTS:
        lv, r = marks(u, ctx)
        p = ctx.cond_iters()[0].pos
        return ([("size of the marks", z3.And(r.lo == 0, r.hi == g.n))] + S_inv(u, r.arrs[0]) +
                [("vertices visited so far are marked", FA([v], z3.Implies(z3.And(0 <= v, v < p), truth(r.arrs[0][v])), [r.arrs[0][v]])),
                 ("the count equals the number written", z3.And(*([x == S.hi for _, x in ctx.mod_ints()]))),
                 ("seed first", seedfirst(u))])


def seedfirst(u):
    S = u.get("$mis")
    return z3.Or(hasloop(u, u.seed), z3.And(S.hi > 0, S.arrs[0][0] == u.seed))


def post(u, r):
    ex, g = u.ex, u.g
    S = u.get("$mis")
    v = z3.Int("v")
    ex.oblige(r == S.hi, "post: the return value is the number written", "post")
    for n, f in S_inv(u):
        ex.oblige(f, "post: " + n, "post")
    ex.oblige(FA([v], z3.Implies(g.V(v), covered(u, v))), "post: every vertex not written has a self-loop or a written neighbour", "post")
    ex.oblige(z3.Implies(g.n > 0, seedfirst(u)), "post: the seed is written unless it has a self-loop", "post")
    ex.oblige(z3.Implies(g.n == 0, S.hi == 0), "post: nothing is written for the empty graph", "post")


unit("C13", name="maximal_independent_set", driver="alg1", fn="graph::maximal_independent_set", setup=setup, loop=loop, post=post)

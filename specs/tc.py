"""triangle_count (C12)"""
from .common import *


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    a, v, w, i, j, m, b = z3.Ints("a v w i j m b")
    # adjacency lists are strictly increasing (documented precondition)
    ex.assume(FA([a, i, j], z3.Implies(z3.And(g.VE(a, i), g.VE(a, j), i < j), g.tgt(a, i) < g.tgt(a, j)), [(g.tgt(a, i), g.tgt(a, j))]))
    # adj(a,w): a lists w
    adj = u.adj = z3.Function("adj", I, I, B)
    pos = u.adjpos = z3.Function("adjpos", I, I, I)
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), adj(a, g.tgt(a, i))), [g.tgt(a, i)]))
    ex.assume(FA([a, w], z3.Implies(adj(a, w), z3.And(g.VE(a, pos(a, w)), g.tgt(a, pos(a, w)) == w)), [adj(a, w)]))
    # K(a,v,m): number of w with v < w < m listed by both a and v;  J(a,m): number of (v,w), a < v < w, v < m, all three pairs
    # adjacent;  T(m): number of (a,v,w), a < v < w, a < m, all three pairs adjacent  (definitions by recursion on m)
    K, J, T = u.K, u.J, u.T = z3.Function("K", I, I, I, I), z3.Function("J", I, I, I), z3.Function("T", I, I)
    mt = u.mt = z3.Function("common_nb", I, I, I, B)
    ex.assume(FA([a, v, m], mt(a, v, m) == z3.And(m > v, adj(a, m), adj(v, m)), [mt(a, v, m)]))
    ex.assume(FA([a, v], K(a, v, 0) == 0, [K(a, v, 0)]))
    ex.assume(FA([a], J(a, 0) == 0, [J(a, 0)]))
    ex.assume(T(0) == 0)
    Kstep = lambda a, v, m: K(a, v, m + 1) == K(a, v, m) + z3.If(mt(a, v, m), 1, 0)
    Jstep = lambda a, m: J(a, m + 1) == J(a, m) + z3.If(z3.And(m > a, adj(a, m)), K(a, m, g.n), 0)
    u.Kstep, u.Jstep = Kstep, Jstep
    # lemmas by induction on b: no change over a stretch without matches
    noK = lambda a, v, m, b: FA([w], z3.Implies(z3.And(m <= w, w < b), z3.Not(mt(a, v, w))), [mt(a, v, w)])
    noJ = lambda a, m, b: FA([w], z3.Implies(z3.And(m <= w, w < b), z3.Not(z3.And(w > a, adj(a, w)))), [adj(a, w)])
    A, V_, M, B_ = (z3.Int(ex.fresh_name(x)) for x in "AVMB")
    hyp = z3.And(0 <= M, M <= B_, z3.Implies(noK(A, V_, M, B_), K(A, V_, M) == K(A, V_, B_)), Kstep(A, V_, B_))
    ex.oblige(z3.Implies(z3.And(hyp, noK(A, V_, M, B_ + 1), z3.Not(mt(A, V_, B_))), K(A, V_, M) == K(A, V_, B_ + 1)), "lemma (induction step): K is constant over a stretch without matches", "lemma")
    hyp = z3.And(0 <= M, M <= B_, z3.Implies(noJ(A, M, B_), J(A, M) == J(A, B_)), Jstep(A, B_))
    ex.oblige(z3.Implies(z3.And(hyp, noJ(A, M, B_ + 1), z3.Not(z3.And(B_ > A, adj(A, B_)))), J(A, M) == J(A, B_ + 1)), "lemma (induction step): J is constant over a stretch without neighbours", "lemma")
    u.jumpK = lambda a, v, m, b: z3.Implies(z3.And(0 <= m, m <= b, noK(a, v, m, b)), K(a, v, m) == K(a, v, b))
    u.jumpJ = lambda a, m, b: z3.Implies(z3.And(0 <= m, m <= b, noJ(a, m, b)), J(a, m) == J(a, b))
    ex.assume(FA([a, v, m, b], u.jumpK(a, v, m, b), [(K(a, v, m), K(a, v, b))]))
    ex.assume(FA([a, m, b], u.jumpJ(a, m, b), [(J(a, m), J(a, b))]))
    ex.assume(FA([m], z3.Implies(0 <= m, T(m + 1) == T(m) + J(m, g.n)), [J(m, g.n)]))
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), Jstep(a, g.tgt(a, i))), [g.tgt(a, i)]))
    ex.assume(FA([a, v, w], z3.Implies(mt(a, v, w), Kstep(a, v, w)), [mt(a, v, w)]))
    return [glv]


def last(g, x, pos):
    """one more than the target before the cursor"""
    return z3.If(pos == 0, 0, g.tgt(x, pos - 1) + 1)


def loop(u, ctx):
    ex, g = u.ex, u.g
    its = ctx.cond_iters()
    tri = ctx.mod_ints()[0][1]
    T, J, K = u.T, u.J, u.K
    if ctx.phase == "assume":
        ex.assume(tri < (1 << 62))   # the count does not overflow (listed assumption)
    if not its or ctx.kind in VERTS:
        p = its[0].pos if its else ctx.counters()[0][1]
        return [("position", z3.And(0 <= p, p <= g.n)), ("triangles whose least vertex is before the position are counted", tri == T(p))]
    if len(its) == 1:
        x, pos = its[0].rng.params[0], its[0].pos
        b = last(g, x, pos)
        if ctx.phase == "assume":
            # the stretch up to the next neighbour, and to the end
            for to in (g.tgt(x, pos), g.n):
                ex.assume(z3.Implies(z3.Or(pos < g.deg(x), to.eq(g.n)), u.jumpJ(x, b, to)))
        return [("position", z3.And(g.V(x), 0 <= pos, pos <= g.deg(x))),
                ("triangles through the neighbours before the cursor are counted", tri == T(x) + J(x, b))]
    x = ctx.parent.cond_iters()[0].rng.params[0]
    a, c = its[0], its[1]
    if not a.rng.params[0].eq(x):
        a, c = c, a
    v, p, q = c.rng.params[0], a.pos, c.pos
    b = last(g, v, q)
    b1 = z3.If(g.tgt(x, p - 1) + 1 > b, g.tgt(x, p - 1) + 1, b)
    pos = u.adjpos(x, v)
    i = z3.Int("i")
    if ctx.phase == "assume":
        ex.assume(u.jumpK(x, v, b1, g.n))
        m = z3.If(g.tgt(x, p) < g.tgt(v, q), g.tgt(x, p), g.tgt(v, q))
        ex.assume(z3.Implies(z3.And(p < g.deg(x), q < g.deg(v)), z3.And(u.jumpK(x, v, b1, m), u.jumpK(x, v, m, m + 1), u.Kstep(x, v, m), u.mt(x, v, m) == z3.And(m > v, u.adj(x, m), u.adj(v, m)))))
    if ctx.phase == "init":
        ex.assume(u.jumpK(x, v, Z(0), b1))
    return [("the pair whose common neighbours are counted", z3.And(g.V(x), g.V(v), x < v, u.adj(x, v))),
            ("positions", z3.And(pos < p, p <= g.deg(x), 0 <= q, q <= g.deg(v))),
            ("neighbours to come are beyond those compared", z3.And(FA([i], z3.Implies(z3.And(p <= i, i < g.deg(x)), g.tgt(x, i) >= b1), [g.tgt(x, i)]),
                                                                   FA([i], z3.Implies(z3.And(q <= i, i < g.deg(v)), g.tgt(v, i) >= b), [g.tgt(v, i)]),
                                                                   FA([i], z3.Implies(z3.And(q <= i, i < g.deg(v)), z3.Or(g.tgt(v, i) >= b1, g.tgt(v, i) <= v)), [g.tgt(v, i)]))),
            ("common neighbours compared are counted", tri == T(x) + J(x, v) + K(x, v, b1))]


def post(u, r):
    u.ex.oblige(u.ex.rv(r) == u.T(u.g.n), "post: the result is the number of triples a < v < w of pairwise adjacent vertices", "post")


unit("C12", name="triangle_count", driver="alg1", fn="graph::triangle_count", setup=setup, loop=loop, post=post)

"""jaccard_coefficient (C14)

N(u) is the set of targets of u's edges other than u.  card_inter(u,v) is the cardinality of N(u) & N(v); counting over any
injective listing that covers the intersection gives it (lemma, assumed; its two hypotheses are obligations)."""
from .common import *

GH = ("$x", "$i", "$rep", "$lx", "$li")
AIB = z3.ArraySort(I, B)


def out(u):
    def f(ex, args):
        g = u.g
        a, b = ex.rv(args[0]), ex.rv(args[1])
        s, i, _ = eparts(ex, args[2])
        val = ex.rv(args[3])
        t = g.tgt(s, i)
        ex.oblige(z3.And(g.VE(s, i), a == s, b == t, t != s), "reported: an edge that is no self-loop, with its two ends", "callback")
        lx, li = u.get("$lx"), u.get("$li")
        ex.oblige(z3.Or(lx < s, z3.And(lx == s, li < i)), "reported in iteration order, hence once", "callback")
        c = u.ci(s, t)
        un = u.cardN(s) + u.cardN(t) - c
        R_ = z3.ToReal
        ex.oblige(z3.If(un == 0, val == 0, val * R_(un) == R_(c)), "reported: |N(u) & N(v)| / |N(u) | N(v)|", "callback")
        ex.store(LV("$lx"), s)
        ex.store(LV("$li"), i)
        r2 = z3.Const(ex.fresh_name("rep"), z3.ArraySort(I, AIB))
        p, q = z3.Ints("p q")
        r = u.get("$rep")
        ex.assume(FA([p, q], r2[p][q] == z3.Or(r[p][q], z3.And(p == s, q == i)), [r2[p][q], r[p][q]]))
        ex.store(LV("$rep"), r2)
        return UNIT
    return Opq("functor:out", f)


def setup(u):
    ex = u.ex
    g, glv = u.graph()
    u.g = g
    a, i, t = z3.Ints("a i t")
    u.N = z3.Function("nbs", I, AIB)
    u.wit = z3.Function("nbs_wit", I, I, I)
    u.ci = z3.Function("card_inter", I, I, I)
    u.card = CARD
    ex.assume(CARD(z3.K(I, z3.BoolVal(False))) == 0)
    u.cardN = lambda v: u.card(u.N(v))
    N = u.N
    ex.assume(FA([a, i], z3.Implies(z3.And(g.VE(a, i), g.tgt(a, i) != a), N(a)[g.tgt(a, i)]), [g.tgt(a, i)]))
    ex.assume(FA([a, t], z3.Implies(N(a)[t], z3.And(t != a, g.VE(a, u.wit(a, t)), g.tgt(a, u.wit(a, t)) == t)), [N(a)[t]]))
    r0 = z3.Const("rep_0", z3.ArraySort(I, AIB))
    ex.assume(FA([a, i], z3.Not(r0[a][i]), [r0[a][i]]))
    u.put("$rep", r0)
    u.put("$lx", Z(-1))
    u.put("$li", Z(-1))
    u.put("$x", Z(-1))
    u.put("$i", Z(-1))
    return [glv, out(u)]


def sets(u):
    """the container of neighbour sets"""
    for fr in reversed(u.ex.frames):
        for lv in fr.names.values():
            s = u.ex.st.store.get(lv.obj)
            if not lv.path and isinstance(s, Seq) and s.eshape and s.eshape[0] == "set":
                return lv, s
    raise Unsupported("no container of neighbour sets")


def loop(u, ctx):
    ex, g, N = u.ex, u.g, u.N
    Sl, S = sets(u)
    arr, sz = (named(ex, x) for x in S.arrs)
    v, t, i = z3.Ints("v t i")
    keep = lambda *ns: [ex.store(LV(n), ctx.entry.store[n]) for n in ns] if ctx.phase == "assume" else None
    base = ("sizes", z3.And(S.lo == 0, S.hi == g.n))
    filled = [("neighbour sets", FA([v], z3.Implies(g.V(v), z3.And(arr[v] == N(v), sz[v] == u.cardN(v))), [arr[v], sz[v]]))]
    building = ctx.modified(Sl)
    if building:
        keep(*GH)
        frame = lambda P: [base, ("sizes are cardinalities", FA([v], z3.Implies(g.V(v), sz[v] == u.card(arr[v])), [sz[v], arr[v]])),
                           ("finished neighbour sets", FA([v, t], z3.Implies(z3.And(g.V(v), v < P), arr[v][t] == N(v)[t]), [arr[v][t], N(v)[t]])),
                           ("untouched neighbour sets", FA([v, t], z3.Implies(z3.And(g.V(v), v > P), z3.Not(arr[v][t])), [arr[v][t]]))]
        if ctx.kind in VERTS:
            p = ctx.cond_iters()[0].pos
            return [("position", z3.And(0 <= p, p <= g.n))] + frame(p) + [("untouched neighbour set", FA([t], z3.Implies(p < g.n, z3.Not(arr[p][t])), [arr[p][t]]))]
        x, pos = edge_loop_u(ctx)
        return frame(x) + [("position", z3.And(0 <= pos, pos <= g.deg(x), g.V(x))),
                           ("seen neighbours are in the set", FA([i], z3.Implies(z3.And(0 <= i, i < pos, g.tgt(x, i) != x), arr[x][g.tgt(x, i)]), [g.tgt(x, i)])),
                           ("only neighbours are in the set", FA([t], z3.Implies(arr[x][t], N(x)[t]), [arr[x][t]]))]
    rep, lx, li = u.get("$rep"), u.get("$lx"), u.get("$li")
    if ctx.kind in VERTS:
        keep("$x", "$i")
        p = ctx.cond_iters()[0].pos
        return [base, ("position", z3.And(0 <= p, p <= g.n))] + filled + [
            ("reported edges", FA([v, i], rep[v][i] == z3.And(g.VE(v, i), v < p, g.tgt(v, i) != v), [rep[v][i], g.tgt(v, i)])), ("last", lx < p)]
    if ctx.kind in EDGES:
        x, pos = edge_loop_u(ctx)
        if ctx.phase == "assume":
            ex.store(LV("$x"), x)
            ex.store(LV("$i"), pos)
        return [base, ("position", z3.And(0 <= pos, pos <= g.deg(x), g.V(x)))] + filled + [
            ("reported edges", FA([v, i], rep[v][i] == z3.And(g.VE(v, i), z3.Or(v < x, z3.And(v == x, i < pos)), g.tgt(v, i) != v), [rep[v][i], g.tgt(v, i)])),
            ("last", z3.Or(lx < x, z3.And(lx == x, li < pos)))]
    # counting loop over one of the two sets
    it = ctx.cond_iters()[0]
    if it.rng.kind != "setit":
        raise Unsupported("loop over %s" % it.rng.kind)
    keep(*GH)
    a, b = u.get("$x"), g.tgt(u.get("$x"), u.get("$i"))
    c, pos = it.rng.static.data
    (cnt,) = [x for _, x in ctx.mod_ints()]
    size = ex.rv(it.rng.static.lv).size
    k = it.pos
    if ctx.phase == "init":
        P = z3.Const(ex.fresh_name("P"), z3.ArraySort(I, I))
        y = z3.Int("y")
        ex.assume(P[0] == 0)
        ex.store(LV("$P"), P)
        both = z3.And(N(a)[y], N(b)[y])
        ok = FA([y], z3.Implies(both, z3.And(0 <= pos[y], pos[y] < size, c[pos[y]] == y)), [N(a)[y]])
        ex.oblige(ok, "the listing covers the common neighbours", "lemma")
        j1 = z3.Int("j1")
        ex.oblige(FA([j1], z3.Implies(z3.And(0 <= j1, j1 < size), pos[c[j1]] == j1), [c[j1]]), "the listing repeats nothing", "lemma")
        ex.assume(P[size] == u.ci(a, b))     # counting over an injective listing that covers a set gives its cardinality
    P = u.get("$P")
    q = z3.Int("q")
    if ctx.phase == "preserve":
        ex.assume(P[k] == P[k - 1] + z3.If(z3.And(N(a)[c[k - 1]], N(b)[c[k - 1]]), 1, 0))
    return [base, ("position", z3.And(0 <= k, k <= size)), ("common neighbours listed so far are counted", cnt == P[k])] + filled + [
        ("counts do not exceed what was listed", z3.And(cnt >= 0, cnt <= k))]


def post(u, r):
    ex, g = u.ex, u.g
    v, i = z3.Ints("v i")
    rep = u.get("$rep")
    ex.oblige(FA([v, i], rep[v][i] == z3.And(g.VE(v, i), g.tgt(v, i) != v), [rep[v][i], g.tgt(v, i)]), "post: exactly the edges that are no self-loops were reported", "post")


unit("C14", name="jaccard_coefficient", driver="alg3", fn="graph::jaccard_coefficient", setup=setup, loop=loop, post=post, opts={"ghosts": GH, "card": True})

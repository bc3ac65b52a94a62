from .common import *

MAX = (1 << 64) - 1


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    symmetric(u)
    # cc(v): canonical representative of v's connected component (the least equivalence containing the edges)
    u.cc = z3.Function("cc", I, I)
    a, i = z3.Ints("a i")
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), u.cc(a) == u.cc(g.tgt(a, i))), [g.tgt(a, i)]))
    n = u.int("comp.n", 0)
    ex.assume(n >= g.n)
    ex.assume(n < (1 << 62))
    lv, _ = u.seq("comp", n)
    u.n = n
    return [glv, lv]


def base(u, cid, incl):
    """cid labels are complete; incl: label cid itself is in use"""
    g = u.g
    c = u.get("comp")
    a = c.arrs[0]
    v, w, k, i = z3.Ints("v w k i")
    top = cid + 1 if incl else cid
    lab = lambda x: z3.And(g.V(x), a[x] != MAX)
    return [("size of the component array", z3.And(c.lo == 0, c.hi == u.n)),
            ("labels in use are below the next label", FA([v], z3.Implies(g.V(v), z3.Or(a[v] == MAX, z3.And(0 <= a[v], a[v] < top))), [a[v]])),
            ("equal labels only within one component", FA([v, w], z3.Implies(z3.And(lab(v), lab(w), a[v] == a[w]), u.cc(v) == u.cc(w)), [(a[v], a[w])])),
            ("every finished label is closed under edges",
             FA([v, i], z3.Implies(z3.And(g.VE(v, i), a[v] != MAX, a[v] < cid), a[g.tgt(v, i)] == a[v]), [g.tgt(v, i)])),
            ("every label below the next one is used", FA([k], z3.Implies(z3.And(MK(k), 0 <= k, k < cid), EX([v], z3.And(g.V(v), a[v] == k))), [MK(k)]))]


def loop(u, ctx):
    g = u.g
    a = u.get("comp").arrs[0]
    v, i = z3.Ints("v i")
    if ctx.kind in ("count",) + VERTS and ctx.depth == 0:
        u.cid_lv = ctx.mod_ints()[0][0]
        cid = u.ex.load(u.cid_lv)
        p = ctx.cond_iters()[0].pos if ctx.kind in VERTS else ctx.counters()[0][1]
        stk = [s for _, s in ctx.mod_seqs() if s.kind != "vector" or _.obj != "comp"]
        return (base(u, cid, False) + [("position and next label", z3.And(0 <= cid, cid <= p, p <= g.n)),
                                       ("visited vertices are labelled", FA([v], z3.Implies(z3.And(0 <= v, v < p), a[v] != MAX), [a[v]])),
                                       ("the work list is empty between components", z3.And(*[s.lo == s.hi for s in stk]))])
    cid = u.ex.load(u.cid_lv)
    p = u.pos_outer(ctx) if hasattr(u, "pos_outer") else None
    if ctx.kind == "while":
        u.stk_lv = [lv for lv, s in ctx.mod_seqs() if lv.obj != "comp"][0]
    st = u.ex.load(u.stk_lv)
    j = z3.Int("j")
    x = edge_loop_u(ctx)[0] if ctx.kind in EDGES else None
    closed = lambda v: FA([i], z3.Implies(g.E(v, i), a[g.tgt(v, i)] == cid), [g.tgt(v, i)])
    inv = base(u, cid, True) + [
        ("work list holds vertices of the component being labelled",
         FA([j], z3.Implies(z3.And(st.lo <= j, j < st.hi), z3.And(g.V(st.arrs[0][j]), a[st.arrs[0][j]] == cid)), [st.arrs[0][j]])),
        ("labels once given are kept", FA([v], z3.Implies(z3.And(g.V(v), ctx_old(u, ctx)[v] != MAX), a[v] == ctx_old(u, ctx)[v]), [a[v]])),
        ("a vertex with the current label waits in the work list or is finished",
         FA([v], z3.Implies(z3.And(g.V(v), a[v] == cid), z3.Or(in_seq(st, v), closed(v), v == x if x is not None else False)), [a[v]]))]
    if x is not None:
        pos = edge_loop_u(ctx)[1]
        inv += [("the vertex being expanded has the current label", a[x] == cid),
                ("targets seen so far are labelled", FA([i], z3.Implies(z3.And(0 <= i, i < pos), a[g.tgt(x, i)] == cid), [g.tgt(x, i)]))]
    return inv


def ctx_old(u, ctx):
    return ctx.old(LV("comp")).arrs[0]


def post(u, r):
    ex, g = u.ex, u.g
    c = u.get("comp")
    a = c.arrs[0]
    v, w, i, k = z3.Ints("v w i k")
    ex.oblige(FA([v], z3.Implies(g.V(v), z3.And(0 <= a[v], a[v] < r))), "post: every vertex has a label below the returned count", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(MK(k), 0 <= k, k < r), EX([v], z3.And(g.V(v), a[v] == k)))), "post: every label below the count is used", "post")
    ex.oblige(FA([v, w], z3.Implies(z3.And(g.V(v), g.V(w), a[v] == a[w]), u.cc(v) == u.cc(w))), "post: equal labels imply connected", "post")
    closed = FA([v, i], z3.Implies(g.VE(v, i), a[g.tgt(v, i)] == a[v]), [g.tgt(v, i)])
    ex.oblige(closed, "post: labels are constant along edges (hence, connectivity being the least such equivalence, connected implies equal labels)", "post")


unit("C06", name="connected_components", driver="alg1", fn="graph::connected_components", setup=setup, loop=loop, post=post)

"""Prim (C11)

Minimality is stated as the bottleneck certificate: for an arbitrary weight W and an arbitrary labelling cl that is constant
along the tree edges not worse than W, the ends of every edge not worse than W inside the tree have equal labels; i.e. the
ends of every edge are joined by tree edges that are not worse.  An acyclic spanning edge set with this property is a
minimum spanning tree (cited lemma)."""
from .common import *
from .mst import order, cmp_call, ite_array, R, AIR, AII

GHOSTS = ("$ord", "$T", "$cur", "$cc", "$bad", "$time", "$x", "$ei")
AIB = z3.ArraySort(I, B)


def weight(u):
    def f(ex, args):
        s, i, _ = eparts(ex, args[1])
        return u.g.wt(s, i)
    return Opq("functor:weight", f)


def setup(u):
    ex = u.ex
    order(u)
    g, glv = u.graph()
    u.g = g
    a, i = z3.Ints("a i")
    rev = z3.Function("rev", I, I, I)
    t = g.tgt(a, i)
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), z3.And(g.VE(t, rev(a, i)), g.tgt(t, rev(a, i)) == a, g.wt(t, rev(a, i)) == g.wt(a, i))), [t]))
    u.rev = rev
    u.init = DBL_MAX
    if u.unit.opts.get("cmp"):
        u.init = z3.Real("init_dist")
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), u.lt(g.wt(a, i), u.init)), [g.wt(a, i)]))   # documented: worse than any edge weight
    u.pn, u.wn = u.int("pred.n", 0, 1 << 62), u.int("weight.n", 0, 1 << 62)
    plv, u.p0 = u.seq("pred", u.pn)
    wlv, u.w0 = u.seq("weight", u.wn, R)
    u.seed = u.int("seed", 0, 1 << 64)
    u.W, u.cl = z3.Real("WW"), z3.Function("cl", I, I)
    u.put("$ord", z3.Const("ord_0", AII))     # when a vertex joined the tree
    u.put("$time", Z(0))
    u.put("$T", z3.K(I, z3.BoolVal(False)))   # vertices in the tree
    c0 = z3.Const("cur_0", AIB)
    ex.assume(FA([a], z3.Not(c0[a]), [c0[a]]))
    u.put("$cur", c0)        # ... since the last one joined by an edge worse than W
    u.put("$cc", z3.Int("cc_0"))              # their label
    u.put("$bad", Z(-1))                      # a vertex whose tree edge is not worse than W and whose ends cl distinguishes
    u.put("$x", Z(-1))
    u.put("$ei", z3.Const("ei_0", AII))       # which edge of the predecessor
    args = [glv, plv, wlv]
    if u.unit.opts.get("cmp"):
        args += [u.put("cmp", Opq("comparator")), u.put("init", u.init), u.put("wf", weight(u))]
    return args + [u.put("seed", u.seed)]


def tree_seq(u):
    """the marks of vertices in the tree"""
    for fr in reversed(u.ex.frames):
        for lv in fr.names.values():
            s = u.ex.st.store.get(lv.obj)
            if not lv.path and isinstance(s, Seq) and s.eshape and s.eshape[0] == "s" and s.eshape[1] == B:
                return lv, s
    raise Unsupported("no marks of the vertices in the tree")


def dist_seq(u):
    for fr in reversed(u.ex.frames):
        for lv in fr.names.values():
            s = u.ex.st.store.get(lv.obj)
            if not lv.path and isinstance(s, Seq) and lv.obj not in ("pred", "weight") and s.eshape and s.eshape[0] == "s" and s.eshape[1] == R:
                return lv, s
    raise Unsupported("no keys")


def queue(u):
    for fr in reversed(u.ex.frames):
        for lv in fr.names.values():
            s = u.ex.st.store.get(lv.obj)
            if not lv.path and isinstance(s, Bag):
                return lv, s
    raise Unsupported("no queue")


def loop(u, ctx):
    g, ex = u.g, u.ex
    v, i, k = z3.Ints("v i k")
    b = z3.Real("b")
    D, P, Wt = dist_seq(u)[1], u.get("pred"), u.get("weight")
    d, p, w = D.arrs[0], P.arrs[0], Wt.arrs[0]
    Tl, Ts = tree_seq(u)
    T = Ts.arrs[0]
    lt, V, seed, init = u.lt, g.V, u.seed, u.init
    def keep(*names):
        # only the specification of the main loop changes these
        if ctx.phase == "assume":
            for nm in names:
                ex.store(LV(nm), ctx.entry.store[nm])
    if ctx.kind == "count":
        keep(*GHOSTS)
        # the sum at the end
        c = ctx.counters()[0][1]
        lv, tot = [(lv, x) for lv, x in ctx.mod_vals(lambda a: z3.is_expr(a) and z3.is_real(a))][0]
        if ctx.phase == "init":
            S = z3.Const(ex.fresh_name("S"), AIR)
            ex.assume(S[0] == 0)
            ex.assume(FA([k], z3.Implies(k >= 0, S[k + 1] == S[k] + z3.If(z3.And(T[k], k != seed), w[k], 0)), [S[k + 1]]))
            ex.store(LV("$S"), S)
        S = u.get("$S")
        if ctx.phase == "preserve":
            ex.assume(S[c] == S[c - 1] + z3.If(z3.And(T[c - 1], c - 1 != seed), w[c - 1], 0))
        return [("counter in range", z3.And(0 <= c, c <= g.n)), ("the weights are summed", tot == S[c])]
    Q = queue(u)[1]
    q = lambda v, b: Q.sel([v, b])
    x = pos = None
    if ctx.kind in EDGES:
        x, pos = edge_loop_u(ctx)
        keep(*[nm for nm in GHOSTS if nm not in ("$ei", "$x")])
        if ctx.phase == "init":
            ex.store(LV("$x"), x)
    elif ctx.phase == "assume":
        ex.store(LV("$x"), Z(-1))
    if ctx.phase == "preserve" and x is not None:
        # remember which edge a changed key comes from
        hd, t = ctx.head.store[dist_seq(u)[0].obj].arrs[0], g.tgt(x, pos - 1)
        same = simp(d[t] == hd[t])
        e2 = z3.Store(u.get("$ei"), t, pos - 1)
        if not d.eq(hd):
            ex.store(LV("$ei"), ite_array(ex, same, u.get("$ei"), e2))
    if ctx.phase == "preserve" and x is None:
        h = ctx.head.store
        X, T0 = u.get("$x"), h["$T"]
        tm = h["$time"]
        if not z3.is_int_value(X):
            # X joined the tree in this step
            worse = z3.Or(X == seed, lt(u.W, w[X]))
            c2 = z3.Const(ex.fresh_name("cur"), AIB)
            for pt in ([c2[v]], [h["$cur"][v]]):
                ex.assume(FA([v], c2[v] == z3.Or(v == X, z3.And(z3.Not(worse), h["$cur"][v])), pt))
            t2 = u.get("$trx")
            ex.assume(t2 == z3.Store(T0, X, True))
            b2, cc2 = z3.Int(ex.fresh_name("bad")), z3.Int(ex.fresh_name("cc"))
            ex.assume(cc2 == z3.If(worse, u.cl(X), h["$cc"]))
            ex.assume(b2 == z3.If(z3.And(h["$bad"] == -1, z3.Not(worse), u.cl(X) != u.cl(p[X])), X, h["$bad"]))
            for nm, val in (("$ord", z3.Store(h["$ord"], X, tm)), ("$T", t2), ("$cur", c2), ("$cc", cc2), ("$bad", b2), ("$time", tm + 1)):
                ex.store(LV(nm), val)
    tr = u.get("$T")
    if x is not None:
        if ctx.phase == "init":
            tx = z3.Const(ex.fresh_name("trx"), AIB)
            ex.assume(FA([v], tx[v] == z3.Or(v == x, tr[v]), [tx[v]]))
            ex.assume(FA([v], tx[v] == z3.Or(v == x, tr[v]), [tr[v]]))
            ex.store(LV("$trx"), tx)
        tr = u.get("$trx")
    ei = u.get("$ei")
    ord_, cur, cc, bad, time = (u.get("$" + n) for n in ("ord", "cur", "cc", "bad", "time"))
    ins = lambda v: z3.And(V(v), tr[v])
    out = lambda v: z3.And(V(v), z3.Not(tr[v]))
    reached = lambda v: d[v] != init
    wv = z3.Const("b", R)
    done = lambda v, i: z3.And(g.VE(v, i), tr[v], z3.Or(v != x, i < pos) if x is not None else True)
    r = [("sizes", z3.And(D.lo == 0, D.hi == g.n, P.lo == 0, P.hi == u.pn, Wt.lo == 0, Wt.hi == u.wn, Ts.lo == 0, Ts.hi == g.n, V(seed), g.n <= u.pn, g.n <= u.wn)),
         ("the marks are the vertices in the tree", FA([v], z3.Implies(V(v), T[v] == tr[v]), [T[v], tr[v]])),
         ("the seed is its own predecessor", p[seed] == seed),
         ("queue entries are not better than the key", FA([v, b], z3.Implies(q(v, b) > 0, z3.And(V(v), z3.Or(v == seed, reached(v)), z3.Implies(z3.Not(tr[v]), z3.Not(lt(b, d[v]))))), [q(v, b)])),
         ("the seed comes first", z3.Implies(z3.Not(tr[seed]), z3.And(FA([v], z3.Not(ins(v)), [tr[v]]), z3.Or(q(seed, d[seed]) > 0), FA([v], z3.Implies(z3.And(V(v), v != seed), z3.Not(reached(v))), [d[v]])))),
         ("reached vertices outside the tree are queued under their key and have a fitting edge to the tree",
          FA([v], z3.Implies(z3.And(out(v), v != seed, reached(v)),
                             z3.And(q(v, d[v]) > 0, w[v] == d[v], ins(p[v]), g.E(p[v], ei[v]), g.tgt(p[v], ei[v]) == v, g.wt(p[v], ei[v]) == d[v], lt(d[v], init))), [d[v], p[v], tr[v]])),
         ("edges out of the tree are no better than the key of their target",
          FA([v, i], z3.Implies(z3.And(done(v, i), z3.Not(tr[g.tgt(v, i)])), z3.And(reached(g.tgt(v, i)), z3.Not(lt(g.wt(v, i), d[g.tgt(v, i)])))), [g.tgt(v, i), g.wt(v, i)])),
         ]
    if x is not None:
        e = ctx.entry.store
        p0, w0 = e["pred"].arrs[0], e["weight"].arrs[0]
        return r + [("vertices in the tree keep predecessor and weight", FA([v], z3.Implies(ins(v), z3.And(p[v] == p0[v], w[v] == w0[v])), [p[v], p0[v], tr[v]])),
                    ("vertices in the tree keep predecessor and weight (weight)", FA([v], z3.Implies(ins(v), w[v] == w0[v]), [w[v], w0[v], tr[v]])),
                    ("vertices in the tree keep their edge", FA([v], z3.Implies(ins(v), ei[v] == e["$ei"][v]), [ei[v], tr[v]])),
                    ("the vertex being examined joins the tree", z3.And(V(x), z3.Not(u.get("$T")[x])))]
    r += [("tree edges exist and carry their weight; predecessors joined earlier",
           FA([v], z3.Implies(z3.And(ins(v), v != seed), z3.And(ins(p[v]), g.E(p[v], ei[v]), g.tgt(p[v], ei[v]) == v, g.wt(p[v], ei[v]) == w[v], ord_[p[v]] < ord_[v])), [p[v], tr[v]])),
          ("time", FA([v], z3.Implies(ins(v), ord_[v] < time), [ord_[v]])),
          ("witness", z3.Or(bad == -1, z3.And(ins(bad), bad != seed, z3.Not(lt(u.W, w[bad])), u.cl(bad) != u.cl(p[bad])))),
          ("vertices joined since the last worse edge have one label", z3.Implies(bad == -1, FA([v], z3.Implies(z3.And(V(v), cur[v]), z3.And(tr[v], u.cl(v) == cc)), [cur[v], tr[v]]))),
          ("edges from earlier vertices out of the tree are worse",
           z3.Implies(bad == -1, FA([v, i], z3.Implies(z3.And(g.VE(v, i), tr[v], z3.Not(cur[v]), z3.Not(tr[g.tgt(v, i)])), lt(u.W, g.wt(v, i))), [g.tgt(v, i), g.wt(v, i)]))),
          ("ends of edges inside the tree that are not worse have one label",
           z3.Implies(bad == -1, FA([v, i], z3.Implies(z3.And(g.VE(v, i), tr[v], tr[g.tgt(v, i)], z3.Not(lt(u.W, g.wt(v, i)))), u.cl(v) == u.cl(g.tgt(v, i))), [g.tgt(v, i), g.wt(v, i)])))]
    return r


def post(u, r):
    ex, g = u.ex, u.g
    r = ex.rv(r)
    V, seed, lt = g.V, u.seed, u.lt
    P, Wt = u.get("pred"), u.get("weight")
    p, w = P.arrs[0], Wt.arrs[0]
    T, ord_, ei = u.get("$T"), u.get("$ord"), u.get("$ei")
    v, i, k = z3.Ints("v i k")
    ins = lambda v: z3.And(V(v), T[v])
    ex.oblige(z3.And(V(seed), g.n <= u.pn, g.n <= u.wn), "post: a seed out of range and too small ranges are reported, not processed", "post")
    ex.oblige(z3.And(P.lo == 0, P.hi == u.pn, Wt.lo == 0, Wt.hi == u.wn), "post: the ranges keep their sizes", "post")
    ex.oblige(z3.And(T[seed], p[seed] == seed), "post: the seed is in the tree and its own predecessor", "post")
    ex.oblige(FA([v, i], z3.Implies(z3.And(g.VE(v, i), T[v]), T[g.tgt(v, i)])), "post: the tree is closed under edges (hence holds every vertex connected to the seed)", "post")
    ex.oblige(FA([v], z3.Implies(z3.And(ins(v), v != seed), z3.And(ins(p[v]), g.E(p[v], ei[v]), g.tgt(p[v], ei[v]) == v, g.wt(p[v], ei[v]) == w[v], ord_[p[v]] < ord_[v]))),
              "post: predecessors are in the tree, joined earlier, by an edge of the recorded weight (hence a tree rooted at the seed)", "post")
    resp = FA([v], z3.Implies(z3.And(ins(v), v != seed, z3.Not(lt(u.W, w[v]))), u.cl(v) == u.cl(p[v])), [w[v], p[v]])
    ex.oblige(z3.Implies(resp, FA([v, i], z3.Implies(z3.And(g.VE(v, i), T[v], z3.Not(lt(u.W, g.wt(v, i)))), u.cl(v) == u.cl(g.tgt(v, i))))),
              "post: the ends of every edge in the seed's component are joined by tree edges that are not worse (hence a minimum spanning tree)", "post")
    S = u.get("$S")
    ex.oblige(z3.And(S[0] == 0, FA([k], z3.Implies(V(k), S[k + 1] == S[k] + z3.If(z3.And(T[k], k != seed), w[k], 0)), [S[k + 1]]), r == S[g.n]), "post: the sum of the recorded weights over the tree is returned", "post")


def throws(u, t):
    if "out_of_range" not in t.tname:
        u.ex.oblige(z3.BoolVal(False), "no exception other than std::out_of_range leaves the function (%s)" % t.tname, "exception")
        return
    u.ex.oblige(z3.Or(u.seed >= u.g.n, u.pn < u.g.n, u.wn < u.g.n), "std::out_of_range only for a seed out of range or a too small range", "exception")


for cmp in (False, True):
    unit("C11", name="prim" + (" (comparator)" if cmp else ""), driver="alg2", fn="graph::prim", setup=setup, loop=loop, post=post, throws=throws,
         sel=lambda f, cmp=cmp: len(f["params"]) == (7 if cmp else 4), extra=[(r"vcd::Cmp::operator\(\)", cmp_call)],
         opts={"ghosts": GHOSTS, "cmp": cmp, "must_reach": ["precondition", "return"]})

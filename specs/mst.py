"""Kruskal (C10) and Prim (C11)"""
from .common import *
from .dsu import Forest

AII = z3.ArraySort(I, I)
R = z3.RealSort()
AIR = z3.ArraySort(I, R)
MAXID = 1 << 62


def order(u):
    """the comparison of edge values: the default < or an arbitrary strict weak order"""
    if not u.unit.opts.get("cmp"):
        u.lt = lambda a, b: a < b
        return
    f = z3.Function("lt", R, R, B)
    a, b, c = z3.Reals("a b c")
    ex = u.ex
    ex.assume(FA([a], z3.Not(f(a, a)), [f(a, a)]))
    ex.assume(FA([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c)), [(f(a, b), f(b, c))]))
    ex.assume(FA([a, b, c], z3.Implies(f(a, c), z3.Or(f(a, b), f(b, c))), [(f(a, c), f(a, b)), (f(a, c), f(b, c))]))
    u.lt = f


def cmp_call(u, c):
    a, b = (u.ex.rv(x) for x in c.args[-2:])
    return u.lt(a, b)


def setup_kruskal(u):
    ex = u.ex
    order(u)
    ps = u.fn["params"]
    u.n = u.int("e.n", 0, MAXID)
    elv, e0 = u.rec_seq("e", ps[0]["t"], u.n)
    u.t0 = u.int("t.n", 0, MAXID)
    tlv, u.told = u.rec_seq("t", ps[1]["t"], u.t0)
    u.e0 = [e0[k] for k in ("source_id", "target_id", "value")]
    k, x = z3.Ints("k x")
    ex.assume(FA([k], z3.Implies(z3.And(0 <= k, k < u.n), z3.And([z3.And(0 <= a[k], a[k] < MAXID) for a in u.e0[:2]])), [u.e0[0][k], u.e0[1][k]]))
    # an arbitrary labelling and an arbitrary position: what is proved about them holds for all
    u.cl, u.K = z3.Function("cl", I, I), z3.Int("KK")
    for nm, so in (("$idx", AII), ("$rep", AII), ("$lev", AII), ("$hist", z3.ArraySort(I, AII)), ("$P", AIR)):
        u.put(nm, z3.Const(nm[1:] + "_0", so))
    u.put("$top", z3.Int("top_0"))
    u.put("$bad", Z(-1))   # an output edge up to position K whose ends the labelling cl distinguishes, -1: none
    args = [elv, tlv]
    if u.unit.opts.get("cmp"):
        args.append(u.put("cmp", Opq("comparator")))
    return args


def c_union_find(u, c):
    """contract of disjoint_union_find (proved for C09)"""
    ex = u.ex
    lv = c.args[0] if isinstance(c.args[0], LV) else ex.rv(c.args[0]).lv
    S = ex.load(lv)
    a, b = ex.rv(c.args[1]), ex.rv(c.args[2])
    f = cur_forest(u, S)
    old = u.field(S, "id")
    for nm, q in f.facts(old):
        ex.oblige(q, "disjoint_union_find is called on a forest: " + nm, "pre")
    ex.oblige(z3.And(S.lo == 0, f.V(a), f.V(b)), "disjoint_union_find is called with elements of the forest", "pre")
    names = [n for n, _ in S.eshape[2]]
    new = [z3.Const(ex.fresh_name("uf"), x.sort()) for x in S.arrs]
    ex.store(lv, S.copy(arrs=new))
    rep2, lev2, top2 = z3.Const(ex.fresh_name("rep"), AII), z3.Const(ex.fresh_name("lev"), AII), z3.Int(ex.fresh_name("top"))
    w = z3.Int(ex.fresh_name("root"))
    rep = u.get("$rep")
    x = z3.Int("x")
    ex.assume(z3.Or(w == rep[a], w == rep[b]))
    ex.assume(FA([x], z3.Implies(f.V(x), rep2[x] == z3.If(z3.Or(rep[x] == rep[a], rep[x] == rep[b]), w, rep[x])), [rep2[x]]))
    u.ex.store(LV("$before"), rep)
    for nm, v in (("$rep", rep2), ("$lev", lev2), ("$top", top2)):
        ex.store(LV(nm), v)
    for _, q in cur_forest(u, ex.load(lv)).facts(new[names.index("id")]):
        ex.assume(q)
    return rep[a] != rep[b]


def cur_forest(u, S):
    rep, lev = u.get("$rep"), u.get("$lev")
    return Forest(S.hi, lambda x: rep[x], lambda x: lev[x], u.get("$top"))


def ite_array(ex, c, a, b):
    r = z3.Const(ex.fresh_name("gh"), a.sort())
    ex.assume(z3.If(c, r == a, r == b))
    return r


def trip(s):
    return s.arrs[:3]


def loop_kruskal(u, ctx):
    ex = u.ex
    k, x, j, q, y = z3.Ints("k x j q y")
    its = ctx.cond_iters()
    T = u.get("t")
    seqs = [lv.obj for lv, _ in ctx.mod_seqs()]
    if its and not seqs:
        # the pass that finds the largest id
        u.nlv = ctx.mod_ints()[0][0]
        N = ex.load(u.nlv)
        S = ex.load(its[0].rng)
        s, t, v = trip(S)
        p = its[0].pos
        ids = lambda k: z3.And(s[k] <= N, t[k] <= N)
        return [("position", z3.And(S.lo <= p, p <= S.hi)), ("ids so far are not above the largest", FA([k], z3.Implies(z3.And(S.lo <= k, k < p), ids(k)), [s[k], t[k]])),
                ("the largest id occurs", z3.And(0 <= N, N < MAXID, z3.Or(z3.And(p == S.lo, N == 0), EX([k], z3.And(S.lo <= k, k < p, z3.Or(s[k] == N, t[k] == N))), N == 0)))]
    if not its:
        # initialisation of the disjoint sets
        c = ctx.counters()[0][1]
        lv = ctx.mod_seqs()[0][0]
        u.sublv = lv
        S = ex.load(lv)
        return [("position", z3.And(0 <= c, c <= S.hi, S.lo == 0)), ("elements so far are their own parents", FA([k], z3.Implies(z3.And(0 <= k, k < c), u.field(S, "id")[k] == k), [u.field(S, "id")[k]]))]
    # the greedy pass
    S = ex.load(its[0].rng)
    s, t, v = trip(S)
    p = its[0].pos
    sub = ex.load(u.sublv)
    ts, tt, tv = trip(T)
    N = ex.load(u.nlv)
    if ctx.phase == "init":
        for nm in ("$rep", "$lev"):
            ex.store(LV(nm), z3.Const(ex.fresh_name(nm[1:]), AII))
        ex.assume(FA([x], z3.And(u.get("$rep")[x] == x, u.get("$lev")[x] == 0), [u.get("$rep")[x], u.get("$lev")[x]]))
        ex.store(LV("$top"), Z(0))
        ex.store(LV("$bad"), Z(-1))
        ex.store(LV("$P"), z3.Store(u.get("$P"), u.t0, z3.RealVal(0)))
    if ctx.phase == "preserve":
        # ghost bookkeeping of an appended edge
        h = ctx.head.store
        T0 = h["t"]
        grew = T.hi != T0.hi
        k0 = T0.hi
        q0 = p - 1
        ex.oblige(z3.Or(T.hi == T0.hi, T.hi == T0.hi + 1), "at most one edge is appended per edge processed", "inv")
        g = simp(grew)
        isbad = z3.And(g, h["$bad"] == -1, q0 <= u.K, u.cl(s[q0]) != u.cl(t[q0]))
        ex.store(LV("$bad"), z3.If(isbad, k0, h["$bad"]))
        for nm, k1, val in (("$idx", k0, q0), ("$hist", k0, h["$rep"]), ("$P", k0 + 1, h["$P"][k0] + v[q0])):
            ex.store(LV(nm), h[nm] if z3.is_false(g) else z3.Store(h[nm], k1, val) if z3.is_true(g) else ite_array(ex, g, z3.Store(h[nm], k1, val), h[nm]))
    idx, rep, hist, P = (u.get(n) for n in ("$idx", "$rep", "$hist", "$P"))
    cl, K = u.cl, u.K
    tot = [val for lv, val in ctx.mod_vals(lambda a: z3.is_expr(a) and z3.is_real(a)) if not lv.obj.startswith("$")][0]
    nc = [val for lv, val in ctx.mod_ints() if not lv.obj.startswith("$")][0]
    if ctx.phase == "assume":
        ex.assume(nc >= 2)  # lemma (cited): an acyclic edge set on N+1 vertices that can still grow has fewer than N edges
    inT = lambda k: z3.And(u.t0 <= k, k < T.hi)
    bad = u.get("$bad")
    respects = bad == -1
    u.S, u.p = S, p
    el = lambda x: z3.And(0 <= x, x < sub.hi)
    return [("positions and sizes", z3.And(S.lo == 0, 0 <= p, p <= S.hi, T.lo == 0, T.hi >= u.t0, sub.lo == 0, sub.hi == N + 1)),
            ("ids are elements of the disjoint sets", FA([k], z3.Implies(z3.And(0 <= k, k < S.hi), z3.And(el(s[k]), el(t[k]))), [s[k], t[k]])),
            ("output edges are edges already processed, in that order",
             FA([k], z3.Implies(inT(k), z3.And(0 <= idx[k], idx[k] < p, ts[k] == s[idx[k]], tt[k] == t[idx[k]], tv[k] == v[idx[k]])), [idx[k], ts[k], tt[k]])),
            ("each edge is output at most once", FA([j, k], z3.Implies(z3.And(inT(j), inT(k), j < k), idx[j] < idx[k]), [(idx[j], idx[k])])),
            ("what was in the output before stays", FA([k], z3.Implies(z3.And(0 <= k, k < u.t0), z3.And(ts[k] == u.told["source_id"][k], tt[k] == u.told["target_id"][k], tv[k] == u.told["value"][k])), [ts[k]])),
            ("the labelling distinguishes the ends of that edge", z3.Or(bad == -1, z3.And(inT(bad), idx[bad] <= K, cl(ts[bad]) != cl(tt[bad])))),
            *[("disjoint sets: " + nm, a) for nm, a in cur_forest(u, sub).facts(u.field(sub, "id"))],
            ("processed edges join elements of one class", FA([k], z3.Implies(z3.And(0 <= k, k < p), rep[s[k]] == rep[t[k]]), [s[k], t[k]])),
            ("classes are no larger than the output edges connect (any labelling constant on these is constant on the classes)",
             z3.Implies(z3.And(p <= K + 1, respects), FA([x, y], z3.Implies(z3.And(el(x), el(y), rep[x] == rep[y]), cl(x) == cl(y)), [(rep[x], rep[y])]))),
            ("edges up to any position are connected by output edges up to that position",
             z3.Implies(respects, FA([k], z3.Implies(z3.And(0 <= k, k < p, k <= K), cl(s[k]) == cl(t[k])), [s[k], t[k]]))),
            ("output edges close no cycle (a labelling constant on the earlier ones separates the ends)",
             z3.And(FA([k], z3.Implies(inT(k), hist[k][ts[k]] != hist[k][tt[k]]), [idx[k]]),
                    FA([j, k], z3.Implies(z3.And(inT(j), inT(k), j < k), hist[k][ts[j]] == hist[k][tt[j]]), [(idx[j], idx[k])]))),
            ("trees are counted", nc == N + 1 - (T.hi - u.t0)),
            ("the weights are summed", z3.And(tot == P[T.hi], P[u.t0] == 0, FA([k], z3.Implies(inT(k), P[k + 1] == P[k] + tv[k]), [P[k + 1], tv[k]])))]


def post_kruskal(u, r):
    ex = u.ex
    T = u.get("t")
    r = ex.rv(r)
    w, c = r.fields["first"], r.fields["second"]
    E = u.get("e")
    es, et, ev = trip(E)
    s0, t0, v0 = u.e0
    k, j, q = z3.Ints("k j q")
    if not any(lv == "$before" for lv in u.ex.st.store) and not hasattr(u, "S"):
        pass
    ine = lambda k: z3.And(0 <= k, k < u.n)
    perm = ex.st.ghost.get("perm", ())
    if not perm:
        ex.oblige(u.n == 0, "post: only an empty list is not processed", "post")
        ex.oblige(z3.And(T.lo == T.hi, w == 0, c == 0), "post: an empty list yields an empty tree of weight 0", "post")
        return
    ex.oblige(u.n > 0, "post: an empty list is not processed", "post")
    obj, pf, pinv, before = perm[-1]
    S = u.S
    s, t, v = trip(S)
    ts, tt, tv = trip(T)
    idx, hist, P, K, cl = u.get("$idx"), u.get("$hist"), u.get("$P"), u.K, u.cl
    inT = lambda k: z3.And(u.t0 <= k, k < T.hi)
    N = ex.load(u.nlv)
    if u.unit.opts.get("inplace"):
        ex.oblige(z3.And(E.lo == 0, E.hi == u.n), "post: the input keeps its length", "post")
        ex.oblige(FA([k], z3.Implies(ine(k), z3.And(ine(pf(k)), es[k] == s0[pf(k)], et[k] == t0[pf(k)], ev[k] == v0[pf(k)], pinv(pf(k)) == k)), [es[k]]), "post: the input is permuted only", "post")
        ex.oblige(FA([j, k], z3.Implies(z3.And(ine(j), ine(k), j < k), z3.Not(u.lt(ev[k], ev[j]))), [(ev[j], ev[k])]), "post: the input is sorted", "post")
    else:
        ex.oblige(z3.And(E.lo == 0, E.hi == u.n, FA([k], z3.Implies(ine(k), z3.And(es[k] == s0[k], et[k] == t0[k], ev[k] == v0[k])))), "post: the input is not modified", "post")
    ex.oblige(FA([k], z3.Implies(inT(k), z3.And(ine(pf(idx[k])), ts[k] == s0[pf(idx[k])], tt[k] == t0[pf(idx[k])], tv[k] == v0[pf(idx[k])])), [idx[k]]), "post: output edges are input edges", "post")
    ex.oblige(FA([j, k], z3.Implies(z3.And(inT(j), inT(k), j != k), pf(idx[j]) != pf(idx[k])), [(idx[j], idx[k])]), "post: no input edge is output twice", "post")
    ex.oblige(z3.And(FA([k], z3.Implies(inT(k), hist[k][ts[k]] != hist[k][tt[k]]), [idx[k]]),
                     FA([j, k], z3.Implies(z3.And(inT(j), inT(k), j < k), hist[k][ts[j]] == hist[k][tt[j]]), [(idx[j], idx[k])])), "post: the output edges are acyclic", "post")
    # bottleneck: for the input edge at sorted position K, the ends are joined by output edges that are not worse
    okK = FA([k], z3.Implies(z3.And(inT(k), z3.Not(u.lt(v[K], tv[k]))), cl(ts[k]) == cl(tt[k])), [idx[k], ts[k], tt[k]])
    ex.oblige(z3.Implies(z3.And(ine(K), okK), cl(s[K]) == cl(t[K])),
              "post: the ends of every input edge are joined by output edges that are not heavier (hence, with acyclicity, the output spans what the input connects at minimum weight)", "post")
    ex.oblige(FA([k], z3.Implies(ine(k), z3.And(s[pinv(k)] == s0[k], t[pinv(k)] == t0[k], v[pinv(k)] == v0[k], ine(pinv(k)))), [s0[k]]), "post: every input edge was considered", "post")
    ex.oblige(z3.And(P[u.t0] == 0, FA([k], z3.Implies(inT(k), P[k + 1] == P[k] + tv[k]), [P[k + 1], tv[k]]), w == P[T.hi]), "post: the weight returned is the sum over the output edges", "post")
    ex.oblige(z3.And(FA([k], z3.Implies(ine(k), z3.And(s0[k] <= N, t0[k] <= N)), [s0[k]]), z3.Or(N == 0, EX([k], z3.And(ine(k), z3.Or(s0[k] == N, t0[k] == N)))), c == N + 1 - (T.hi - u.t0)),
              "post: the count returned is the number of ids up to the largest less the number of output edges", "post")
    ex.oblige(FA([k], z3.Implies(z3.And(0 <= k, k < u.t0), z3.And(ts[k] == u.told["source_id"][k], tt[k] == u.told["target_id"][k], tv[k] == u.told["value"][k])), [ts[k]]), "post: edges are appended to the output", "post")


for fn in ("kruskal", "inplace_kruskal"):
    for cmp in (False, True):
        unit("C10", name=fn + (" (comparator)" if cmp else ""), driver="alg2", fn="graph::" + fn, setup=setup_kruskal, loop=loop_kruskal, post=post_kruskal,
             sel=lambda f, cmp=cmp: len(f["params"]) == 2 + cmp and (not cmp or "vcd::Cmp" in f.get("ps", "") or True),
             extra=[("graph::disjoint_union_find", c_union_find), (r"vcd::Cmp::operator\(\)", cmp_call)], opts={"ghosts": ("$idx", "$hist", "$P", "$bad"), "cmp": cmp, "inplace": "inplace" in fn})

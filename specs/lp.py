"""label_propagation (C15)

cnt(u,L,l,k): how many of the first k neighbours of u carry label l (the empty label is not counted where there is one).
The challenger label q and the label property P are arbitrary (uninterpreted), hence stand for all."""
from .common import *

AII, AIB = z3.ArraySort(I, I), z3.ArraySort(I, B)
GH = ("$oinv", "$mx", "$sweep", "$stable", "$L0")


def setup(u):
    ex = u.ex
    g, glv = u.graph()
    u.g = g
    emp = u.unit.opts["empty"]
    u.ln = u.int("label.n", 0, 1 << 62)
    ex.assume(g.n <= u.ln)                  # precondition (documented): one label per vertex
    llv, u.L0 = u.seq("label", u.ln)
    u.e = u.int("empty_label", 0, 1 << 64) if emp else None
    u.max = u.int("max_iters", 0, 1 << 64)
    v, k, l, i = z3.Ints("v k l i")
    u.cnt = z3.Function("cnt", I, AII, I, I, I)
    LL = z3.Const("LL", AII)
    hit = u.hit = lambda x, L, l, k: z3.And(L[g.tgt(x, k)] == l, l != u.e) if emp else L[g.tgt(x, k)] == l
    u.step = lambda x, L, k: FA([l], u.cnt(x, L, l, k) == u.cnt(x, L, l, k - 1) + z3.If(hit(x, L, l, k - 1), 1, 0), [u.cnt(x, L, l, k)])
    u.zero = lambda x, L: FA([l], u.cnt(x, L, l, 0) == 0, [u.cnt(x, L, l, 0)])
    u.q = z3.Int("challenger")
    P = u.P = z3.Function("prop", I, B)
    ex.assume(FA([v], z3.Implies(g.V(v), P(u.L0[v])), [u.L0[v]]))
    ex.assume(FA([v], z3.Implies(z3.And(0 <= v, v < u.ln), z3.And(0 <= u.L0[v], u.L0[v] < (1 << 64))), [u.L0[v]]))
    u.st = z3.Function("most_frequent", I, AII, B)
    ex.assume(FA([v, LL], u.st(v, LL) == (u.cnt(v, LL, u.q, g.deg(v)) <= u.cnt(v, LL, LL[v], g.deg(v))), [u.st(v, LL)]))
    u.put("$oinv", z3.Const("oinv0", AII))
    u.put("$mx", Z(-1))
    u.put("$sweep", Z(0))
    u.put("$stable", z3.BoolVal(False))
    u.put("$L0", u.L0)
    r = [glv, llv]
    if emp:
        r.append(u.put("empty", u.e))
    return r + [u.put("rng", Opq("engine")), u.put("max", u.max)]


def labels(u, L):
    """what holds of the labels at any time"""
    g, ex = u.g, u.ex
    v = z3.Int("v")
    l = L.arrs[0]
    r = [("the labels keep their place", z3.And(L.lo == 0, L.hi == u.ln)),
         ("every label has the property all initial labels have", FA([v], z3.Implies(g.V(v), u.P(l[v])), [l[v]])),
         ("labels are labels", FA([v], z3.Implies(z3.And(0 <= v, v < u.ln), z3.And(0 <= l[v], l[v] < (1 << 64))), [l[v]])),
         ("vertices without neighbours and places without vertex keep their label", FA([v], z3.Implies(z3.Or(z3.Not(g.V(v)), g.deg(v) == 0), l[v] == u.L0[v]), [l[v]]))]
    if u.e is not None:
        r.append(("the empty label does not spread", FA([v], z3.Implies(z3.And(g.V(v), l[v] == u.e), u.L0[v] == u.e), [l[v]])))
    return r


def maps(u):
    for fr in reversed(u.ex.frames):
        for lv in reversed(list(fr.names.values())):
            m = u.ex.st.store.get(lv.obj)
            if not lv.path and isinstance(m, MapV):
                return lv, m
    raise Unsupported("no tally")


def order_of(u, ctx):
    c = [(lv, s) for lv, s in local_seqs(u, ctx, ("label",)) if s.kind == "vector" and s.eshape and s.eshape[0] == "s" and lv.obj in u.order_objs] if u.order_objs else \
        [(lv, s) for lv, s in local_seqs(u, ctx, ("label",)) if s.kind == "vector"]
    return c[0]


def tally(u, m, x, L, k, only_old=None):
    """the tally m counts the first k neighbours of x"""
    l = z3.Int("l")
    pres, val = named(u.ex, m.pres), named(u.ex, m.val)
    c = u.cnt(x, L, l, k)
    ps = [pres[l], val[l], c]
    return [("tally", FA([l], z3.And(pres[l] == (c > 0), z3.Implies(pres[l], val[l] == c), c >= 0, c <= k), ps)),
            ("tallied labels have the property", FA([l], z3.Implies(pres[l], z3.And(u.P(l), *([l != u.e] if u.e is not None else []))), [pres[l]])),
            ("tallied labels are labels", FA([l], z3.Implies(pres[l], z3.And(0 <= l, l < (1 << 64))), [pres[l]])),
            ("tally size", z3.And(m.size >= 0, m.size <= k))]


def loop(u, ctx):
    ex, g = u.ex, u.g
    L = u.get("label")
    l = L.arrs[0]
    v, k, j = z3.Ints("v k j")
    keep = lambda *ns: [ex.store(LV(n), ctx.entry.store[n]) for n in ns] if ctx.phase == "assume" else None
    kind = ctx.kind
    if kind == "count":
        # sweeps
        keep("$mx", "$L0")
        it = ctx.counters()[0][1]
        if not hasattr(u, "order_objs"):
            u.order_objs = None
        ol, O = order_of(u, ctx)
        u.order_objs = {ol.obj}
        o = O.arrs[0]
        if ctx.phase == "init":
            oi = z3.Const(ex.fresh_name("oinv"), AII)
            ex.assume(FA([v], oi[v] == v, [oi[v]]))
            ex.store(LV("$oinv"), oi)
        if ctx.phase == "preserve":
            pass
        oi = u.get("$oinv")
        if ctx.phase == "assume":
            ex.store(LV("$sweep"), it)
        return [("sweep counter", z3.And(0 <= it, it <= u.max)),
                ("the order lists vertices", z3.And(O.lo == 0, O.hi == g.n, FA([k], z3.Implies(z3.And(0 <= k, k < g.n), g.V(o[k])), [o[k]]))),
                ("the order lists every vertex", FA([v], z3.Implies(g.V(v), z3.And(0 <= oi[v], oi[v] < g.n, o[oi[v]] == v)), [oi[v], g.deg(v)])),
                ("no sweep, no change", z3.Implies(it == 0, l == u.L0))] + labels(u, L)
    if kind == "seq" and any(lv.obj == "label" for lv, _ in ctx.mod_seqs()):
        # one sweep
        keep("$mx", "$oinv", "$sweep", "$L0")
        p = ctx.cond_iters()[0].pos
        ol, O = order_of(u, ctx)
        o = O.arrs[0]
        le = ctx.entry.store["label"].arrs[0]
        ch = ctx.mod_bools()
        if len(ch) != 1:
            raise Unsupported("no single flag for changes")
        ch = ch[0][1]
        if ctx.phase == "init":
            perm = [x for x in ex.st.ghost.get("perm", ()) if x[0] == ol.obj]
            if perm:
                _, pf, pi, _ = perm[-1]
                o1 = u.get("$oinv")
                o2 = z3.Const(ex.fresh_name("oinv"), AII)
                ex.assume(FA([v], o2[v] == pi(o1[v]), [o2[v]]))
                ex.store(LV("$oinv"), o2)
        oi = u.get("$oinv")
        if ctx.phase == "preserve":
            # the step just done changed at most the label of the vertex visited, to a most frequent one among its neighbours
            lh = ctx.head.store["label"].arrs[0]
            x = o[p - 1]
            w = z3.Int(ex.fresh_name("other"))
            ex.oblige(z3.Implies(z3.And(g.V(w), w != x), l[w] == lh[w]), "a visit changes no other vertex's label", "post")
            d = g.deg(x)
            ex.oblige(z3.Implies(l[x] != lh[x], z3.And(u.cnt(x, lh, l[x], d) > 0, u.cnt(x, lh, l[x], d) >= u.cnt(x, lh, u.q, d))), "an adopted label is a most frequent one among the neighbours' labels", "post")
        return [("position", z3.And(0 <= p, p <= g.n)), ("the order lists vertices", z3.And(O.lo == 0, O.hi == g.n, FA([k], z3.Implies(z3.And(0 <= k, k < g.n), g.V(o[k])), [o[k]]))),
                ("the order lists every vertex", FA([v], z3.Implies(g.V(v), z3.And(0 <= oi[v], oi[v] < g.n, o[oi[v]] == v)), [oi[v], g.deg(v)])),
                ("without a change so far the vertices visited hold a most frequent label", z3.Or(ch, z3.And(l == le, FA([k], z3.Implies(z3.And(0 <= k, k < p), u.st(o[k], le)), [o[k]]))))] + labels(u, L)
    keep(*GH)
    ml, m = maps(u)
    if kind in EDGES:
        x, pos = edge_loop_u(ctx)
        if ctx.phase == "init":
            ex.assume(u.zero(x, l))
        if ctx.phase == "preserve":
            ex.assume(u.step(x, l, pos))
        u.cur = x
        return [("position", z3.And(0 <= pos, pos <= g.deg(x), g.V(x)))] + tally(u, m, x, l, pos)
    if kind == "mapit":
        it = ctx.cond_iters()[0]
        c, cp = it.rng.static.data
        p = it.pos
        x = u.cur
        seqs = ctx.mod_seqs()
        if seqs:
            Cs = seqs[0][1]
            mxv = [val for val in [ex.st.store.get(lv.obj) for fr in ex.frames for lv in fr.names.values() if lv.obj == u.mxobj]][-1]
            cs = Cs.arrs[0] if Cs.arrs else z3.K(I, Z(0))
            cs = named(ex, cs)
            return [("position", z3.And(0 <= p, p <= m.size)),
                    ("candidates are labels with the greatest count", z3.And(Cs.lo == 0, Cs.hi >= 0, Cs.hi <= p, FA([j], z3.Implies(z3.And(0 <= j, j < Cs.hi), z3.And(m.pres[cs[j]], m.val[cs[j]] == mxv)), [cs[j]]))),
                    ("the label with the greatest count is a candidate", z3.Or(p <= u.get("$mx"), Cs.hi > 0))]
        (lvm, mx), = ctx.mod_ints()
        u.mxobj = lvm.obj
        if ctx.phase == "preserve":
            hm = ctx.head.store[lvm.obj]
            ex.store(LV("$mx"), z3.If(simp(mx == hm), ctx.head.store["$mx"], p - 1) if not mx.eq(hm) else ctx.head.store["$mx"])
        if ctx.phase == "assume":
            ex.store(LV("$mx"), ex.fresh("mx"))
        w = u.get("$mx")
        return [("position", z3.And(0 <= p, p <= m.size)),
                ("no count seen so far is greater", FA([k], z3.Implies(z3.And(0 <= k, k < p), m.val[c[k]] <= mx), [c[k]])),
                ("the maximum is one of the counts", z3.If(p == 0, mx == 0, z3.And(0 <= w, w < p, m.val[c[w]] == mx)))]
    raise Unsupported("loop kind %s" % kind)


def post(u, r):
    ex, g = u.ex, u.g
    L = u.get("label")
    l = L.arrs[0]
    v = z3.Int("v")
    for nm, f in labels(u, L):
        ex.oblige(f, "post: " + nm, "post")
    ex.oblige(z3.Implies(u.max == 0, l == u.L0), "post: a limit of 0 changes nothing", "post")
    ex.oblige(z3.Or(g.n == 0, u.get("$sweep") >= u.max, FA([v], z3.Implies(g.V(v), u.st(v, l)), [g.deg(v), l[v]])),
              "post: a run that stops before the limit ends with most frequent labels everywhere", "post")


for emp in (False, True):
    unit("C15", name="label_propagation" + (" (empty label)" if emp else ""), driver="alg3", fn="graph::label_propagation", setup=setup, loop=loop, post=post,
         sel=lambda f, emp=emp: len(f["params"]) == (5 if emp else 4), opts={"ghosts": GH, "empty": emp})

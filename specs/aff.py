"""afforest (C08): link, compress, sample_frequent_element and both overloads

forest(C, rep): parent links never point upwards (C[x] <= x) and rep names the root of every element's chain."""
from .common import *

AII = z3.ArraySort(I, I)
GH = ("$rep", "$round", "$c", "$x")


def forest(n, C, rep):
    x = z3.Int("x")
    inr = z3.And(0 <= x, x < n)
    ps = [C[x], rep[x]]
    return [("links do not point upwards", FA([x], z3.Implies(inr, z3.And(0 <= C[x], C[x] <= x)), ps)),
            ("representatives are roots", FA([x], z3.Implies(inr, z3.And(0 <= rep[x], rep[x] <= x, C[rep[x]] == rep[x], rep[rep[x]] == rep[x])), ps)),
            ("linked elements have one representative", FA([x], z3.Implies(inr, z3.And(rep[C[x]] == rep[x], z3.Implies(C[x] == x, rep[x] == x))), ps))]


def merged(rep, rep2, a, b):
    """rep2: the classes of rep with those of a and b merged (and nothing else)"""
    x = z3.Int("x")
    lo, hi = z3.If(rep[a] < rep[b], rep[a], rep[b]), z3.If(rep[a] < rep[b], rep[b], rep[a])
    return FA([x], rep2[x] == z3.If(rep[x] == hi, lo, rep[x]), [rep2[x], rep[x]])


def comp_setup(u, size=None):
    ex = u.ex
    u.cn = u.int("comp.n", 0, 1 << 62)
    clv, u.C0 = u.seq("comp", u.cn)
    return clv


def oblige_all(ex, fs, what, kind):
    for nm, f in fs:
        ex.oblige(f, "%s: %s" % (what, nm), kind)


def assume_all(ex, fs):
    for nm, f in fs:
        ex.assume(f)


# ------------------------------------------------------------------ link
def link_setup(u):
    ex = u.ex
    clv = comp_setup(u)
    u.rep = z3.Const("rep_0", AII)
    assume_all(ex, forest(u.cn, u.C0, u.rep))
    a, b = u.int("uu", 0), u.int("vv", 0)
    ex.assume(z3.And(a < u.cn, b < u.cn))
    u.a, u.b = a, b
    return [u.put("uu", a), u.put("vv", b), clv]


def pair_of_ids(u, ctx):
    ps = [v for lv, v in ctx.mod_vals(lambda x: z3.is_expr(x) and z3.is_int(x))]
    if len(ps) < 2:
        raise Unsupported("link without two cursors")
    ids = []

    def walk(e):
        if isinstance(e, dict):
            if e.get("k") == "ref" and "id" in e:
                ids.append(e["id"])
            for x in e.values():
                walk(x)
        elif isinstance(e, list):
            for x in e:
                walk(x)
    walk(ctx.condnode)
    vs = [ctx.ex.st.store[fr.env[i].obj] for fr in ctx.ex.frames[-1:] for i in ids if isinstance(fr.env.get(i), LV) and z3.is_expr(ctx.ex.st.store.get(fr.env[i].obj))]
    if len(vs) != 2:
        raise Unsupported("link without two cursors")
    return vs


def link_loop(u, ctx):
    C = u.get("comp")
    p1, p2 = pair_of_ids(u, ctx)
    r = u.rep
    return [("nothing is changed before the linking step", z3.And(C.lo == 0, C.hi == u.cn, C.arrs[0] == u.C0)),
            ("the cursors are in range", z3.And(0 <= p1, p1 < u.cn, 0 <= p2, p2 < u.cn)),
            ("the cursors are in the two classes", z3.Or(z3.And(r[p1] == r[u.a], r[p2] == r[u.b]), z3.And(r[p1] == r[u.b], r[p2] == r[u.a])))]


def link_variant(u, ctx):
    p1, p2 = pair_of_ids(u, ctx)
    return p1 + p2


def link_post(u, r):
    ex = u.ex
    C = u.get("comp")
    ex.oblige(z3.And(C.lo == 0, C.hi == u.cn), "post: the array keeps its size", "post")
    r2 = z3.Const(ex.fresh_name("rep2"), AII)
    ex.assume(merged(u.rep, r2, u.a, u.b))
    oblige_all(ex, forest(u.cn, named(ex, C.arrs[0]), r2), "post: exactly the two classes are merged", "post")


# ------------------------------------------------------------------ compress
def compress_setup(u):
    clv = comp_setup(u)
    u.rep = z3.Const("rep_0", AII)
    assume_all(u.ex, forest(u.cn, u.C0, u.rep))
    return [clv]


def compress_loop(u, ctx):
    x = z3.Int("x")
    C = u.get("comp")
    c = named(u.ex, C.arrs[0])
    i = ctx.counters()[0][1] if ctx.kind == "count" else ctx.cond_iters()[0].pos
    return [("position", z3.And(0 <= i, i <= u.cn, C.lo == 0, C.hi == u.cn))] + forest(u.cn, c, u.rep) + [
        ("elements seen point at their representative", FA([x], z3.Implies(z3.And(0 <= x, x < i), c[x] == u.rep[x]), [c[x], u.rep[x]]))]


def compress_post(u, r):
    x = z3.Int("x")
    C = u.get("comp")
    c = named(u.ex, C.arrs[0])
    u.ex.oblige(z3.And(C.lo == 0, C.hi == u.cn, FA([x], z3.Implies(z3.And(0 <= x, x < u.cn), c[x] == u.rep[x]), [c[x]])), "post: every element points at its representative, classes unchanged", "post")


# ------------------------------------------------------------------ sample_frequent_element
def sample_setup(u):
    clv = comp_setup(u)
    u.ex.assume(u.cn > 0)
    x = z3.Int("x")
    u.ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < u.cn), z3.And(0 <= u.C0[x], u.C0[x] < u.cn)), [u.C0[x]]))
    u.ns = u.int("num_samples", 1, 1 << 31)
    return [clv, u.put("ns", u.ns)]


def sample_loop(u, ctx):
    l = z3.Int("l")
    k = ctx.counters()[0][1]
    ms = ctx.mod_vals(lambda v: isinstance(v, MapV))
    if len(ms) != 1:
        raise Unsupported("no tally")
    m = ms[0][1]
    pres, val = named(u.ex, m.pres), named(u.ex, m.val)
    return [("position", z3.And(0 <= k, k <= u.ns)), ("tally", FA([l], z3.Implies(pres[l], z3.And(0 <= val[l], val[l] <= k, 0 <= l, l < u.cn)), [pres[l], val[l]])),
            ("tally size", z3.And(m.size >= 0, z3.Implies(k > 0, m.size > 0)))]


def sample_post(u, r):
    u.ex.oblige(z3.And(0 <= u.ex.rv(r), u.ex.rv(r) < u.cn), "post: an entry of the array is returned", "post")
    C = u.get("comp")
    u.ex.oblige(z3.And(C.lo == 0, C.hi == u.cn, C.arrs[0] == u.C0), "post: the array is not changed", "post")


# ------------------------------------------------------------------ afforest
def c_link(u, c):
    ex = u.ex
    a, b = ex.rv(c.args[0]), ex.rv(c.args[1])
    lv = c.args[2]
    s = ex.rv(lv)
    if isinstance(s, Ref):
        lv = s.lv
        s = ex.rv(lv)
    rep = u.get("$rep")
    ex.oblige(z3.And(s.lo == 0, 0 <= a, a < s.hi, 0 <= b, b < s.hi), "link: both elements in range", "pre")
    oblige_all(ex, forest(s.hi, named(ex, s.arrs[0]), rep), "link precondition", "pre")
    c2, r2 = z3.Const(ex.fresh_name("comp"), AII), z3.Const(ex.fresh_name("rep"), AII)
    ex.assume(merged(rep, r2, a, b))
    ex.store(lv, s.copy(arrs=[c2]), kind="data")
    ex.store(LV("$rep"), r2)
    assume_all(ex, forest(s.hi, c2, r2))
    return UNIT


def c_compress(u, c):
    ex = u.ex
    lv = c.args[0]
    s = ex.rv(lv)
    if isinstance(s, Ref):
        lv = s.lv
        s = ex.rv(lv)
    rep = u.get("$rep")
    ex.oblige(s.lo == 0, "compress: whole array", "pre")
    oblige_all(ex, forest(s.hi, named(ex, s.arrs[0]), rep), "compress precondition", "pre")
    c2 = z3.Const(ex.fresh_name("comp"), AII)
    x = z3.Int("x")
    ex.store(lv, s.copy(arrs=[c2]), kind="data")
    ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < s.hi), c2[x] == rep[x]), [c2[x]]))
    ex.assume(FA([x], z3.Implies(z3.And(0 <= x, x < s.hi), c2[x] == rep[x]), [rep[x]]))
    assume_all(ex, forest(s.hi, c2, rep))
    return UNIT


def c_sample(u, c):
    ex = u.ex
    s = ex.rv(c.args[0])
    if isinstance(s, Ref):
        s = ex.rv(s.lv)
    x = z3.Int("x")
    ca = named(ex, s.arrs[0])
    ex.oblige(s.hi > s.lo, "sample_frequent_element: the array is not empty", "pre")
    ex.oblige(z3.And(s.lo == 0, FA([x], z3.Implies(z3.And(0 <= x, x < s.hi), z3.And(0 <= ca[x], ca[x] < s.hi)), [ca[x]])), "sample_frequent_element: entries in range", "pre")
    r = ex.fresh("sampled")
    ex.assume(z3.And(0 <= r, r < s.hi))
    ex.store(LV("$c"), r)
    return r


CONTRACTS = [(r"graph::link", c_link), (r"graph::compress", c_compress), (r"graph::sample_frequent_element", c_sample)]


def aff_setup(u):
    ex = u.ex
    g, glv = u.graph()
    u.g = g
    a, i = z3.Ints("a i")
    args = [glv]
    u.gt = None
    u.rev = z3.Function("rev", I, I, I)
    t = g.tgt(a, i)
    if u.unit.opts["two"]:
        gt, gtlv = u.graph("gt")
        u.gt = gt
        args.append(gtlv)
        ex.assume(gt.n == g.n)
        # gt is the transpose of g: rev gives for every edge of either one the position of its reversal in the other
        u.rev2 = z3.Function("rev2", I, I, I)
        ex.assume(FA([a, i], z3.Implies(g.VE(a, i), z3.And(gt.VE(t, u.rev(a, i)), gt.tgt(t, u.rev(a, i)) == a)), [t]))
        t2 = gt.tgt(a, i)
        ex.assume(FA([a, i], z3.Implies(gt.VE(a, i), z3.And(g.VE(t2, u.rev2(a, i)), g.tgt(t2, u.rev2(a, i)) == a)), [t2]))
    else:
        ex.assume(FA([a, i], z3.Implies(g.VE(a, i), z3.And(g.VE(t, u.rev(a, i)), g.tgt(t, u.rev(a, i)) == a)), [t]))
    args.append(comp_setup(u))
    ex.assume(u.cn >= g.n)
    # an arbitrary labelling that is constant along edges
    u.cl = z3.Function("cl", I, I)
    ex.assume(FA([a, i], z3.Implies(g.VE(a, i), u.cl(a) == u.cl(t)), [t]))
    if u.gt is not None:
        ex.assume(FA([a, i], z3.Implies(u.gt.VE(a, i), u.cl(a) == u.cl(t2)), [t2]))
    u.rounds = u.int("rounds", 0, 1 << 64)
    r0 = z3.Const("rep_0", AII)
    ex.assume(FA([a], r0[a] == a, [r0[a]]))
    u.put("$rep", r0)
    u.put("$round", Z(0))
    u.put("$c", Z(-1))
    u.put("$x", Z(-1))
    return args + [u.put("rounds", u.rounds)]


def aff_loop(u, ctx):
    ex, g = u.ex, u.g
    C = u.get("comp")
    c = named(ex, C.arrs[0])
    rep = u.get("$rep")
    v, i, x = z3.Ints("v i x")
    keep = lambda *ns: [ex.store(LV(n), ctx.entry.store[n]) for n in ns] if ctx.phase == "assume" else None
    t = g.tgt
    base = [("the array keeps its size", z3.And(C.lo == 0, C.hi == u.cn))] + forest(u.cn, c, rep) + [
        ("classes stay within components", FA([x], z3.Implies(z3.And(0 <= x, x < u.cn), u.cl(x) == u.cl(rep[x])), [rep[x]])),
        ("places without vertex are alone", FA([x], z3.Implies(z3.And(g.n <= x, x < u.cn), rep[x] == x), [rep[x]]))]
    joined = lambda cond: FA([v, i], z3.Implies(z3.And(g.VE(v, i), cond(v, i)), rep[v] == rep[t(v, i)]), [t(v, i)])
    kind = ctx.kind
    if kind == "count":
        r = ctx.counters()[0][1]
        keep("$c", "$x")
        if ctx.phase == "assume":
            ex.store(LV("$round"), r)
        return base + [("round", z3.And(0 <= r, r <= u.rounds)), ("sampled edges are joined", joined(lambda v, i: i < r)),
                       ("links are representatives", FA([x], z3.Implies(z3.And(0 <= x, x < u.cn), c[x] == rep[x]), [c[x], rep[x]]))]
    smp = u.get("$c")
    sampling = z3.is_int_value(ctx.entry.store["$c"])
    if kind in VERTS:
        keep("$c", "$round")
        p = ctx.cond_iters()[0].pos
        if sampling:
            keep("$x")
            r = u.get("$round")
            return base + [("position", z3.And(0 <= p, p <= g.n)), ("sampled edges are joined", joined(lambda v, i: z3.Or(i < r, z3.And(i == r, v < p))))]
        if ctx.phase == "assume":
            ex.store(LV("$x"), p)
        r = base + [("position", z3.And(0 <= p, p <= g.n)), ("sampled edges are joined", joined(lambda v, i: i < u.rounds)),
                    ("edges of the vertices passed are joined, or the vertex is in the sampled class",
                     FA([v, i], z3.Implies(z3.And(g.VE(v, i), v < p), z3.Or(rep[v] == rep[t(v, i)], rep[v] == rep[smp])), [t(v, i)]))]
        if u.gt is not None:
            gt = u.gt
            r.append(("reversed edges of the vertices passed are joined, or the vertex is in the sampled class",
                      FA([v, i], z3.Implies(z3.And(gt.VE(v, i), v < p), z3.Or(rep[v] == rep[gt.tgt(v, i)], rep[v] == rep[smp])), [gt.tgt(v, i)])))
        return r
    if kind in EDGES:
        keep("$c", "$round", "$x")
        y, pos = edge_loop_u(ctx)
        it = ctx.cond_iters()[0]
        gg = it.rng.static[0] if isinstance(it.rng.static, tuple) else it.rng.static
        gt = u.gt
        mine = lambda v, i: z3.Or(v < y, z3.And(v == y, i < pos))
        r = base + [("position", z3.And(0 <= pos, pos <= gg.deg(y), g.V(y), y == u.get("$x"))), ("sampled edges are joined", joined(lambda v, i: i < u.rounds))]
        if gg is g:
            r.append(("edges passed are joined, or the vertex is in the sampled class",
                      FA([v, i], z3.Implies(z3.And(g.VE(v, i), v <= y, z3.Or(v < y, i < pos)), z3.Or(rep[v] == rep[t(v, i)], z3.And(v < y, rep[v] == rep[smp]))), [t(v, i)])))
            if gt is not None:
                r.append(("reversed edges of the vertices passed are joined, or the vertex is in the sampled class",
                          FA([v, i], z3.Implies(z3.And(gt.VE(v, i), v < y), z3.Or(rep[v] == rep[gt.tgt(v, i)], rep[v] == rep[smp])), [gt.tgt(v, i)])))
        else:
            r.append(("edges of the vertices passed are joined, or the vertex is in the sampled class",
                      FA([v, i], z3.Implies(z3.And(g.VE(v, i), v <= y), z3.Or(rep[v] == rep[t(v, i)], z3.And(v < y, rep[v] == rep[smp]))), [t(v, i)])))
            r.append(("reversed edges passed are joined, or the vertex is in the sampled class",
                      FA([v, i], z3.Implies(z3.And(gt.VE(v, i), v <= y, z3.Or(v < y, i < pos)), z3.Or(rep[v] == rep[gt.tgt(v, i)], z3.And(v < y, rep[v] == rep[smp]))), [gt.tgt(v, i)])))
        return r
    raise Unsupported("loop kind %s" % kind)


def aff_post(u, r):
    ex, g = u.ex, u.g
    C = u.get("comp")
    c = named(ex, C.arrs[0])
    v, i = z3.Ints("v i")
    ex.oblige(z3.And(C.lo == 0, C.hi == u.cn), "post: the array keeps its size", "post")
    ex.oblige(FA([v, i], z3.Implies(g.VE(v, i), c[v] == c[g.tgt(v, i)]), [g.tgt(v, i)]), "post: adjacent (hence connected) vertices have equal entries", "post")
    ex.oblige(FA([v], z3.Implies(g.V(v), z3.And(g.V(c[v]), u.cl(c[v]) == u.cl(v))), [c[v]]),
              "post: every entry names a vertex that no edge-constant labelling tells apart from it (hence one of its component; equal entries only within a component)", "post")


unit("C08", name="link", driver="alg4", fn="graph::link", setup=link_setup, loop=link_loop, variant=link_variant, post=link_post)
unit("C08", name="compress", driver="alg4", fn="graph::compress", setup=compress_setup, loop=compress_loop, post=compress_post)
unit("C08", name="sample_frequent_element", driver="alg4", fn="graph::sample_frequent_element", setup=sample_setup, loop=sample_loop, post=sample_post)
for two in (False, True):
    unit("C08", name="afforest" + (" (with transpose)" if two else ""), driver="alg4", fn="graph::afforest", setup=aff_setup, loop=aff_loop, post=aff_post, extra=CONTRACTS,
         sel=lambda f, two=two: len(f["params"]) == (4 if two else 3), opts={"ghosts": GH, "two": two})

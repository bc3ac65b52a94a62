"""C23: breadth-first and depth-first search views.  The unit is a client that walks a view and may cancel at any element;
the bodies of the view (construction, begin, ++, *, cancel, depth, num_visited) are expanded in it.
cut(v)/halt(v): what the client decides at v (each vertex comes up at most once, so this covers every client).
reach/dist: reachability and hop distance along edges of vertices that are not cut (defined by the rules in setup)."""
from .common import *
from .bfs import AII, ghost, zero, bump


def setup(u):
    g, glv = u.graph()
    u.g = g
    ex = u.ex
    o = u.unit.opts
    u.bfs, u.edges = o["bfs"], o["edges"]
    u.s = u.int("seed", 0)
    ex.assume(g.V(u.s))
    u.cut = z3.Function("cut", I, B)
    u.halt = z3.Function("halt", I, B)
    u.reach = z3.Function("reach", I, B)
    u.dist = z3.Function("dist", I, I)
    u.par = z3.Function("parent", I, I)
    u.pari = z3.Function("parenti", I, I)
    v, i = z3.Ints("v i")
    p, pi = u.par(v), u.pari(v)
    ex.assume(z3.And(u.reach(u.s), u.dist(u.s) == 0))
    if u.edges:
        ex.assume(z3.Not(u.cut(u.s)))   # the seed never comes up
    ex.assume(FA([v, i], z3.Implies(z3.And(u.reach(v), z3.Not(u.cut(v)), g.VE(v, i)),
                                    z3.And(u.reach(g.tgt(v, i)), u.dist(g.tgt(v, i)) <= u.dist(v) + 1)), [(u.reach(v), g.tgt(v, i)), (u.dist(v), g.tgt(v, i))]))
    ex.assume(FA([v], z3.Implies(z3.And(g.V(v), u.reach(v)), z3.And(u.dist(v) >= 0, u.dist(v) < (1 << 62))), [u.dist(v)]))
    ex.assume(FA([v], z3.Implies(z3.And(g.V(v), u.reach(v), v != u.s),
              z3.And(g.VE(p, pi), g.tgt(p, pi) == v, u.reach(p), z3.Not(u.cut(p)), u.dist(v) == u.dist(p) + 1)), [u.par(v)]))
    ghost(u, "$yld", AII, zero())
    ghost(u, "$ny", I, Z(0))
    ghost(u, "$stop", B, z3.BoolVal(False))
    ghost(u, "$last", I, Z(0))                 # distance of the last element
    ghost(u, "$act", AII, z3.Store(zero(), 0, u.s) if u.edges else zero())   # path from the seed to the last element
    ghost(u, "$nact", I, Z(1 if u.edges else 0))
    args = [glv, u.put("seed", u.s), u.put("client", Opq("client"))]
    if o.get("value"):
        args.append(u.put("vf", Opq("functor:vf", lambda ex, a: value_fn(u, a))))
    return args


def on_start(u, c):
    d, n = u.ex.rv(c.args[0]), u.ex.rv(c.args[1])
    u.ex.oblige(n == 0, "nothing is visited before the search", "post")
    u.ex.oblige(d == (0 if u.bfs else 1), "depth() before the search", "post")
    return UNIT


def decide(u, v):
    u.ex.store(LV("$stop"), u.halt(v))
    return z3.If(u.halt(v), 2, z3.If(u.cut(v), 1, 0))


def seen(u, v):
    """v came up before (the seed of an edge search counts as seen)"""
    y = u.get("$yld")[v] == 1
    return z3.Or(y, v == u.s) if u.edges else y


def yielded(u, v, frm, depth, visited):
    ex, g = u.ex, u.g
    ex.oblige(z3.Not(u.get("$stop")), "nothing comes after cancel_all", "post")
    ex.oblige(z3.And(g.V(v), u.reach(v)), "an element is reachable without passing a cancelled branch", "post")
    ex.oblige(z3.Not(seen(u, v)), "no vertex comes up twice", "post")
    ny = u.get("$ny")
    k, i = z3.Ints("k i")
    if not u.edges:
        ex.oblige((ny == 0) == (v == u.s), "the seed comes up first", "post")
        if not u.bfs:
            ex.oblige(visited == ny, "num_visited() counts the vertices before this one", "post")
    else:
        ex.oblige(visited == ny + 1, "num_visited() counts the edges so far", "post")
    if u.bfs:
        ex.oblige(u.dist(v) >= u.get("$last"), "hop distances do not decrease", "post")
        ex.store(LV("$last"), u.dist(v))
        if u.edges:
            ex.oblige(depth == u.dist(v), "depth() is the hop distance of the target", "post")
            ex.oblige(z3.And(seen(u, frm), u.dist(v) == u.dist(frm) + 1), "an edge leads one level down", "post")
        else:
            ex.oblige(z3.And(u.dist(v) <= depth, depth <= u.dist(v) + 1), "depth() is the level of the vertex, or the next when it was discovered", "post")
    else:
        act, nact = u.get("$act"), u.get("$nact")
        ex.oblige(z3.And(1 <= depth, depth <= nact + 1), "depth() is at most one more than before", "post")
        if u.edges:
            ex.oblige(z3.And(depth >= 2, act[depth - 2] == frm), "the edge leaves the vertex one level up on the path", "post")
        else:
            ex.oblige(z3.If(ny == 0, depth == 1, z3.And(depth >= 2, EX([i], z3.And(g.E(act[depth - 2], i), g.tgt(act[depth - 2], i) == v)))),
                      "the vertex is a target of the vertex one level up on the path", "post")
        ex.oblige(FA([k, i], z3.Implies(z3.And(depth - 1 <= k, k < nact, g.E(act[k], i)), z3.Or(u.cut(act[k]), seen(u, g.tgt(act[k], i)))), [g.tgt(act[k], i)]),
                  "a vertex is left only when all its targets came up (preorder)", "post")
        ex.store(LV("$act"), z3.Store(act, depth - 1, v))
        ex.store(LV("$nact"), depth)
    bump(u, "$yld", v)
    ex.store(LV("$ny"), ny + 1)
    return decide(u, v)


def on_vertex(u, c):
    v = vid(c.ex, c.args[0])
    return yielded(u, v, None, u.ex.rv(c.args[1]), u.ex.rv(c.args[2]))


def on_edge(u, c):
    a, i, _ = eparts(c.ex, c.args[0])
    u.ex.oblige(u.g.VE(a, i), "the element is an edge of the graph", "post")
    return yielded(u, u.g.tgt(a, i), a, u.ex.rv(c.args[1]), u.ex.rv(c.args[2]))


VAL = z3.Function("vf", I, I, I)


def value_fn(u, a):
    """the value function, applied to a vertex or an edge"""
    x = u.ex.rv(a[-1])
    if isinstance(x, Rec) and "edge_storage_" in x.fields:
        a, i, _ = eparts(u.ex, x)
        r = VAL(a, i)
    else:
        r = VAL(vid(u.ex, x), -1)
    u.ex.assume(z3.And(-(1 << 31) <= r, r < (1 << 31)))   # an int
    return r


def value_of(u, c):
    x = c.ex.rv(c.args[0])
    if isinstance(x, Rec) and "edge_storage_" in x.fields:
        a, i, _ = eparts(c.ex, x)
        want = VAL(a, i)
    else:
        want = VAL(vid(c.ex, x), -1)
    u.ex.oblige(u.ex.rv(c.args[1]) == want, "the value is the result of the value function", "post")
    return UNIT


# ---------------------------------------------------------------- the state of a search
def reachable_seqs(u, lv, seen=None):
    """sequences held by an object, through its pointers"""
    ex = u.ex
    seen = set() if seen is None else seen
    out = []

    def walk(v):
        if isinstance(v, Ref):
            if v.lv is not None and v.lv.obj not in seen and not v.lv.obj.startswith("$graph"):
                seen.add(v.lv.obj)
                walk(ex.load(v.lv, check=False))
        elif isinstance(v, Rec):
            for x in v.fields.values():
                walk(x)
        elif isinstance(v, Seq):
            out.append(v)
    walk(ex.load(lv, check=False))
    u.heap = seen
    return out


def state(u, ctx):
    """visited marks, pending entries"""
    for fr in ctx.ex.frames:
        if "w" in fr.names and fr.fn["sq"].startswith("vcd::"):
            u.w = fr.names["w"]
            u.itlv = fr.names.get("it")
    seqs = reachable_seqs(u, u.w)
    vis = [s for s in seqs if s.eshape and s.eshape[0] == "s"]
    q = [s for s in seqs if s.eshape and s.eshape[0] == "rec"]
    if len(vis) != 1 or len(q) != 1:
        raise Unsupported("state of the search")
    return vis[0], q[0]


def accessor(u, name):
    return u.ex.rv(u.h.member_call(u.ex, u.w, name, []))


def as_iter(x):
    """an iterator over the edges of a vertex: vertex, position"""
    if isinstance(x, It):
        return x.rng.params[0], x.pos
    if isinstance(x, Rec) and "storage_" not in x.fields:
        pos = [y for y in x.fields.values() if z3.is_expr(y)]
        vs = [y.fields["storage_"] for y in x.fields.values() if isinstance(y, Rec) and "storage_" in y.fields]
        if len(pos) == 1 and len(vs) == 1:
            return vs[0], pos[0]
    return None


def entries(u, Q):
    """k -> vertex, cursor, end, other vertices, other integers"""
    def at(k):
        r = elem(u.ex, Q, k)
        vs, ints, its = [], [], []
        for x in r.fields.values():
            if as_iter(x):
                its.append(as_iter(x))
                vs.append(its[-1][0])
            elif isinstance(x, Rec) and "storage_" in x.fields:
                vs.insert(0, x.fields["storage_"])
            elif z3.is_expr(x):
                ints.append(x)
        return vs, its, ints
    return at


def loop(u, ctx):
    ex, g = u.ex, u.g
    vis, Q = state(u, ctx)
    nm = lambda a: named(ex, a)   # patterns need constants
    vis = vis.copy(arrs=[nm(a) for a in vis.arrs])
    Q = Q.copy(arrs=[nm(a) for a in Q.arrs])
    V = lambda x: truth(vis.arrs[0][x])
    client = ctx.fn.startswith("vcd::")
    at = entries(u, Q)
    q = lambda k: at(k)[0][0]
    pats = lambda k: [Q.arrs[i][k] for i in range(len(Q.arrs))]
    yld, stop, last, act, nact, ny = (u.get("$" + n) for n in ("yld", "stop", "last", "act", "nact", "ny"))
    yld, act = nm(yld), nm(act)
    v, j, k, i = z3.Ints("v j k i")
    inq = lambda j: z3.And(Q.lo <= j, j < Q.hi)
    for k0 in (Q.lo, Q.hi - 1):            # ground terms for the ends of the queue or stack
        for y in at(k0)[0]:
            ex.assume(ex.fresh("end") == y)
    if ctx.phase == "assume":
        ex.assume(z3.And(ny < (1 << 62), Q.hi - Q.lo < (1 << 62)))   # sizes
    sizes = ("sizes", z3.And(vis.lo == 0, vis.hi == g.n, Q.lo <= Q.hi, Q.lo >= 0))
    if not client and ex.quick_valid(stop):
        return [sizes]                     # nothing is promised after cancel_all but the end
    r = []
    x = pos = None
    if ctx.kind in EDGES and u.bfs and not u.edges:
        x, pos = edge_loop_u(ctx)
    # the element that comes up next (None: none, yet)
    pend = None
    some = Q.lo < Q.hi
    if client:
        if u.edges:
            e = u.h.member_call(ex, u.itlv, "operator*", [])
            er = ex.rv(e)
            a, ei, _ = eparts(ex, next(iter(er.fields.values())) if "edge_storage_" not in er.fields else er)
            some = z3.Not(truth(ex.rv(u.h.member_call(ex, u.itlv, "at_end", []))))
            pend = g.tgt(a, ei)
            r += [("the next element is an edge from a vertex that is not cut", z3.Implies(some, z3.And(g.VE(a, ei), z3.Not(u.cut(a)))))]
        else:
            pend = q(Q.lo) if u.bfs else q(Q.hi - 1)
        r += [("the next element did not come up yet", z3.Implies(some, z3.And(g.V(pend), V(pend), yld[pend] == 0, pend != u.s if u.edges else True)))]
    here = lambda y: z3.And(some, y == pend) if pend is not None else z3.BoolVal(False)
    if u.bfs:
        is_seen = lambda y: z3.Or(yld[y] == 1, here(y)) if not u.edges else None
    # v is pending: its place is named by a function, fresh for each arbitrary iteration (the last place, and those named before, are tried)
    u.ws = getattr(u, "ws", [])
    if ctx.phase == "assume":
        u.ws.append(z3.Function("place%d" % len(u.ws), I, I))
    ws = u.ws[-1:] if ctx.phase == "assume" else u.ws
    held = lambda v: z3.Or([z3.And(inq(w(v)), q(w(v)) == v) for w in ws] + ([] if ctx.phase == "assume" else [z3.And(Q.lo < Q.hi, q(Q.hi - 1) == v)]))
    # marks
    r += [("a vertex comes up at most once", FA([v], z3.And(0 <= yld[v], yld[v] <= 1), [yld[v]])),
          ("marked vertices are reachable", FA([v], z3.Implies(z3.And(g.V(v), V(v)), u.reach(v)), [vis.arrs[0][v]])),
          ("the seed is marked", V(u.s)), ("number of elements", ny >= 0),
          ("what came up is marked", FA([v], z3.Implies(z3.And(g.V(v), yld[v] == 1), V(v)), [yld[v]]))]
    if u.edges:
        r += [("marked vertices came up", FA([v], z3.Implies(z3.And(g.V(v), V(v), v != u.s), z3.Or(yld[v] == 1, here(v))), [vis.arrs[0][v]])), ("the seed does not come up", yld[u.s] == 0)]
    elif u.bfs:
        r += [("marked vertices came up or are queued", FA([v], z3.Implies(z3.And(g.V(v), V(v), yld[v] == 0), held(v)), [vis.arrs[0][v]])),
              ("queued vertices did not come up", FA([j], z3.Implies(inq(j), yld[q(j)] == 0), pats(j)))]
    else:
        r += [("marked vertices came up", FA([v], z3.Implies(z3.And(g.V(v), V(v)), z3.Or(yld[v] == 1, here(v))), [vis.arrs[0][v]]))]
    # pending entries
    ent = [g.V(q(k)), V(q(k))] + [y == q(k) for y in at(k)[0][1:]]
    its = at(k)[1]
    cursor, end = None, None
    if its:
        ci, ei_ = cursor_end(u, Q)
        cursor = lambda k: at(k)[1][ci][1]
        ent += [0 <= cursor(k), cursor(k) <= g.deg(q(k))]
        if ei_ is not None:
            ent.append(at(k)[1][ei_][1] == g.deg(q(k)))
    if u.bfs:
        ent += [y == u.dist(q(k)) for y in at(k)[2]]
    r += [("entries", FA([k], z3.Implies(inq(k), z3.And(ent)), pats(k))),
          ("entries are distinct", FA([j, k], z3.Implies(z3.And(inq(j), inq(k), j != k), q(j) != q(k)), [(q(j), q(k))]))]
    done = lambda v, i: z3.Or(u.cut(v), V(g.tgt(v, i)))
    if its:
        # the last entry may be cut while it comes up; everything else in the queue or stack that is cut has no edges left
        r += [("edges before the cursor lead to marked vertices", FA([k, i], z3.Implies(z3.And(inq(k), 0 <= i, i < cursor(k)), done(q(k), i)), [g.tgt(q(k), i)])),
              ("edges of vertices that are done lead to marked vertices",
               FA([v, i], z3.Implies(z3.And(g.VE(v, i), V(v)), z3.Or(done(v, i), held(v))), [g.tgt(v, i)]))]
    if u.bfs:
        r += levels(u, ctx, Q, q, V, vis, inq, x, pos, some, pend, client)
        if its:
            fresh = lambda k: z3.If(u.cut(q(k)), z3.Or(cursor(k) == g.deg(q(k)), here(q(k))), z3.Or(k == Q.lo, cursor(k) == 0))
            r += [("entries behind the first one are untouched, or cut", FA([k], z3.Implies(inq(k), fresh(k)), pats(k)))]
            if client:
                r += [("the next element is the last entry", z3.Implies(some, z3.And(Q.lo < Q.hi, q(Q.hi - 1) == pend))),
                      ("it comes from the first", z3.Implies(some, z3.And(Q.lo + 1 < Q.hi, q(Q.lo) == a)))]
    else:
        r += [("the stack holds the path", FA([k], z3.Implies(z3.And(inq(k), z3.Not(here(q(k)))), z3.And(q(k) == act[k], z3.Not(u.cut(q(k))))), [act[k]] + pats(k))),
              ("stack within the path", z3.And(Q.lo == 0, Q.hi <= nact + (z3.If(some, 1, 0) if client else 0)))]
        sk = lambda k: z3.And(Q.hi - (z3.If(some, 1, 0) if client else 0) <= k, k < nact)
        r += [("vertices that were left are done", FA([k, i], z3.Implies(z3.And(sk(k), g.E(act[k], i)), z3.Or(u.cut(act[k]), z3.And(V(g.tgt(act[k], i)), z3.Not(here(g.tgt(act[k], i)))))), [g.tgt(act[k], i)])),
              ("vertices of the path", FA([k], z3.Implies(z3.And(0 <= k, k < nact), z3.And(g.V(act[k]), V(act[k]))), [act[k]]))]
        if client:
            c1 = cursor(Q.hi - 2) - 1
            t1 = q(Q.hi - 2)
            r += [("the next element is on top", z3.Implies(some, z3.And(Q.hi > 0, q(Q.hi - 1) == pend, cursor(Q.hi - 1) == 0)))]
            if u.edges:
                r += [("it comes from the one below", z3.Implies(some, z3.And(Q.hi > 1, t1 == a)))]
            else:
                r += [("it comes from the one below", z3.Implies(some, z3.If(ny == 0, z3.And(Q.hi == 1, pend == u.s), z3.And(Q.hi > 1, c1 >= 0, g.tgt(t1, c1) == pend))))]
    # accessors
    n, d = accessor(u, "num_visited"), accessor(u, "depth")
    if client:
        r.append(("no cancellation pending", accessor(u, "cancel") == 0))
    if u.edges:
        r.append(("num_visited", n == (ny + z3.If(some, 1, 0) if client else ny)))
    elif u.bfs:
        r.append(("num_visited", n == ny + Q.hi - Q.lo - 1))
    else:
        r.append(("num_visited", n == (z3.If(some, ny, ny - 1) if client else ny - 1)))
    if not u.edges:
        if client:
            r.append(("the seed comes up first", z3.And((ny == 0) == (yld[u.s] == 0), z3.Implies(ny == 0, z3.And(some, pend == u.s)))))
        else:
            r.append(("the seed came up", z3.And(ny >= 1, yld[u.s] == 1)))
    if client:
        r = [(nm, z3.Implies(z3.Not(stop), f)) for nm, f in r] + [("nothing left after cancel_all", z3.Implies(stop, z3.And(Q.lo == Q.hi, z3.Not(some))))]
    return [sizes] + pins(u, ctx, Q) + r


def pins(u, ctx, Q):
    """references to the front of the queue or the top of the stack"""
    ex = u.ex
    if ctx.fn.startswith("vcd::"):
        return []
    r = []
    for m in sorted(ctx.mods, key=str):       # a flag says that the search found something: not while it goes on
        lv = LV(m[0], [("f", f) for f in m[1]])
        if m[0] in ctx.entry.store and m[0] in ex.st.store:
            x = ex.load(lv, check=False)
            if z3.is_expr(x) and z3.is_bool(x):
                r.append(("flags", x == load_in(ex, ctx.entry, lv)))
    for lv in ctx.ex.frames[-1].names.values():
        if isinstance(lv, LV) and lv.path and lv.path[-1][0] == "i" and lv.obj in u.heap:
            r.append(("reference to the current entry", z3.And(Q.lo < Q.hi, lv.path[-1][1] == (Q.lo if u.bfs else Q.hi - 1))))
    return r


def load_in(ex, st, lv):
    cur, ex.st = ex.st, st
    try:
        return ex.load(lv, check=False)
    finally:
        ex.st = cur


def cursor_end(u, Q):
    """which iterator of an entry moves (index of the cursor, index of the end)"""
    its = [f for f, x in elem(u.ex, Q, Z(0)).fields.items() if as_iter(x)]
    if len(its) == 1:
        return 0, None
    e = [k for k, f in enumerate(its) if re.search("end|last|stop|limit", f)]
    e = e[0] if len(e) == 1 else 1
    return 1 - e, e


def levels(u, ctx, Q, q, V, vis, inq, x, pos, some, pend, client):
    ex, g = u.ex, u.g
    v, j, k, i = z3.Ints("v j k i")
    dist = u.dist
    last, yld = u.get("$last"), u.get("$yld")
    top = accessor(u, "depth")
    r = []
    if u.edges:
        base = dist(q(Q.lo))
        ne = Q.lo < Q.hi
    else:
        base = last
        ne = z3.BoolVal(True)
    r += [("distances of entries", z3.Implies(ne, FA([j], z3.Implies(inq(j), z3.And(base <= dist(q(j)), dist(q(j)) <= base + 1)), [q(j)]))),
          ("entries are ordered by distance", FA([j, k], z3.Implies(z3.And(inq(j), inq(k), j <= k), dist(q(j)) <= dist(q(k))), [(q(j), q(k))])),
          ("everything nearer is marked", z3.Implies(ne, FA([v], z3.Implies(z3.And(g.V(v), u.reach(v), dist(v) <= base), V(v)), [dist(v), vis.arrs[0][v], u.par(v)]))),
          ("marked vertices are near", z3.Implies(ne, FA([v], z3.Implies(z3.And(g.V(v), V(v)), dist(v) <= base + 1), [vis.arrs[0][v]]))),
          ("depth", z3.And(top >= 0, FA([v], z3.Implies(z3.And(g.V(v), V(v)), dist(v) <= top), [vis.arrs[0][v]]))),
          ("depth is reached", EX([v], z3.And(g.V(v), V(v), dist(v) == top)))]
    if u.edges:
        r += [("last distance", z3.And(0 <= last, last <= top))]
        if client:
            r += [("distance of the next element", z3.Implies(some, z3.And(dist(pend) == base + 1, last <= base + 1)))]
        else:
            r += [("last distance", z3.Implies(ne, last <= base + 1))]
    else:
        ex_ = lambda v: z3.And(yld[v] == 1, v != x) if x is not None else yld[v] == 1
        r += [("edges of vertices that came up lead to marked vertices",
               FA([v, i], z3.Implies(z3.And(g.VE(v, i), ex_(v)), z3.Or(u.cut(v), V(g.tgt(v, i)))), [g.tgt(v, i)]))]
        if x is not None:
            r += [("the vertex whose edges are scanned", z3.And(g.V(x), V(x), yld[x] == 1, dist(x) == last, z3.Not(u.cut(x)))),
                  ("edges scanned so far", FA([i], z3.Implies(z3.And(0 <= i, i < pos), V(g.tgt(x, i))), [g.tgt(x, i)]))]
    return r


def post(u, res):
    ex, g = u.ex, u.g
    yld, stop, ny = (u.get("$" + n) for n in ("yld", "stop", "ny"))
    v, d = z3.Ints("v d")
    # every reachable vertex came up: by induction over the distance
    y = lambda v: seen(u, v)
    D = ex.fresh("D")
    step = lambda D: FA([v], z3.Implies(z3.And(g.V(v), u.reach(v), u.dist(v) <= D), y(v)), [yld[v], u.dist(v), u.par(v)])
    ex.oblige(z3.Implies(z3.Not(stop), z3.Not(z3.Not(y(u.s)))), "post: the seed came up", "post")
    ex.oblige(z3.Implies(z3.And(z3.Not(stop), D >= 0, step(D - 1)), step(D)), "post: all vertices of a level came up if those of the levels before did", "post")
    # (the conclusion for all D is the induction principle)


P = r"vcd::"
for bfs in (True, False):
    for edges in (False, True):
        for value in (False, True):
            nm = "%s_%s%s" % ("bfs" if bfs else "dfs", "edges" if edges else "vertices", "_value" if value else "")
            unit("C23", name=nm, driver="alg5", fn="vcd::" + nm, setup=setup, loop=loop, post=post, opts={"bfs": bfs, "edges": edges, "value": value},
                 extra=[(P + r"Client::start", on_start), (P + r"Client::on_vertex", on_vertex), (P + r"Client::on_edge", on_edge),
                        (P + r"value_of", value_of)])

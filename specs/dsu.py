"""disjoint sets (C09)"""
from .common import *

H = z3.Int("H")
BT = z3.BoolSort()


class Forest:
    """what a forest of n elements is: rep names the class of every element, lev grows along parents (bounded by top)"""

    def __init__(self, n, rep, lev, top):
        self.n, self.rep, self.lev, self.top = n, rep, lev, top

    def V(self, x):
        return z3.And(0 <= x, x < self.n)

    def facts(self, ids):
        x = z3.Int("x")
        rep, lev = self.rep, self.lev
        return [("parents are elements", FA([x], z3.Implies(self.V(x), self.V(ids[x])), [ids[x]])),
                ("representatives are elements and roots", FA([x], z3.Implies(self.V(x), z3.And(self.V(rep(x)), ids[rep(x)] == rep(x), rep(rep(x)) == rep(x))), [rep(x)])),
                ("an element and its parent have the same representative", FA([x], z3.Implies(self.V(x), rep(ids[x]) == rep(x)), [ids[x]])),
                ("a root represents itself", FA([x], z3.Implies(z3.And(self.V(x), ids[x] == x), rep(x) == x), [ids[x]])),
                ("levels are bounded", FA([x], z3.Implies(self.V(x), z3.And(0 <= lev(x), lev(x) <= self.top)), [lev(x)])),
                ("levels grow towards the root", FA([x], z3.Implies(z3.And(self.V(x), ids[x] != x), lev(x) < lev(ids[x])), [ids[x]])),
                ("the root has the highest level", FA([x], z3.Implies(z3.And(self.V(x), rep(x) != x), lev(x) < lev(rep(x))), [rep(x)]))]


def forest(u, tid, name="subsets"):
    """a forest parameter in any reachable state"""
    ex = u.ex
    n = u.int(name + ".n", 0, 1 << 62)
    lv, f = u.rec_seq(name, tid, n)
    rep, lev = z3.Function(name + ".rep", I, I), z3.Function(name + ".lev", I, I)
    fo = Forest(n, rep, lev, z3.Int(name + ".top"))
    for _, a in fo.facts(f["id"]):
        ex.assume(a)
    x = z3.Int("x")
    ex.assume(FA([x], z3.Implies(fo.V(x), z3.And(f["count"][x] >= 0, f["count"][x] < (1 << 62))), [f["count"][x]]))
    return lv, fo, f["id"], f["count"]


def ids(u):
    return u.field(u.get("subsets"), "id")


def setup(u):
    ex = u.ex
    lv, u.f, u.ids0, u.cnt0 = forest(u, u.fn["params"][0]["t"])
    u.a = [u.int(nm, 0) for nm in ("el1", "el2")[:len(u.fn["params"]) - 1]]
    for a in u.a:
        ex.assume(u.f.V(a))
    return [lv] + [u.put("arg%d" % k, a) for k, a in enumerate(u.a)]


def loop(u, ctx):
    """the two loops of disjoint_find: climb to the root, then redirect the path"""
    ex, f = u.ex, u.f
    w = (ctx.counters() + ctx.mod_ints())[0][1]
    S = u.get("subsets")
    e = ctx.frame.entry_arg if hasattr(ctx.frame, "entry_arg") else u.a[0]
    r = [("the walker stays in the class", z3.And(f.V(w), f.rep(w) == f.rep(e)))]
    if ctx.mod_seqs():
        x = z3.Int("x")
        r += [("size", z3.And(S.lo == 0, S.hi == f.n))] + f.facts(ids(u)) + \
             [("roots stay roots", FA([x], z3.Implies(f.V(x), (ids(u)[x] == x) == (u.ids0[x] == x)), [ids(u)[x]])),
              ("ranks are kept", FA([x], z3.Implies(f.V(x), u.field(S, "count")[x] == u.cnt0[x]), [u.field(S, "count")[x]]))]
    return r


def variant(u, ctx):
    w = (ctx.counters() + ctx.mod_ints())[0][1]
    return u.f.top - u.f.lev(w)


def is_forest(u, f, S, what):
    u.ex.oblige(z3.And(S.lo == 0, S.hi == f.n), "post: %s: size unchanged" % what, "post")
    for nm, a in f.facts(u.field(S, "id")):
        u.ex.oblige(a, "post: %s: %s" % (what, nm), "post")


def post_find(u, r):
    ex, f = u.ex, u.f
    ex.oblige(ex.rv(r) == f.rep(u.a[0]), "post: find returns the representative of the element's class", "post")
    is_forest(u, f, u.get("subsets"), "the same classes")


def merged(u, f, a, b, S):
    """the classes of a and b are merged: which representative survives is up to the code"""
    ra, rb = f.rep(a), f.rep(b)
    i = u.field(S, "id")
    new = z3.If(i[rb] == rb, rb, ra)
    x = z3.Int("x")
    rep2, lev2 = z3.Function("rep2", I, I), z3.Function("lev2", I, I)
    inm = lambda x: z3.Or(f.rep(x) == ra, f.rep(x) == rb)
    u.ex.assume(FA([x], rep2(x) == z3.If(inm(x), new, f.rep(x)), [rep2(x)]))
    # witness: the surviving class is lifted above the other one
    u.ex.assume(FA([x], lev2(x) == f.lev(x) + z3.If(z3.And(ra != rb, f.rep(x) == new), f.top + 1, 0), [lev2(x)]))
    return Forest(f.n, rep2, lev2, 2 * f.top + 1)


def post_union(u, r):
    ex, f = u.ex, u.f
    a, b = u.a
    S = u.get("subsets")
    is_forest(u, merged(u, f, a, b, S), S, "exactly the classes of the two arguments are merged")
    if u.unit.opts.get("ret"):
        ex.oblige(truth(ex.rv(r)) == (f.rep(a) != f.rep(b)), "post: true is returned exactly when the classes were distinct", "post")


def c_find(u, c):
    """contract of disjoint_find, used by its callers: the forest keeps its classes, ranks and roots"""
    ex, f = u.ex, u.f
    lv = c.args[0] if isinstance(c.args[0], LV) else ex.rv(c.args[0]).lv
    S = ex.load(lv)
    v = ex.rv(c.args[1])
    old = u.field(S, "id")
    for nm, a in f.facts(old):
        ex.oblige(a, "disjoint_find is called on a forest: " + nm, "pre")
    ex.oblige(z3.And(S.lo == 0, S.hi == f.n, f.V(v)), "disjoint_find is called with an element of the forest", "pre")
    k = [n for n, _ in S.eshape[2]].index("id")
    new = z3.Const(ex.fresh_name("ids"), old.sort())
    ex.store(lv, S.copy(arrs=[new if j == k else x for j, x in enumerate(S.arrs)]))
    for _, a in f.facts(new):
        ex.assume(a)
    return f.rep(v)


unit("C09", name="disjoint_find", driver="alg2", fn="graph::disjoint_find", setup=setup, loop=loop, post=post_find, variant=variant)
FIND = [("graph::disjoint_find", c_find)]
unit("C09", name="disjoint_union", driver="alg2", fn="graph::disjoint_union", setup=setup, post=post_union, extra=FIND)
unit("C09", name="disjoint_union_find", driver="alg2", fn="graph::disjoint_union_find", setup=setup, post=post_union, extra=FIND, opts={"ret": True})

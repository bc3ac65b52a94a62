from cppvc.unit import *
from cppvc.engine import *
from cppvc.lib import *

REG = {}


def unit(prop, **kw):
    u = Unit(**kw)
    u.prop = prop
    REG.setdefault(prop, []).append(u)
    return u


def truth(x):
    return x if z3.is_bool(x) else x != 0


def get(s, i):
    """element i (counted from the front) of a sequence of scalars"""
    return s.arrs[0][s.lo + i] if not (z3.is_int_value(s.lo) and s.lo.as_long() == 0) else s.arrs[0][i]


def edge_loop_u(ctx):
    """source vertex and position of a loop over the out-edges of one vertex"""
    it = ctx.cond_iters()[0]
    return it.rng.params[0], it.pos


EDGES = ("edges", "incidence", "basic_incidence", "neighbors", "basic_neighbors")
VERTS = ("vertices", "vertexlist", "basic_vertexlist")


def symmetric(u):
    """the graph is symmetric: rev(a,i) is a position at the target of edge (a,i) of an edge leading back to a"""
    g = u.g
    rev = z3.Function("rev", I, I, I)
    a, i = z3.Ints("a i")
    u.ex.assume(FA([a, i], z3.Implies(g.VE(a, i), z3.And(g.VE(g.tgt(a, i), rev(a, i)), g.tgt(g.tgt(a, i), rev(a, i)) == a)), [g.tgt(a, i)]))


def in_seq(s, x, name="jq"):
    """x occurs in the sequence"""
    j = z3.Int(name)
    return EX([j], z3.And(s.lo <= j, j < s.hi, s.arrs[0][j] == x))


MK = z3.Function("mark", I, B)   # an uninterpreted predicate used only as a trigger: statements under it hold for every interpretation, in particular for true


def scanned(u, ctx):
    """which edges has the pass over all edges already examined (loop over the edge list, or over vertices and their edges)?"""
    g = u.g
    its = ctx.cond_iters()
    k = ctx.kind
    if k in ("edgelist", "basic_edgelist"):
        pos = its[0].pos
        return lambda v, i: g.ek(v, i) < pos
    if k in VERTS:
        pos = its[0].pos
        return lambda v, i: v < pos
    if k in EDGES:
        x, pos = edge_loop_u(ctx)
        return lambda v, i: z3.Or(v < x, z3.And(v == x, i < pos))
    return None


def local_seqs(u, ctx, skip=()):
    """containers among the local variables and parameters in scope"""
    out = []
    for fr in ctx.ex.frames:
        for lv in fr.names.values():
            if not lv.path and lv.obj not in skip and not lv.obj.startswith("$"):
                s = ctx.ex.st.store.get(lv.obj)
                if isinstance(s, Seq) and all(lv.obj != o.obj for o, _ in out):
                    out.append((lv, s))
    return out


def elem(ex, s, k):
    """element k of a sequence of structures, as a structure"""
    return ex.unflatten(s.eshape, [a[k] for a in s.arrs])


def frame_view(ex, S):
    """a stack of search frames: k -> (vertex, cursor position, end position, other integer fields)"""
    def at(k):
        r = elem(ex, S, k)
        its = [x for x in r.fields.values() if isinstance(x, It)]
        ints = [x for x in r.fields.values() if z3.is_expr(x)] + [x.rng.params[0] for x in its[1:]]
        if not its:
            raise Unsupported("search frame without iterator")
        return its[0].rng.params[0], its[0].pos, its[1].pos if len(its) > 1 else None, ints
    return at


def named(ex, a):
    """a constant equal to the array term a (usable in triggers)"""
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return a
    c = z3.Const(ex.fresh_name("nm"), a.sort())
    ex.assume(c == a)
    return c

"""C22/C24: views (lemma functions of drivers/lem22.cpp ...)"""
from .common import *
from cppvc.unit import Lemma


def leaf(v, path):
    for k, x in path:
        v = v.fields[x]
    return v


def leaves(v, out):
    if isinstance(v, Rec):
        for x in v.fields.values():
            leaves(x, out)
    elif isinstance(v, It):
        out.append(v.pos)
    elif z3.is_expr(v) and z3.is_int(v):
        out.append(v)
    else:
        out.append(None)
    return out


def scan_loop(u, ctx):
    """a loop that looks for the next vertex with edges: every position it moves stays between where it started and where
    the lemma says the search ends (vcd::scan)"""
    ex = u.ex
    frm, to = ex.st.ghost.get("scan", (None, None))
    if frm is None:
        return []
    out = []
    for obj in sorted({m[0] for m in ctx.mods if not m[0].startswith("$")}):
        a, b = ctx.entry.store.get(obj), ex.st.store.get(obj)
        if a is None or b is None:
            continue
        for x, y in zip(leaves(a, []), leaves(b, [])):
            if x is not None and y is not None and not x.eq(y) or ctx.phase != "assume" and x is not None and y is not None:
                out.append(("search position", z3.And(x <= y, y <= x + (to - frm))))
    return out


REG.setdefault("C22", []).append(Lemma("vertexlist, incidence and neighbors views", "lem22", "vcd::C22_"))
REG.setdefault("C22", []).append(Lemma("edgelist views", "lem22e", "vcd::C22_", loop=scan_loop))
REG.setdefault("C22", []).append(Lemma("views over dynamic graphs, in-edge views", "lem22d", "vcd::C22_"))

"""Closed-form extraction of the lattice constructor: the vertices, vertex types, edges and wrap-around
marks that RHG_graph and SurfaceCode build are extracted as set-builder forms over symbolic dimensions, and
compared with the definition of the RHG lattice (parity classes in a box; unit edges; wrap on periodic axes)."""
from ..scen import *
from ..terms import *
from ..forms import *
import itertools

RULE = "extracted vertex/edge forms equal the RHG definition for every axis boundary and unequal dimensions"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions with pairwise different axes (random interpretation)"]
RHG = "flamingpy.codes.surface_code:RHG_graph"
FN = "flamingpy/codes/surface_code.py:RHG_graph"


def run(ctx):
    for name in LT.STR:
        ctx.scenario("RHG_graph(dims, '%s')" % name, graph, ctx, C(name), LT.STR[name], name)
    combos = list(itertools.product(("primal", "dual", "periodic"), repeat=3))
    if ctx.tier != "thorough":
        combos = [("primal", "periodic", "dual"), ("dual", "primal", "periodic"), ("periodic", "dual", "primal"), ("dual", "periodic", "periodic")]
    for b in combos:
        ctx.scenario("RHG_graph(dims, [%s])" % ", ".join(b), graph, ctx, b, b, ",".join(b))
    ctx.scenario("RHG_graph(d) for one number", graph, ctx, C("open_primal"), LT.STR["open_primal"], "open_primal", True)
    for (bd, ec), b in LT.BOUNDS.items():
        ctx.scenario("SurfaceCode(%s, %s)" % (ec, bd), code, ctx, bd, ec, b)
        ctx.scenario("SurfaceCode(d, %s, %s)" % (ec, bd), code, ctx, bd, ec, b, True)


def graph(ctx, bt, bounds, label, cube=False):
    it = ctx.interp()
    if isinstance(bt, tuple):
        bt = it.lib.mklist([C(x) for x in bt])
    d = S("d", "int")
    if cube:
        it.lib.types[d] = Ext("builtins.int")
    g = it.call(it.get(RHG), [d if cube else DIMS(), bt], {})
    compare(ctx, it, g, bounds, FN + "[%s%s]" % (label, ", d" if cube else ""), cube)


def code(ctx, bd, ec, bounds, cube=False):
    it = ctx.interp()
    d = S("d", "int")
    if cube:
        it.lib.types[d] = Ext("builtins.int")
    c = it.call(it.get(SCODE), [d if cube else DIMS()], {"ec": C(ec), "boundaries": C(bd), "backend": C("networkx")})
    g = it.getattr(c, "graph")
    compare(ctx, it, g, bounds, "flamingpy/codes/surface_code.py:SurfaceCode[%s, %s%s]" % (ec, bd, ", d" if cube else ""), cube)


def compare(ctx, it, g, bounds, where, cube):
    n, u, v = S("?n"), S("?u"), S("?v")
    ty = nattr_term(it, g, n, "type")
    pe = eattr_term(it, g, u, v, "periodic")
    for dims in ([(3, 3, 3), (2, 2, 2)] if cube else dims_of(ctx.tier)):
        sy = {"d": dims[0]} if cube else dsyms(dims)
        f = Form(it, sy, cell=lambda typ, a, k: "")
        f.r.norm = lambda k: tuple(sorted(k)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) else k
        N, E = LT.nodes(bounds, dims), LT.edges(bounds, dims)
        at = "with dimensions %s" % (dims,)

        def nodes():
            return setdiff(f.r.graph(g, {}).nodes, N, "vertex")

        def edges():
            return setdiff((tuple(sorted(e)) for e in f.r.graph(g, {}).edges), (tuple(sorted(e)) for e in E), "edge")

        def types():
            for p in f.r.graph(g, {}).nodes:
                if p in N:
                    t = f.r.ev(ty, {n: p})
                    if t != N[p]:
                        return "vertex %r has type %r, not %r" % (p, t, N[p])

        def wraps():
            for e in f.r.graph(g, {}).edges:
                w = E.get(frozenset(e))
                if w is not None:
                    x = bool(f.r.ev(pe, {u: e[0], v: e[1]}))
                    if x != w:
                        return "edge %r is %smarked as wrapping around" % (tuple(e), "" if x else "not ")
        if decide(ctx, "lattice-vertices", where, nodes, "vertex set %s" % at):
            decide(ctx, "vertex-types", where, types, at)
        if decide(ctx, "lattice-edges", where, edges, "edge set %s" % at):
            decide(ctx, "wrap-marks", where, wraps, at)

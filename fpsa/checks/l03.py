"""Closed-form extraction of the edge weights of the lattice: with a polarity function every edge (including the
wrap-around ones) carries that function's value for this edge, without one it carries 1, and the documented
alternating polarity gives every four-valent vertex two +1 and two -1 edges."""
from ..scen import *
from ..terms import *
from ..forms import *

RULE = "edge weight = polarity(edge) on every edge; alternating polarity is +-1, direction independent and balanced"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions with pairwise different axes (random interpretation)"]
RHG = "flamingpy.codes.surface_code:RHG_graph"
ALT = "flamingpy.codes.surface_code:alternating_polarity"
FN = "flamingpy/codes/surface_code.py:RHG_graph[%s, %s]"


def run(ctx):
    for name, b in LT.STR.items():
        if name in ("dual", "primal") and ctx.tier != "thorough":
            continue
        for mode in ("none", "any", "alternating"):
            ctx.scenario("RHG_graph(dims, %s, polarity=%s)" % (name, mode), graph, ctx, name, b, mode)
    for (bd, ec), b in LT.BOUNDS.items():
        for mode in ("none", "any", "alternating"):
            ctx.scenario("SurfaceCode(%s, %s, polarity=%s)" % (ec, bd, mode), code, ctx, bd, ec, b, mode)
    ctx.scenario("alternating_polarity", alone, ctx)


def polfn(it, mode):
    if mode == "any":
        return S("pol")
    return it.get(ALT) if mode == "alternating" else None


def graph(ctx, name, bounds, mode):
    it = ctx.interp()
    p = polfn(it, mode)
    g = it.call(it.get(RHG), [DIMS(), C(name)], {} if p is None else {"polarity": p})
    compare(ctx, it, g, bounds, FN % (name, mode), mode)


def code(ctx, bd, ec, bounds, mode):
    it = ctx.interp()
    p = polfn(it, mode)
    c = built_code(it, ec, bd, "networkx", **({} if p is None else {"polarity": p}))
    compare(ctx, it, it.getattr(c, "graph"), bounds, "flamingpy/codes/surface_code.py:SurfaceCode[%s, %s, %s]" % (ec, bd, mode), mode)


def polval(e):
    return Tok(hnum("pol", tuple(sorted(e))))


def o_call(r, t, env):
    if t.a[0].op == "s" and t.a[0].a[0] == "pol":
        e = freeze(r.ev(t.a[1], env))
        if len(t.a) != 2 or not (isinstance(e, tuple) and len(e) == 2 and all(isinstance(x, tuple) and len(x) == 3 for x in e)):
            raise Unsup("polarity argument")
        return polval(e)
    return Rint.o_call(r, t, env)


def compare(ctx, it, g, bounds, where, mode):
    u, v = S("?u"), S("?v")
    w = eattr_term(it, g, u, v, "weight")
    for dims in dims_of(ctx.tier):
        f = Form(it, dict(dsyms(dims), pol=True), ops={"call": o_call}, cell=lambda typ, a, k: None)
        f.r.norm = lambda k: tuple(sorted(k)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) else k
        E = LT.edges(bounds, dims)
        at = "with dimensions %s" % (dims,)

        def weights():
            for e in E:
                a, b = tuple(sorted(e))
                x = f.r.ev(w, {u: a, v: b})
                if mode == "none" and x != 1:
                    return "edge %s-%s has weight %s without a polarity function" % (a, b, x)
                if mode == "any" and x != polval((a, b)):
                    return "edge %s-%s does not carry the value of the polarity function for this edge" % (a, b)
                if mode == "alternating" and x not in (1, -1):
                    return "edge %s-%s has polarity %s" % (a, b, x)

        def balanced():
            adj = {}
            for e in E:
                a, b = tuple(sorted(e))
                x = f.r.ev(w, {u: a, v: b})
                adj.setdefault(a, []).append(x)
                adj.setdefault(b, []).append(x)
            for p, l in adj.items():
                if len(l) == 4 and sum(l) != 0:
                    return "vertex %s has edge weights %s" % (p, l)
        if decide(ctx, "edge-weights", where, weights, at, undef=True) and mode == "alternating":
            decide(ctx, "alternating-balance", where, balanced, at)


def alone(ctx):
    it = ctx.interp()
    s = [S("?" + x, "int") for x in "abcdef"]
    r = it.call(it.get(ALT), [mk("tuple", mk("tuple", *s[:3]), mk("tuple", *s[3:]))], {})
    f = Form(it)

    def sym():
        for p in [(x, y, z) for x in range(3) for y in range(3) for z in range(3)]:
            for i in range(3):
                q = list(p)
                q[i] += 1
                e = {}
                for k, x in zip(s, p + tuple(q)):
                    e[k] = x
                h = {}
                for k, x in zip(s, tuple(q) + p):
                    h[k] = x
                a, b = f.r.ev(r, e), f.r.ev(r, h)
                if a not in (1, -1) or a != b:
                    return "edge %s-%s has polarity %s one way and %s the other way" % (p, tuple(q), a, b)
    decide(ctx, "direction-independent", "flamingpy/codes/surface_code.py:alternating_polarity", sym, "")

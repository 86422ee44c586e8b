"""Closed-form extraction of the boundary points and the stabilizer graph of a built code, through the public
methods of both backends, compared with the definition: low / high boundary qubits, one node per stabilizer and
boundary point, an edge exactly between nodes that share a qubit, labelled with a shared qubit."""
from ..scen import *
from ..terms import *
from ..forms import *
from .l02 import lst

RULE = "boundary points, nodes, edges, labels and neighbourhoods of the stabilizer graph equal their definition in both backends"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions with pairwise different axes (random interpretation)",
               "networkx / rustworkx graph containers behave as documented"]
FN = "flamingpy/codes/graphs/stabilizer_graph.py:%s[%s, %s]"


def run(ctx):
    for (bd, ec), b in LT.BOUNDS.items():
        for be in ("networkx", "rustworkx"):
            ctx.scenario("SurfaceCode(%s, %s, %s)" % (ec, bd, be), code, ctx, bd, ec, b, be)
            ctx.scenario("to_nx(%s, %s, %s)" % (ec, bd, be), conv, ctx, bd, ec, b, be)


def forms(it, sg):
    u, v = S("?u"), S("?v")
    T = {n: meth(it, sg, n) for n in ("nodes", "edges", "real_nodes", "real_edges", "bound_points", "has_bound_points")}
    T["label"] = it.getitem(meth(it, sg, "edge_data", u, v), C("common_vertex"))
    T["weight"] = it.getitem(meth(it, sg, "edge_data", u, v), C("weight"))
    T["neighbors"], T["out_edges"] = meth(it, sg, "neighbors", u), meth(it, sg, "out_edges", u)
    for n in ("stabilizers", "low_bound_points", "high_bound_points"):
        T[n] = it.getattr(sg, n)
    return T, u, v


def weigh(it, c, sg):
    set_node_attrs(it, it.getattr(c, "graph"), weight="w")
    meth(it, sg, "assign_weights", c)


def code(ctx, bd, ec, bounds, be):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    sg = it.getattr(c, ec + "_stab_graph")
    weigh(it, c, sg)
    T, u, v = forms(it, sg)
    T["code_points"] = it.getattr(c, ec + "_bound_points")
    T["code_stabilizers"] = it.getattr(c, ec + "_stabilizers")
    compare(ctx, it, T, u, v, ec, bounds, FN % (("Nx" if be == "networkx" else "Rx") + "StabilizerGraph", ec, bd))


def conv(ctx, bd, ec, bounds, be):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    weigh(it, c, it.getattr(c, ec + "_stab_graph"))
    sg = meth(it, it.getattr(c, ec + "_stab_graph"), "to_nx")
    T, u, v = forms(it, sg)
    T["code_stabilizers"] = it.getattr(c, ec + "_stabilizers")
    compare(ctx, it, T, u, v, ec, bounds, FN % ("StabilizerGraph.to_nx<%s>" % be, ec, bd))


def compare(ctx, it, T, u, v, ec, bounds, where):
    T = {k: it.lib.val(x) for k, x in T.items()}
    for dims in dims_of(ctx.tier):
        at = "with dimensions %s" % (dims,)
        w = {p: 1 + 0.5 * i for i, p in enumerate(sorted(LT.nodes(bounds, dims)))}
        f = Form(it, dict(dsyms(dims), w=w), cell=lambda typ, a, k: None)
        f.r.norm = lambda k: tuple(sorted(k, key=repr)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (tuple, str)) else k
        sup = dict(LT.supports(ec, bounds, dims))
        low, high = LT.boundary(ec, bounds, dims)
        cen, val = {}, {}

        def idmap():
            for x in lst(f.r.ev(T["code_stabilizers"], {}), "stabilizers"):
                ph = lst(f.r.field(x, "physical"), "physical")
                c = tuple(sum(p[i] for p in ph) / len(ph) for i in range(3))
                cen[x] = ("stab",) + c
                val[("stab",) + c] = x
            if set(val) != {("stab",) + tuple(map(float, c)) for c in sup}:
                return "stabilizers are not the cubes of the complex"
        if not decide(ctx, "stabilizer-identity", where, idmap, at):
            continue
        sname = lambda x: cen.get(x, x)
        supn = {("stab",) + tuple(map(float, c)): s for c, s in sup.items()}
        want = {}
        for p in low:
            want[frozenset(("low", p))] = {None}
        for p in high:
            want[frozenset(("high", p))] = {None}
        ss = sorted(supn)
        for i, a in enumerate(ss):
            for b in ss[i + 1:]:
                if supn[a] & supn[b]:
                    want[frozenset((a, b))] = supn[a] & supn[b]
            for p in low | high:
                if p in supn[a]:
                    want[frozenset((a, p))] = {p}
        ev = lambda k, env=None: f.r.ev(T[k], env or {})
        seq = lambda k, env=None: [sname(freeze(x)) for x in (ev(k, env).nodes if isinstance(ev(k, env), Graph) else lst(ev(k, env), k))]
        pairs = lambda k, env=None: [tuple(sname(freeze(x)) for x in e) for e in lst(ev(k, env), k)]
        real = set(ss) | low | high

        def once(l, w, what):
            if len(l) != len(set(l)):
                return "a %s is listed twice" % what
            return setdiff(l, w, what)

        def points():
            if "code_points" not in T:
                return None
            p = lst(ev("code_points"), "points")
            return once(p[:len(p) // 2], low, "low boundary point") or once(p[len(p) // 2:], high, "high boundary point")

        def lowhigh():
            return (once(seq("low_bound_points"), low, "low boundary point") or once(seq("high_bound_points"), high, "high boundary point")
                    or once(seq("bound_points"), low | high, "boundary point") or once(seq("stabilizers"), ss, "stabilizer")
                    or ("has_bound_points is wrong" if bool(ev("has_bound_points")) != bool(low | high) else None))

        def nodes():
            opt = {"low", "high"} - {x for e in want for x in e}        # connectors without boundary points may be absent
            return setdiff([n for n in seq("nodes") if n not in opt], (real | {"low", "high"}) - opt, "node") or once(seq("real_nodes"), real, "node")

        def edges():
            r = {e for e in want if not e & {"low", "high"}}
            ok = lambda l: [frozenset(e) for e in l]
            return once(ok(pairs("edges")), set(want), "edge") or once(ok(pairs("real_edges")), r, "edge")

        def labels():
            for e, w in want.items():
                a, b = sorted(e, key=repr)
                for x, y in ((a, b), (b, a)):
                    q = freeze(f.r.ev(T["label"], {u: val.get(x, x), v: val.get(y, y)}))
                    if q not in w:
                        return "edge %s is labelled %s, not with a qubit both ends share" % ((x, y), q)

        def weights():
            for e in want:
                a, b = sorted(e, key=repr)
                for x, y in ((a, b), (b, a)):
                    q = freeze(f.r.ev(T["label"], {u: val.get(x, x), v: val.get(y, y)}))
                    g = f.r.ev(T["weight"], {u: val.get(x, x), v: val.get(y, y)})
                    if g != (0 if q is None else w[q]):
                        return "edge %s with qubit %s of weight %s has weight %s" % ((x, y), q, 0 if q is None else w[q], g)

        def nbrs():
            for n in real | ({"low", "high"} if low else set()):
                w = {y for e in want if n in e for y in e if y != n}
                env = {u: val.get(n, n)}
                g = seq("neighbors", env)
                d = once(g, w, "neighbour")
                if d:
                    return "neighbours of %s: %s" % (n, d)
                o = pairs("out_edges", env)
                if any(n not in e for e in o) or sorted((repr(y) for e in o for y in e if y != n)) != sorted(map(repr, w)):
                    return "out_edges of %s: %s" % (n, setdiff([y for e in o for y in e if y != n], w, "neighbour") or "wrong pairs")
        decide(ctx, "boundary-points", where, points, at)
        decide(ctx, "low-high-lists", where, lowhigh, at)
        decide(ctx, "graph-nodes", where, nodes, at)
        if decide(ctx, "graph-edges", where, edges, at):
            if decide(ctx, "edge-labels", where, labels, at, undef=True):
                decide(ctx, "edge-weights", where, weights, at, undef=True)
            decide(ctx, "neighbourhoods", where, nbrs, at)

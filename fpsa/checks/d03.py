"""Closed-form extraction of the matching graph every backend builds from a code with symbolic outcomes and weights,
compared with the matching problem defined by an independent shortest path computation."""
import random

from ..scen import *
from ..terms import *
from ..forms import *
from .d02 import best
from .d06 import stabgraph, norm

RULE = "the matching graph is the matching problem of the odd stabilizers: shortest path lengths and paths, one virtual point each"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions, outcomes and weights (random interpretation)",
               "networkx / rustworkx Dijkstra routines return shortest paths for the graph, source and weight function they are given"]
FN = "flamingpy/decoders/mwpm/matching.py:%s[%s, %s, %s]"
SRC = '''
def f(m, u, v):
    n = m.to_nx() if hasattr(m, "to_nx") else m
    return (m.virtual_points, n.virtual_points, list(n.graph.nodes), list(n.graph.edges), n.edge_weight((u, v)), n.edge_path((u, v)),
            m.edge_weight((u, v)), m.edge_path((u, v)), m.total_weight_of([(u, v)]))
'''
KEYS = ("virtual", "nx_virtual", "nodes", "edges", "nx_weight", "nx_path", "weight", "path", "total")
CLS = {"networkx": "NxMatchingGraph", "rustworkx": "RxMatchingGraph", "lemon": "LemonMatchingGraph"}


def run(ctx):
    ctx.scenario("shared construction", shared, ctx)
    for (bd, ec), b in LT.BOUNDS.items():
        for be, mb in (("networkx", "networkx"), ("rustworkx", "lemon")):
            ctx.scenario("matching graph(%s, %s, %s)" % (ec, bd, mb), graph, ctx, bd, ec, b, be, mb)
    for be, mb in (("rustworkx", "networkx"), ("networkx", "lemon")):
        ctx.scenario("matching graph(primal, open, %s on %s)" % (mb, be), graph, ctx, "open", "primal", LT.BOUNDS["open", "primal"], be, mb)


def shared(ctx):
    """The rustworkx graph is built by the same construction, so only its add_edge and queries are its own (see D07)."""
    it = ctx.interp()
    M = "flamingpy.decoders.mwpm.matching:"
    for n in ("with_edges_from", "total_weight_of", "_with_edges_between_real_odd_nodes", "_with_edges_from_low_or_high_connector"):
        a, b = (it.getattr(it.get(M + x), n) for x in ("NxMatchingGraph", "RxMatchingGraph"))
        if a is not b and a != b:
            ctx.undecided("shared-construction", FN % ("RxMatchingGraph", n, "", ""), "the rustworkx matching graph has a construction of its own")
        else:
            ctx.ok("shared-construction", FN % ("RxMatchingGraph", n, "", ""))


def graph(ctx, bd, ec, bounds, be, mb):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    G, sg = it.getattr(c, "graph"), it.getattr(c, ec + "_stab_graph")
    set_node_attrs(it, G, weight="w", bit_val="b")
    meth(it, sg, "assign_weights", c)
    m = call(it, "flamingpy.decoders.mwpm.algos:build_match_graph", c, C(ec), C(mb))
    u, v = S("?u"), S("?v")
    r = snippet(it, SRC, m, u, v)
    T = {k: it.lib.val(it.getitem(r, C(i))) for i, k in enumerate(KEYS)}
    T["stabs"] = it.lib.val(it.getattr(c, ec + "_stabilizers"))
    lab = it.lib.val(it.getitem(meth(it, sg, "edge_data", u, v), C("common_vertex")))
    where = FN % (CLS[mb], ec, bd, be)
    for dims in dims_of(ctx.tier)[:2 if ctx.tier != "thorough" else 4]:
        for odds in (0, 1, 2, 3, 6, 13 if bounds_open(bd) else 12):
            rng = random.Random("%s%s%s%d" % (bd, ec, dims, odds))
            nodes = sorted(LT.nodes(bounds, dims))
            w = {p: rng.randrange(1, 1000) for p in nodes}
            if odds in (2, 3) and be == "networkx":    # dyadic, so sums are exact whatever their order
                w = {p: rng.randrange(1, 40 if odds == 2 else 1000) / 8 for p in nodes}
            elif odds > 6:                              # many ties
                w = {p: rng.randrange(1, 4) for p in nodes}
            sup = dict(LT.supports(ec, bounds, dims))
            b = outcomes(rng, nodes, sup, odds)
            if b is None:
                continue
            f = Form(it, dict(dsyms(dims), w=w, b=b), cell=lambda typ, a, k: None)
            f.r.norm = norm
            St = {}

            def setup():
                sv, low, high, E = stabgraph(f, T, ec, bounds, dims)
                W = {}
                for e in E:
                    x, y = sorted(e, key=repr)
                    q = freeze(f.r.ev(lab, {u: x, v: y}))
                    if q not in E[e]:
                        raise Unsup("edge labels")
                    W[e] = w[q]
                St.update(sv=sv, low=low, high=high, W=W, odd={x for x, s in sv.items() if sum(b[q] for q in s) % 2})
            at = "with dimensions %s and %d odd stabilizers" % (dims, sum(sum(b[q] for q in s) % 2 for s in sup.values()))
            if not decide(ctx, "setup", where, setup, at):
                continue
            compare(ctx, f, T, St, where, at, u, v)


def bounds_open(bd):
    return bd == "open"


def outcomes(rng, nodes, sup, odds):
    """Bit values with (about) the given number of odd stabilizers, built from strings of flips."""
    b = {p: 0 for p in nodes}
    if odds == 0:
        for s in list(sup.values())[:2]:            # a flip pattern that is no syndrome of its own
            pass
        return b
    qs = sorted(q for s in sup.values() for q in s)
    for _ in range(2000):
        n = sum(sum(b[q] for q in s) % 2 for s in sup.values())
        if n == odds:
            return b
        b[rng.choice(qs)] ^= 1
        if rng.random() < 0.05:
            b = {p: 0 for p in nodes}
    return None


def compare(ctx, f, T, St, where, at, u, v):
    W, odd, low, high = St["W"], St["odd"], St["low"], St["high"]
    adj, adjb = {}, {}
    for e in W:
        x, y = tuple(e)
        adj.setdefault(x, []).append(y)
        adj.setdefault(y, []).append(x)
    dist = {s: best(adj, W, s) for s in odd}
    stabs = set(St["sv"])
    # distance to the boundary: over paths from a stabilizer to any boundary point
    near = {s: min((dist[s][p] for p in low | high if p in dist[s]), default=None) for s in odd}
    ev = lambda k, x=None, y=None: f.r.ev(T[k], {u: x, v: y})

    def struct(vk):
        V = [freeze(x) for x in seq(ev(vk))]
        if len(V) != len(set(V)):
            return "a virtual point is listed twice"
        want = len(odd) if low else 0
        if len(V) != want:
            return "%d virtual points for %d odd stabilizers" % (len(V), len(odd))
        if set(V) & stabs:
            return "a virtual point is a stabilizer"
        N, E = [freeze(x) for x in seq(ev("nodes"))], [tuple(freeze(x) for x in e) for e in seq(ev("edges"))]
        d = None
        if set(N) - set(V) != odd and not (len(odd) == 1 and not V and not N):
            d = "the nodes that are not virtual are not the odd stabilizers"
        elif set(V) - set(N):
            d = "a virtual point is no node of the matching graph"
        if d:
            return d
        E = {frozenset(e) for e in E}
        so = sorted(odd, key=repr)
        for i, x in enumerate(so):
            for y in so[i + 1:]:
                if y in dist[x] and frozenset((x, y)) not in E:
                    return "two odd stabilizers are not joined"
        for i, x in enumerate(V):
            for y in V[i + 1:]:
                if frozenset((x, y)) not in E:
                    return "two virtual points are not joined"
        part = {x: [y for y in odd if frozenset((x, y)) in E] for x in V}
        if any(len(p) != 1 for p in part.values()):
            return "a virtual point is joined to %d stabilizers" % next(len(p) for p in part.values() if len(p) != 1)
        if len({p[0] for p in part.values()}) != len(V):
            return "an odd stabilizer has no virtual point"
        n = len(odd) * (len(odd) - 1) // 2 + len(V) * (len(V) - 1) // 2 + len(V)
        if len(E) != n:
            return "%d edges instead of %d" % (len(E), n)
        St["V"], St["part"] = V, {x: p[0] for x, p in part.items()}

    def pathok(x, y, p, boundary):
        """A path between the odd stabilizer x and the stabilizer y (or any boundary point)."""
        p = [freeze(q) for q in p]
        if p and p[0] != x:
            p = p[::-1]
        if not p or p[0] != x or (p[-1] != y if not boundary else p[-1] not in low | high):
            return None
        if any(frozenset(e) not in W for e in zip(p, p[1:])):
            return None
        return sum(W[frozenset(e)] for e in zip(p, p[1:]))

    def weights(wk, pk):
        so = sorted(odd, key=repr)
        for i, x in enumerate(so):
            for y in so[i + 1:]:
                for a, c in ((x, y), (y, x)):
                    g = ev(wk, a, c)
                    if g != dist[x][y]:
                        return "weight", "the edge between two odd stabilizers weighs %s, the shortest path %s" % (g, dist[x][y])
                    t = pathok(x, y, seq(ev(pk, a, c)), False)
                    if t is None or t != dist[x][y]:
                        return "path", "the path stored for two odd stabilizers is %s" % ("no path between them" if t is None else "not a shortest one")
        for x, s in St["part"].items():
            for a, c in ((x, s), (s, x)):
                g = ev(wk, a, c)
                if g != near[s]:
                    return "weight", "the edge to a virtual point weighs %s, the nearest boundary is at %s" % (g, near[s])
                t = pathok(s, None, seq(ev(pk, a, c)), True)
                if t is None or t != near[s]:
                    return "path", "the path stored for a virtual point is %s" % ("no path to the boundary" if t is None else "not a shortest one")
        for i, x in enumerate(St["V"]):
            for y in St["V"][i + 1:]:
                if ev(wk, x, y) != 0:
                    return "weight", "two virtual points are joined by an edge of weight %s" % (ev(wk, x, y),)
        return None

    ok = decide(ctx, "graph-structure", where, lambda: struct("virtual"), at, undef=True)
    if not ok:
        return
    decide(ctx, "virtual-points-after-conversion", where, lambda: setdiff([freeze(x) for x in seq(ev("nx_virtual"))], St["V"], "virtual point"), at, undef=True)
    for wk, pk in (("weight", "path"), ("nx_weight", "nx_path"), ("total", "path")):
        res = []

        def once(what):
            if not res:
                res.append(weights(wk, pk))
            return res[0][1] if res[0] and res[0][0] == what else None
        decide(ctx, "edge-weights", where, lambda: once("weight"), at, undef=True)
        if wk != "total":
            decide(ctx, "edge-paths", where, lambda: once("path"), at, undef=True)


def seq(x):
    if isinstance(x, Graph):
        return list(x.nodes)
    if isinstance(x, (list, tuple, set, frozenset, dict)):
        return list(x)
    raise Unsup("sequence")

"""Closed-form extraction of the shortest path queries of both stabilizer graph backends over symbolic dimensions and
symbolic qubit weights, compared with an independent shortest path computation on the specified stabilizer graph."""
import heapq
import random

from ..scen import *
from ..terms import *
from ..forms import *
from .d06 import stabgraph, norm

RULE = "lengths and paths of the path queries are minimal over the specified graph with the current weights"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions and weights (random interpretation)",
               "networkx / rustworkx Dijkstra routines return shortest paths for the graph, source and weight function they are given"]
FN = "flamingpy/codes/graphs/stabilizer_graph.py:%s.%s[%s,%s]"


def run(ctx):
    for (bd, ec), b in LT.BOUNDS.items():
        for be in ("networkx", "rustworkx"):
            ctx.scenario("paths(%s, %s, %s)" % (ec, bd, be), paths, ctx, bd, ec, b, be, False)
    for bd, ec in (("open", "primal"), ("toric", "dual")):
        for be in ("networkx", "rustworkx"):
            ctx.scenario("paths after reweighting(%s, %s, %s)" % (ec, bd, be), paths, ctx, bd, ec, LT.BOUNDS[bd, ec], be, True)


def best(adj, W, s):
    dist, heap, n = {}, [(0, 0, s)], 0
    while heap:
        d, _, x = heapq.heappop(heap)
        if x in dist:
            continue
        dist[x] = d
        for y in adj.get(x, ()):
            if y not in dist:
                n += 1
                heapq.heappush(heap, (d + W[frozenset((x, y))], n, y))
    return dist


def paths(ctx, bd, ec, bounds, be, twice):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    G, sg = it.getattr(c, "graph"), it.getattr(c, ec + "_stab_graph")
    src = S("?src")
    Q = {"shortest_paths_from_low": (), "shortest_paths_from_high": (), "shortest_paths_without_high_low": (src,)}
    if twice:
        set_node_attrs(it, G, weight="w0")
        meth(it, sg, "assign_weights", c)
        for q, a in Q.items():
            meth(it, sg, q, *a)
    set_node_attrs(it, G, weight="w")
    meth(it, sg, "assign_weights", c)
    R = {}
    for q, a in Q.items():
        r = meth(it, sg, q, *a)
        R[q] = (it.lib.val(it.getitem(r, C(0))), it.lib.val(it.getitem(r, C(1))))
    u, v = S("?u"), S("?v")
    T = {"stabs": it.lib.val(it.getattr(c, ec + "_stabilizers"))}
    lab = it.lib.val(it.getitem(meth(it, sg, "edge_data", u, v), C("common_vertex")))
    cls = ("Nx" if be == "networkx" else "Rx") + "StabilizerGraph"
    tag = ",reweighted" if twice else ""
    for dims in dims_of(ctx.tier)[:2 if ctx.tier != "thorough" else 5]:
        for kind in ("integer", "fractional"):
            rng = random.Random("%s%s%s%s" % (bd, ec, dims, kind))
            w = {p: rng.randrange(1, 100000) if kind == "integer" else rng.random() * 5 for p in sorted(LT.nodes(bounds, dims))}
            f = Form(it, dict(dsyms(dims), w=w, w0={p: 1 for p in w}), cell=lambda typ, a, k: None)
            f.r.norm = norm
            at = "with dimensions %s and %s weights" % (dims, kind)
            St = {}

            def setup():
                sv, low, high, E = stabgraph(f, T, ec, bounds, dims)
                W = {}
                for e in E:
                    x, y = sorted(e, key=repr)
                    q = freeze(f.r.ev(lab, {u: x, v: y}))
                    if q not in E[e]:
                        raise Unsup("edge labels")
                    W[e] = w[q]
                for nm, pts in (("low", low), ("high", high)):
                    for p in pts:
                        W[frozenset((nm, p))] = 0
                St.update(sv=sv, low=low, high=high, W=W)
                return None
            if not decide(ctx, "graph", FN % (cls, "graph", ec, bd), setup, at):
                continue

            def query(q, s):
                W = St["W"] if s in ("low", "high") else {e: x for e, x in St["W"].items() if not e & {"low", "high"}}
                adj = {}
                for e in W:
                    x, y = tuple(e)
                    adj.setdefault(x, []).append(y)
                    adj.setdefault(y, []).append(x)
                want = best(adj, W, s)
                del want[s]
                want.pop("low", None), want.pop("high", None)      # paths between the connectors are of no use to anybody
                env = {src: s} if Q[q] else {}
                L, P = f.r.ev(R[q][0], env), f.r.ev(R[q][1], env)
                if not isinstance(L, dict) or not isinstance(P, dict):
                    raise Unsup("path query value")
                L, P = [{k: x for k, x in y.items() if k not in ("low", "high")} for y in (L, P)]
                nm = lambda x: x if isinstance(x, (str, tuple)) and not (isinstance(x, tuple) and x and x[0] == "obj") else "a stabilizer"
                for what, D in (("length", L), ("path", P)):
                    if set(D) != set(want):
                        x = sorted(set(D) ^ set(want), key=repr)[0]
                        return "lengths", "from %s: %s has %s %s" % (nm(s), nm(x), "a superfluous" if x in D else "no", what)
                for x, p in P.items():
                    p = [freeze(y) for y in p]
                    if p[0] != s or p[-1] != x:
                        return "path", "the path from %s to %s has other ends" % (nm(s), nm(x))
                    if any(frozenset(e) not in W for e in zip(p, p[1:])):
                        return "path", "the path from %s to %s uses a pair of nodes that is no permitted edge" % (nm(s), nm(x))
                    t = sum(W[frozenset(e)] for e in zip(p, p[1:]))
                    if abs(t - want[x]) > 1e-9 * max(1, t):
                        return "path", "the path from %s to %s weighs %s, the lightest one weighs %s" % (nm(s), nm(x), t, want[x])
                for x in L:
                    if abs(L[x] - want[x]) > 1e-9 * max(1, want[x]):
                        return "length", "the length from %s to %s is %s instead of %s" % (nm(s), nm(x), L[x], want[x])
                return None

            for q in Q:
                if Q[q]:
                    ss = sorted(St["sv"], key=repr)
                    ss = [ss[0], ss[len(ss) // 2]] + sorted(St["low"])[:1] + sorted(St["high"])[-1:]
                else:
                    ss = [q.rsplit("_", 1)[1]]
                    if not St["low"]:
                        continue
                res = []

                def run1(rule):
                    if not res:
                        res.append(next((x for x in (query(q, s) for s in ss) if x), None))
                    return res[0][1] if res[0] and (res[0][0] == "length") == (rule == "length") else None
                wh = FN % (cls, q, ec, bd) + tag
                decide(ctx, "path-is-shortest", wh, lambda: run1("path"), at, undef=True)
                lw = wh if kind == "integer" else "flamingpy/codes/graphs/stabilizer_graph.py:%s[fractional-weights]" % cls
                decide(ctx, "path-length", lw, lambda: run1("length"), at, undef=True)

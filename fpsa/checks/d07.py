"""Closed-form extraction of what every matching graph class answers after an arbitrary sequence of added edges, compared
with the plain weighted graph those edges define; external solvers are interpreted by a reference matcher."""
import math
import random

from ..scen import *
from ..terms import *
from ..forms import *
from ..rint import heaviest
from .d06 import norm

RULE = "a matching graph reports the weight and path given last for each edge and returns a perfect matching of least total weight"
ASSUMPTIONS = ["equality of forms is tested at sample edge sequences (random interpretation)",
               "the matching routines of networkx, rustworkx and lemon solve the problem they are handed (a reference matcher stands for them)"]
FN = "flamingpy/decoders/mwpm/matching.py:%s.%s"
M = "flamingpy.decoders.mwpm.matching:"
CLASSES = {"networkx": "NxMatchingGraph", "rustworkx": "RxMatchingGraph", "lemon": "LemonMatchingGraph"}
SRC = '''
def f(cls, L, V, E, u, v):
    m = cls("primal")
    for e, w, p in L:
        m.add_edge(e, w, p)
    m.virtual_points = V
    n = m.to_nx() if hasattr(m, "to_nx") else m
    again = n.min_weight_perfect_matching()
    return (list(n.graph.nodes), list(n.graph.edges), n.edge_weight((u, v)), n.edge_path((u, v)), list(n.virtual_points), again, n.ec,
            m.edge_weight((u, v)), m.edge_path((u, v)), m.total_weight_of(E))
'''
MATCH = '''
def f(cls, L):
    m = cls("primal")
    for e, w, p in L:
        m.add_edge(e, w, p)
    return m.min_weight_perfect_matching()
'''
DEF = '''
def f(cls, L, u, v):
    m = cls("dual")
    for e, w in L:
        m.add_edge(e, w)
    return m.edge_weight((u, v)), m.edge_path((u, v))
'''
KEYS = ("nodes", "edges", "nx_weight", "nx_path", "virtual", "nx_match", "ec", "weight", "path", "total")


def run(ctx):
    for be, cls in CLASSES.items():
        ctx.scenario("add and query (%s)" % cls, queries, ctx, cls)
        ctx.scenario("default path (%s)" % cls, defaults, ctx, cls)
        ctx.scenario("backend name (%s)" % be, named, ctx, be, cls)


def named(ctx, be, cls):
    it = ctx.interp()
    c = built_code(it, "primal", "open", "networkx")
    m = call(it, "flamingpy.decoders.mwpm.algos:build_match_graph", c, C("primal"), C(be))
    o = it.obj(m)

    def same():
        got = it.classes[o.cls.a[0]].name if o is not None and getattr(o, "cls", None) is not None else None
        if got is None:
            raise Unsup("class of the matching graph")
        return None if got == cls else "backend %r builds a %s" % (be, got)
    decide(ctx, "backend-class", "flamingpy/decoders/mwpm/algos.py:build_match_graph[%s]" % be, same, "the backend name selects another class")


def cases(tier):
    """Edge sequences: complete graphs with distinct sums, sparse graphs, re-added edges, negative and fractional weights."""
    for k in range(14 if tier != "thorough" else 60):
        rng = random.Random("D07 %d" % k)
        n = (2, 4, 4, 6, 6, 8, 8)[k % 7]
        kind = k % 5
        N = [((i, j, 2 * i + j) if i % 3 or k % 4 == 2 else ((i, j, 0), i)) for i, j in zip(range(n), rng.sample(range(50), n))]
        rng.shuffle(N)
        W = {0: lambda: rng.randrange(1, 10 ** 6), 1: lambda: rng.randrange(1, 10 ** 6) / 64, 2: lambda: rng.randrange(0, 10 ** 5),
             3: lambda: 2 ** 30 + rng.randrange(1, 10 ** 7), 4: lambda: rng.randrange(1, 5)}[kind]
        ring = [(N[i], N[(i + 1) % n]) for i in range(n if n > 2 else 1)]
        full = [(N[i], N[j]) for i in range(n) for j in range(i)]
        E = full if k % 3 else ring + rng.sample(full, len(full) // 3)
        L = [(e if rng.random() < 0.5 else e[::-1], W(), tuple(rng.sample(range(30), rng.randrange(0, 5)))) for e in E]
        if k % 2:
            L += [(e[::-1] if rng.random() < 0.7 else e, W(), rng.choice((tuple(rng.sample(range(30, 60), 2)), (), None))) for e in rng.sample(E, max(1, len(E) // 3))]
        rng.shuffle(L)
        yield N, L, rng


def queries(ctx, cls):
    it = ctx.interp()
    ct = it.get(M + cls)
    L, V, E, u, v = (S("?" + x) for x in "LVEuv")
    r = snippet(it, SRC, ct, L, V, E, u, v)
    T = {k: it.lib.val(it.getitem(r, C(i))) for i, k in enumerate(KEYS)}
    it2 = ctx.interp()
    match = it2.lib.val(snippet(it2, MATCH, it2.get(M + cls), L))
    for n, (N, seq, rng) in enumerate(cases(ctx.tier)):
        if cls == "RxMatchingGraph" and any(w != int(w) for e, w, p in seq):
            continue                                    # documented to take integer weights only
        f = Form(it, {})
        f2 = Form(it2, {})
        f.r.norm = f2.r.norm = norm
        want = {}
        for e, w, p in seq:
            want[frozenset(e)] = (w, p or ())
        pairs = [tuple(e) for e in want]
        vp = tuple(x for x in N if len(x) == 2)
        ask = [e if rng.random() < 0.5 else e[::-1] for e in (rng.choice(pairs) for _ in range(rng.randrange(0, 6)))]
        if n % 2:
            ask += ask[:2]
        env = {L: tuple(seq), V: list(vp), E: tuple(ask)}
        ev = lambda k, **q: f.r.ev(T[k], {**env, **{x: y for x, y in ((u, q.get("u")), (v, q.get("v"))) if y is not None}})
        at = "after %d added edges" % len(seq)

        def each(key, i):
            for a, b in pairs:
                for x, y in ((a, b), (b, a)):
                    g = ev(key, u=x, v=y)
                    w = want[frozenset((a, b))][i]
                    if g is None:
                        return "an edge has no %s at all" % ("weight", "path")[i]
                    if (freeze(list(g)) if i else g) != (freeze(list(w)) if i else w):
                        return "an edge has %s %s, %s was given last" % (("weight", "path")[i], g, w)

        def graph():
            got = [frozenset(freeze(x) for x in e) for e in ev("edges")]
            d = setdiff([freeze(x) for x in ev("nodes")], {x for e in want for x in e}, "node") or setdiff(got, want, "edge")
            return d or ("an edge is stored twice" if len(got) != len(want) else None)

        def matched(key):
            m = [tuple(freeze(x) for x in p) for p in (ev(key) if key else f2.r.ev(match, {L: tuple(seq)}))]
            ends = [x for p in m for x in p]
            if any(frozenset(p) not in want for p in m):
                return "a matched pair is no edge of the graph"
            if len(ends) != len(set(ends)):
                return "a node is matched twice"
            ref = heaviest(list({x for e in want for x in e}), {e: -w[0] for e, w in want.items()}, True)
            if len(ref) != len(m):
                return "%d pairs are matched, %d can be" % (len(m), len(ref))
            a, b = (math.fsum(want[frozenset(p)][0] for p in q) for q in (m, ref))
            return None if a == b else "the matching weighs %s, the lightest %s" % (a, b)
        decide(ctx, "edge-weight", FN % (cls, "edge_weight"), lambda: each("weight", 0), at, undef=True)
        decide(ctx, "edge-path", FN % (cls, "edge_path"), lambda: each("path", 1), at, undef=True)
        decide(ctx, "total-weight", FN % (cls, "total_weight_of"), lambda: None if ev("total") == sum(want[frozenset(e)][0] for e in ask) else
               "%d pairs weigh %s in total, not %s" % (len(ask), ev("total"), sum(want[frozenset(e)][0] for e in ask)), at, undef=True)
        decide(ctx, "matching", FN % (cls, "min_weight_perfect_matching"), lambda: matched(None), at, undef=True)
        conv = FN % (cls, "to_nx")
        decide(ctx, "conversion-graph", conv, graph, at, undef=True)
        decide(ctx, "conversion-weight", conv, lambda: each("nx_weight", 0), at, undef=True)
        decide(ctx, "conversion-path", conv, lambda: each("nx_path", 1), at, undef=True)
        decide(ctx, "conversion-virtual-points", conv, lambda: setdiff([freeze(x) for x in ev("virtual")], vp, "virtual point"), at, undef=True)
        decide(ctx, "conversion-matching", conv, lambda: matched("nx_match"), at, undef=True)
        decide(ctx, "conversion-complex", conv, lambda: None if ev("ec") == "primal" else "the converted graph is of the %s complex" % ev("ec"), at, undef=True)


def defaults(ctx, cls):
    it = ctx.interp()
    L, u, v = (S("?" + x) for x in "Luv")
    r = it.lib.val(snippet(it, DEF, it.get(M + cls), L, u, v))

    def check():
        f = Form(it, {})
        f.r.norm = norm
        w, p = f.r.ev(r, {L: ((("a", "b"), 7), (("b", "c"), 0)), u: "c", v: "b"})
        return None if w == 0 and list(p) == [] else "an edge added without a path has weight %s and path %s" % (w, p)
    decide(ctx, "default-path", FN % (cls, "add_edge"), check, "an edge without a path", undef=True)

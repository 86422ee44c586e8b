"""The generators of named graph states, as functions of the number of nodes."""
from ..scen import *
from ..terms import *
from ..forms import *
from ..nint import Nint

RULE = "the vertices and edges written by a generator are those of the named graph, for every number of nodes"
ASSUMPTIONS = ["the extracted forms are compared at sample numbers of nodes; vertices of rings and complete graphs, placed on a circle with five "
               "decimals, stay apart up to some 100000 nodes"]
N = S("?n", "int")
GS = "flamingpy.utils.graph_states:"
READ = '''
def f(g, n):
    return (list(g.nodes), list(g.edges), g.adj_generator(sparse=False), list(g.nodes(data=True)), list(g.edges(data=True)))
'''


def run(ctx):
    for g in ("star_graph", "complete_graph", "linear_cluster", "ring_graph", "bell"):
        ctx.scenario(g, one, ctx, g)


def one(ctx, g):
    it = ctx.interp()
    G = call(it, GS + g, *([] if g == "bell" else [N]))
    r = it.lib.val(snippet(it, READ, G, N))
    ns = [2] if g == "bell" else list(range(1, 22 if ctx.tier == "quick" else 25)) + [16, 20, 25, 33, 50, 64, 100, 400, 1000] * (g != "complete_graph")
    for n in ns:
        f = Nint(it, {}, cell=lambda typ, a, k: None, maxiter=10 ** 7)
        where = "flamingpy/utils/graph_states.py:%s" % g
        if decide(ctx, "named-graph", where + "(%d)" % n, lambda: differs(g, n, f, r), "with %d nodes" % n, undef=True) is False:
            break


def differs(g, n, f, r):
    env = {N: n}
    nodes = [freeze(x) for x in f.seq(r.a[0], env)]
    edges = {frozenset(freeze(x)) for x in f.seq(r.a[1], env)}
    if len(nodes) != n:
        return "the graph has %d vertices" % len(nodes)
    if any(not isinstance(x, tuple) or len(x) != 3 for x in nodes):
        return "a vertex is not a coordinate triple"
    if any(len(e) != 2 for e in edges):
        return "a vertex is joined to itself"
    nb = {x: {y for e in edges for y in e if x in e and y != x} for x in nodes}
    deg = sorted(len(nb[x]) for x in nodes)
    kind = "linear_cluster" if g == "bell" else g
    want = {"star_graph": [1] * (n - 1) + [n - 1], "complete_graph": [n - 1] * n, "linear_cluster": [1, 1] + [2] * (n - 2),
            "ring_graph": [2] * n if n > 2 else [1, 1]}[kind] if n > 1 else [0]
    if deg != sorted(want):
        return "the vertices have degrees %s instead of %s" % (deg, sorted(want))
    reach, todo = set(), [nodes[0]]
    while todo:
        x = todo.pop()
        if x not in reach:
            reach.add(x)
            todo += nb[x]
    if len(reach) != n:
        return "the graph is not connected"
    if kind == "linear_cluster":
        line = sorted(nodes)
        if any(b not in nb[a] for a, b in zip(line, line[1:])):
            return "the chain does not follow the coordinates"
    return None

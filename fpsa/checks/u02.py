"""Peeling of a spanning forest: one step of the trimming, and the leaves it is started from, as forms over symbolic forests and parities."""
import random

from ..scen import *
from ..terms import *
from ..forms import *
from ..nint import *
from .u01 import components

RULE = ("a step of peeling removes the only edge of a leaf, flips the recovery exactly when the leaf is odd, hands the parity over to the other end and goes on there "
        "while it is left with one edge; peeling starts from every leaf and recovers the edges that cut off an odd number of odd nodes")
ASSUMPTIONS = ["rustworkx graphs are represented by a model with the edges at a node, their data, removal of an edge and degree",
               "equality of forms is tested at sample forests and parities (random interpretation)"]
ALG = "flamingpy/decoders/unionfind/algos.py:"
A = "flamingpy.decoders.unionfind.algos:"
N = 7
FOREST = '''
def f(fun, n, E, P, leaf):
    class Forest:
        def __init__(self):
            self.gone = []
            self.log = []
            self.pars = []
        def edge(self, a, b):
            return {"common_vertex": frozenset((a, b))}
        def out_edges(self, i):
            return [(i, b if a == i else a, {"common_vertex": frozenset((a, b))}) for a, b in E if (a == i or b == i) and frozenset((a, b)) not in self.gone]
        def in_edges(self, i):
            return [(b if a == i else a, i, {"common_vertex": frozenset((a, b))}) for a, b in E if (a == i or b == i) and frozenset((a, b)) not in self.gone]
        def neighbors(self, i):
            return [b if a == i else a for a, b in E if (a == i or b == i) and frozenset((a, b)) not in self.gone]
        def degree(self, i):
            return len([1 for a, b in E if (a == i or b == i) and frozenset((a, b)) not in self.gone])
        def get_edge_data(self, a, b):
            return {"common_vertex": frozenset((a, b))}
        def remove_edge(self, a, b):
            self.gone.append(frozenset((a, b)))
        def remove_edges_from(self, v):
            for e in v:
                self.gone.append(frozenset(e[:2]))
        def remove_node(self, i):
            for e in self.out_edges(i):
                self.gone.append(frozenset(e[:2]))
        def remove_edge_from_index(self, i):
            self.gone.append(unknown_edge(i))
        def clear_edges(self):
            self.gone.append(unknown_edge())
        def nodes(self):
            return n
        def node_indices(self):
            return range(len(n))
        def node_indexes(self):
            return range(len(n))
        def num_nodes(self):
            return len(n)
        def __len__(self):
            return len(n)
    g = Forest()
    par = P
    %s
'''
TRIM = '''rec = {"before"}
    fun(g, leaf, par, rec)
    return g.gone, g.log, rec, par, [("go", x) in par for x in g.log]'''
PEEL = '''rec = fun(g, par)
    if g.log:
        par = g.pars[0]
    return g.gone, g.log, rec, par, [("go", x) in p for p in g.pars for x in g.log]'''
STUB = '''
def f(g, leaf, par, rec):
    g.log.append(leaf)
    g.pars.append(par)
    rec.add(("go", leaf))
    par[("go", leaf)] = 1
'''


def run(ctx):
    ctx.scenario("a step of the trimming", trimming, ctx)
    ctx.scenario("the leaves", leaves, ctx)


def params(fn):
    x = fn.node.args
    return [y.arg for y in x.posonlyargs + x.args + x.kwonlyargs]


def helper(it):
    """The function that trims from one leaf, if there still is one of this kind."""
    try:
        t = it.get(A + "trim_forest")
    except Vanished:
        return None
    if t.op != "fn" or params(it.funcs[t.a[0]]) != ["spanning_forest", "leaf", "parity_dict", "recovery"]:
        return None
    return t


def prepare(ctx, body, fun, through):
    """The state after a call, in which trimming again is recorded."""
    it = ctx.interp()
    trim = helper(it)
    if trim is not None:
        fn = it.funcs[trim.a[0]]
        first = [through]

        def stub(args, kw):
            if first[0]:
                first[0] = False
                return it.call_body(trim, fn, args, kw)
            args = list(args) + [kw[x] for x in params(fn)[len(args):]]
            snippet(it, STUB, *args)
            return NONE
        it.stubs[fn.qual] = stub
    d = snippet(it, "def f(P, n):\n    return {i: P[i] for i in range(n)}\n", S("?P"), C(N))
    return it, it.lib.val(snippet(it, FOREST % body, it.get(A + fun), S("?n"), S("?E"), d, S("?l")))


def reference(edges, par, todo, gone, rec, passes=None):
    """Trim from the leaves in todo; what a call for a node that is no leaf does is asked of passes."""
    gone, rec, par = set(gone), set(rec), dict(par)
    at = lambda i: [e for e in edges if i in e and frozenset(e) not in gone]
    for leaf in todo:
        if passes and leaf not in par:
            raise Wrong("goes on from %r, which is not a node" % (leaf,))
        if passes and len(at(leaf)) > 1 and not passes(len(at(leaf))):       # nodes without edges may be kept out by the caller
            raise Wrong("goes on from the node %d when it has %d edges" % (leaf, len(at(leaf))))
        while len(at(leaf)) == 1:
            e = at(leaf)[0]
            gone.add(frozenset(e))
            to = e[0] if e[1] == leaf else e[1]
            if par[leaf]:
                rec ^= {frozenset(e)}
                par[leaf] = 0
                par[to] ^= 1
            leaf = to
    return gone, rec, par


class Wrong(Exception):
    pass


def tolerance(it, t):
    """Whether trimming passes over a node with so many edges."""
    known = {}

    def passes(d):
        if d not in known:
            ok = True
            for odd in (0, 1):
                par = {i: int(odd and i < 2) for i in range(N)}
                try:
                    gone, calls, rec, p, bad = evaluate(it, t, [(0, i + 1) for i in range(d)], par, 0)
                    ok = ok and not gone and not calls and rec == {"before"} and p == par
                except Undef:
                    ok = False
            known[d] = ok
        return known[d]
    return passes


def samples(ctx, key):
    for s in range(100 if ctx.tier == "quick" else 1000):
        rng = random.Random("%s%d" % (key, s))
        nodes = list(range(N))
        rng.shuffle(nodes)
        edges = [(v, rng.choice(nodes[:i])) for i, v in enumerate(nodes) if i and rng.random() < 0.85]
        edges = [e if rng.random() < 0.5 else e[::-1] for e in edges]
        rng.shuffle(edges)
        par = {i: rng.randrange(2) for i in range(N)}
        for c in components(range(N), edges):
            if sum(par[i] for i in c) % 2:
                par[min(c)] ^= 1
        yield rng, edges, par


def evaluate(it, t, edges, par, leaf=None):
    n = Nint(it, {"?n": ["node%d" % i for i in range(N)], "?E": [tuple(e) for e in edges], "?P": dict(par), "?l": leaf}, cell=lambda typ, a, k: None, maxiter=100000)
    gone, log, rec, p, same = n.ev(t, {})
    go = lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "go"
    rec = {freeze(x) for x in rec}
    if isinstance(p, tuple):
        p = dict(p[1:])
    p = {freeze(k): v for k, v in p.items()}
    calls = list(log)
    bad = None
    if {x[1] for x in rec if go(x)} != set(calls) or not all(same):
        bad = "goes on with other data"
    return [freeze(x) for x in gone], calls, {x for x in rec if not go(x)}, {k: v for k, v in p.items() if not go(k)}, bad


def show(edges, par):
    return "in the forest %s with odd nodes %s" % (edges, [i for i in sorted(par) if par[i]])


def trimming(ctx):
    if helper(ctx.interp()) is None:
        return
    it, t = prepare(ctx, TRIM, "trim_forest", True)
    passes = tolerance(it, t)
    for rng, edges, par in samples(ctx, "trim"):
        ends = [i for i in range(N) if sum(i in e for e in edges) == 1]
        if not ends:
            continue
        leaf = rng.choice(ends)

        def check():
            gone, calls, rec, p, bad = evaluate(it, t, edges, par, leaf)
            what = "trimming the leaf %d %s" % (leaf, show(edges, par))
            if bad:
                return "%s %s" % (what, bad)
            if len(set(gone)) != len(gone):
                return "%s removes an edge again" % what
            if "before" not in rec:
                return "%s forgets the recovery found before" % what
            if not set(gone) <= {frozenset(e) for e in edges}:
                return "%s removes edges that are not there" % what
            try:
                got = reference(edges, p, calls, gone, rec - {"before"}, passes)
            except Wrong as x:
                return "%s %s" % (what, x)
            want = reference(edges, par, [leaf], (), ())
            for a, b, w in zip(got, want, ("removes the edges", "recovers", "leaves the parities")):
                if a != b:
                    return "%s %s %s instead of %s" % (what, w, short(a), short(b))
        decide(ctx, "trim", ALG + "trim_forest", check, "on sample forests", undef=True)


def short(x):
    return x if isinstance(x, dict) else sorted(map(sorted, x))


def leaves(ctx):
    passes = tolerance(*prepare(ctx, TRIM, "trim_forest", True)) if helper(ctx.interp()) is not None else None
    it, t = prepare(ctx, PEEL, "peeling", False)
    for rng, edges, par in samples(ctx, "peel"):
        def check():
            gone, calls, rec, p, bad = evaluate(it, t, edges, par)
            what = "peeling %s" % show(edges, par)
            if bad:
                return "%s %s" % (what, bad)
            try:
                _, got, _ = reference(edges, p, calls, gone, rec, passes)
            except Wrong as x:
                return "%s %s" % (what, x)
            want = set()
            for e in edges:
                c = next(c for c in components(range(N), [x for x in edges if x != e]) if e[0] in c)
                if sum(par[i] for i in c) % 2:
                    want.add(frozenset(e))
            if got != want:
                return "%s recovers %s instead of %s" % (what, short(got), short(want))
        decide(ctx, "peel", ALG + "peeling", check, "on sample forests", undef=True)

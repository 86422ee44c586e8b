"""Bookkeeping of union-find clusters as forms over symbolic weights, parities, sizes and support tables."""
import itertools
import random

from ..scen import *
from ..terms import *
from ..forms import *
from ..nint import *

RULE = ("initial clusters are the components of the erased edges with their joint parity, size and boundary; merging adds them up under the larger root; "
        "edges grow by halves and are reported once; the spanning forest spans the grown edges and carries the parities")
ASSUMPTIONS = ["rustworkx and networkx behave as documented", "equality of forms is tested at sample weights, parities and tables (random interpretation)"]
ALG = "flamingpy/decoders/unionfind/algos.py:"
CLS = "flamingpy/decoders/unionfind/uf_classes.py:"
A, U = "flamingpy.decoders.unionfind.algos:", "flamingpy.decoders.unionfind.uf_classes:"
NODES = 8                     # 0, 1: low, high; 2-5: stabilizers; 6, 7: boundary points
GRAPH = '''
def f(base, stab, P, W, Q, E, fun, cls, aux, X, Y):
    class St(stab):
        parity = None
        def __init__(self, k):
            self.parity = P[k]
    n = ["low", "high"] + [St(2), St(3), St(4), St(5)] + [(0, 0, 1), (0, 0, 5)]
    class G(base):
        def __init__(self):
            self.graph = None
        def nodes(self):
            return n
        def edges(self):
            return E
        def edge_data(self, a, b):
            return {"weight": W[frozenset((a, b))], "common_vertex": Q[frozenset((a, b))]}
        def out_edges(self, m):
            return [(m, b if a == m else a) for a, b in E if a == m or b == m]
        def neighbors(self, m):
            return [b if a == m else a for a, b in E if a == m or b == m]
    g = G()
    %s
'''
INIT = '''nd, t, o = fun(g)
    return n, [(c.parity, c.size, c.boundary, c.node, [c.node.parent is c]) for c in t], [(c.node, c.parity) for c in o], [(x, nd[x].id) for x in nd], [(k, nd[k]) for k in nd]'''
SUPPORT = '''t = cls(g)
    first = dict(t.status)
    got = [t.grow(X), t.grow(Y), t.grow(X), t.grow(Y), t.grow(X)]
    return n, first, [None if x is None else tuple(x) for x in got], t.status'''
PRUNE = '''class B(cls):
        def __init__(self, nodes):
            self.nodes = nodes
    class S:
        def __init__(self):
            self.status = {frozenset((a, b)): X[frozenset((a, b))] for a, b in E if not (a in ("low", "high") or b in ("low", "high"))}
    N = [aux(x) for x in n]
    b = B({N[i] for i in Y})
    b.prune(S(), g)
    return n, b.nodes, N'''
FOREST = '''class S(cls):
        def __init__(self):
            self.status = {frozenset((a, b)): X[frozenset((a, b))] for a, b in E if not (a in ("low", "high") or b in ("low", "high"))}
    return (n,) + tuple(fun(g, S()))'''
UNION = '''
def f(Node, Root, union, s1, p1, h1, s2, p2, h2):
    a, b = Node("a"), Node("b")
    r, q = Root(a, parity=p1), Root(b, parity=p2)
    r.size = s1
    q.size = s2
    r.boundary = a if h1 else None
    q.boundary = b if h2 else None
    z = union(r, q)
    top = a if s1 >= s2 else b
    x = r if s1 >= s2 else q
    low = b if s1 >= s2 else a
    return x.size, x.parity, x.boundary, z[0] is top, z[1] is low, top.parent is x, low.parent is top, low in top.children, top in low.children, a, b, union(r, r), x.node is top
'''
ARGS = [S("?" + x) for x in "PWQEXY"]


def run(ctx):
    ctx.scenario("merging two clusters", merging, ctx)
    ctx.scenario("initial clusters", initial, ctx)
    ctx.scenario("support table", support, ctx)
    ctx.scenario("pruning", prune, ctx)
    ctx.scenario("spanning forest", forest, ctx)


def prepare(ctx, body, fun=None, cls=None, aux=None):
    it = ctx.interp()

    def comps(ext):
        return lambda a, k: snippet(it, "def f(c):\n    return [set(x) for x in c]\n", mk("call", Ext(ext), a[0]))

    def mst(a, k):
        t = meth(it, a[0], "copy")
        it.wobj(t).meta = {**it.wobj(t).meta, "forest": True}
        return t
    for ext in ("rustworkx.connected_components", "networkx.connected_components"):
        it.stubs[ext] = comps(ext)
    it.stubs["rustworkx.minimum_spanning_tree"] = mst
    opt = lambda m, x: it.get(m + x) if x else NONE
    t = snippet(it, GRAPH % body, it.get("flamingpy.codes.graphs.stabilizer_graph:StabilizerGraph"), it.get("flamingpy.codes.stabilizer:Stabilizer"),
                *ARGS[:4], opt(A, fun), opt(U, cls), opt(U, aux), *ARGS[4:])
    return it, it.lib.val(t)


class Sample:
    """A random stabilizer graph: pairs of node numbers, their weights and the parities of the stabilizers."""
    def __init__(self, rng):
        self.rng = rng
        pairs = [e for e in itertools.combinations(range(NODES), 2) if 2 <= e[0] <= 5 < e[1] or 2 <= e[0] < e[1] <= 5 and rng.random() < 0.8]
        keep = [e for e in pairs if e[1] < 6] + [e for e in pairs if e[1] > 5 and rng.random() < 0.5]
        for k in range(2, NODES):                    # every node has an edge
            if not any(k in e for e in keep):
                keep.append(rng.choice([e for e in pairs if k in e] or [(2, k) if k > 2 else (2, 3)]))
        keep += [(0, 6), (1, 7)]
        rng.shuffle(keep)
        self.edges = [e if rng.random() < 0.5 else e[::-1] for e in keep]
        self.real = [e for e in self.edges if min(e) > 1]
        self.W = {e: -1 if rng.random() < 0.35 else rng.choice((0.5, 2, 3.25)) for e in self.edges}
        self.P = {k: rng.randrange(2) for k in range(2, 6)}
        self.erased = [e for e in self.real if self.W[e] == -1]

    def state(self, *what):
        """A support table."""
        return {e: self.rng.choice(what) for e in self.real}

    def values(self, it, t, X=None, Y=None):
        """The value of t, and the numbers of the nodes."""
        n = [freeze(x) for x in nint(it, P=self.P).ev(t.a[0], {})]
        key = lambda e: frozenset(n[i] for i in e)
        if isinstance(X, dict):
            X = {key(e): v for e, v in X.items()}
        elif X is not None:
            X, Y = (tuple(n[i] for i in e) for e in (X, Y))
        r = nint(it, P=self.P, W={key(e): w for e, w in self.W.items()}, Q={key(e): ("q",) + tuple(sorted(e)) for e in self.edges},
                 E=[tuple(n[i] for i in e) for e in self.edges], X=X, Y=Y)
        return (r.ev(t, {})[1:], {x: i for i, x in enumerate(n)}, n)


def nint(it, **syms):
    return Nint(it, {"?" + k: v for k, v in syms.items()}, cell=lambda typ, a, k: None)


def samples(ctx, key):
    for s in range(80 if ctx.tier == "quick" else 800):
        yield Sample(random.Random("%s%d" % (key, s)))


def components(nodes, edges):
    out = []
    left = set(nodes)
    while left:
        todo = [left.pop()]
        c = set(todo)
        while todo:
            x = todo.pop()
            for a, b in edges:
                for y in ((b,) if a == x else (a,) if b == x else ()):
                    if y not in c:
                        c.add(y)
                        todo.append(y)
        left -= c
        out.append(frozenset(c))
    return out


# ------------------------------------------------------------------ merging
def merging(ctx):
    it = ctx.interp()
    t = it.lib.val(snippet(it, UNION, it.get(U + "Node"), it.get(U + "Root"), it.get(A + "union"), *[S("?" + x) for x in "s1 p1 h1 s2 p2 h2".split()]))
    for s1, s2, p1, p2, h1, h2 in itertools.product((1, 2, 5), (1, 2, 7), (0, 1), (0, 1), (False, True), (False, True)):
        def check():
            v = nint(it, s1=s1, s2=s2, p1=p1, p2=p2, h1=h1, h2=h2).ev(t, {})
            size, par, bd, z0, z1, tp, lp, ch, hc, a, b, no, tn = v
            top = a if s1 >= s2 else b
            what = "of clusters of sizes %d and %d, parities %d and %d, boundary %s and %s" % (s1, s2, p1, p2, h1, h2)
            if size != s1 + s2:
                return "the merger %s has size %r" % (what, size)
            if int(par) != p1 ^ p2:
                return "the merger %s has parity %r" % (what, par)
            if bool(bd) != (h1 or h2) or bd and bd not in [x for x, h in ((a, h1), (b, h2)) if h]:
                return "the merger %s %s" % (what, "has the wrong boundary point" if bd else "loses its boundary point")
            if not (z0 and z1):
                return "the merger %s does not report the node above and the node below" % what
            if not (tp and lp and ch and not hc and tn):
                return "the merger %s does not hang the smaller cluster below the larger" % what
            if no is not None:
                return "merging a cluster with itself reports a merger"
        decide(ctx, "merge", ALG + "union", check, "on sample clusters", undef=True)


# ------------------------------------------------------------ initial clusters
def initial(ctx):
    it, t = prepare(ctx, INIT, fun="initialize_cluster_trees")
    for g in samples(ctx, "init"):
        def check():
            (trees, odd, ids, nodes), place, n = g.values(it, t)
            owner = {freeze(v): place[freeze(k)] for k, v in nodes}
            if sorted(owner.values()) != list(range(2, NODES)) or any(freeze(a) != freeze(b) for a, b in ids):
                return "the nodes are not those of the stabilizers and boundary points"
            comp = components(range(2, NODES), g.erased)
            parity = lambda c: sum(g.P[k] for k in c if k in g.P) % 2
            hit = {}
            what = lambda c: "the cluster of %s with erased edges %s and odd stabilizers %s" % (sorted(c), sorted(g.erased), [k for k in g.P if g.P[k]])
            for par, size, bd, node, own in trees:
                c = next(c for c in comp if owner[freeze(node)] in c)
                if c in hit:
                    return "%s is given twice" % what(c)
                hit[c] = freeze(node)
                if par != parity(c):
                    return "%s has parity %r" % (what(c), par)
                if size != len(c):
                    return "%s has size %r" % (what(c), size)
                if (bd is not None) != bool(c & {6, 7}) or bd is not None and owner.get(freeze(bd)) not in c & {6, 7}:
                    return "%s %s" % (what(c), "has the wrong boundary point" if bd is not None else "has no boundary point")
                if not all(own):
                    return "the root of %s does not lead to it" % what(c)
            for c in comp:
                if c not in hit:
                    return "%s is missing" % what(c)
            want = {hit[c] for c in comp if parity(c)}
            free = {hit[c] for c in comp if parity(c) and not c & {6, 7}}
            got = [freeze(x) for x, _ in odd]
            if len(got) != len(set(got)) or not free <= set(got) <= want:
                return "the clusters to grow are not those of odd parity, with erased edges %s and odd stabilizers %s" % (sorted(g.erased), [k for k in g.P if g.P[k]])
        decide(ctx, "clusters", ALG + "initialize_cluster_trees", check, "on sample graphs", undef=True)


# ------------------------------------------------------------- support table
def support(ctx):
    it, t = prepare(ctx, SUPPORT, cls="Support")
    for g in samples(ctx, "support"):
        e, z = g.rng.sample(g.real, 2)
        z = z[::-1] if g.rng.random() < 0.5 else z
        once = []

        def value():
            if not once:
                (first, got, last), place, n = g.values(it, t, X=e, Y=z)
                key = lambda k: tuple(sorted(place[x] for x in k))
                once.append(({key(k): v for k, v in first.items()}, [x and tuple(place[freeze(y)] for y in x) for x in got], {key(k): v for k, v in last.items()}))
            return once[0]
        start = {tuple(sorted(x)): "grown" if g.W[x] == -1 else "empty" for x in g.real}

        def begin():
            first = value()[0]
            if first != start:
                bad = sorted(set(first) ^ set(start)) or [k for k in start if first[k] != start[k]]
                return "the support of the edge %s is %r when its weight is %s" % (bad[0], first.get(bad[0]), g.W.get(bad[0], g.W.get(bad[0][::-1])))

        def grow():
            first, got, last = value()
            now, out = dict(start), []
            for x in (e, z, e, z, e):
                k = tuple(sorted(x))
                out.append(k if now[k] == "half-grown" else None)
                now[k] = "half-grown" if now[k] == "empty" else "grown"
            if last != now:
                bad = next(k for k in now if last.get(k) != now[k])
                return "an edge (%s at first) is %s after growing %d times" % (start[bad], last.get(bad), 3 if bad == tuple(sorted(e)) else 2)
            if [x and tuple(sorted(x)) for x in got] != out:
                return "growing reports %r in turn for edges at first %s and %s, instead of %r" % (got, start[tuple(sorted(e))], start[tuple(sorted(z))], out)
        decide(ctx, "support", CLS + "Support.__init__", begin, "on sample weights", undef=True)
        decide(ctx, "support", CLS + "Support.grow", grow, "on sample weights", undef=True)


# --------------------------------------------------------------------- prune
def prune(ctx):
    it, t = prepare(ctx, PRUNE, cls="Boundary", aux="Node")
    for g in samples(ctx, "prune"):
        X = g.state("empty", "half-grown", "grown", "grown", "grown", "grown")
        Y = tuple(g.rng.sample(range(2, NODES), g.rng.randrange(1, 6)))

        def check():
            (nodes, N), place, n = g.values(it, t, X=X, Y=Y)
            N = list(map(freeze, N))
            got = sorted(N.index(freeze(x)) for x in nodes)
            want = sorted(i for i in Y if any(i in e and X[e] != "grown" for e in g.real))
            if got != want:
                return "of the nodes %s, %s are kept on the boundary instead of %s when the edges %s are grown" % (sorted(Y), got, want, [e for e in g.real if X[e] == "grown"])
        decide(ctx, "prune", CLS + "Boundary.prune", check, "on sample support tables", undef=True)


# ------------------------------------------------------------ spanning forest
def forest(ctx):
    it, t = prepare(ctx, FOREST, fun="obtain_spanning_forest", cls="Support")
    for g in samples(ctx, "forest"):
        X = g.state("empty", "half-grown", "grown", "grown")
        grown = [tuple(sorted(e)) for e in g.real if X[e] == "grown"]
        for c in components(range(2, NODES), grown):           # growth ends with clusters that are even or on the boundary
            if not c & {6, 7} and sum(g.P[k] for k in c) % 2:
                g.P[min(c)] ^= 1
        once = []

        def value():
            if not once:
                (F, par), place, n = g.values(it, t, X=X)
                once.append((F, par, place))
            return once[0]

        def edges():
            F, par, place = value()
            if not isinstance(F, Graph):
                raise Unsup("spanning forest")
            got = [tuple(sorted((place[u], place[v]))) for u, v in F.par]
            if not set(got) <= set(grown):
                return "the spanning forest has edges that are not grown: %s" % sorted(set(got) - set(grown))
            want = components(range(2, NODES), grown)
            if set(components(range(2, NODES), got)) != set(want):
                return "the spanning forest of the edges %s has only the edges %s" % (grown, sorted(got))
            if len(got) != NODES - 2 - len(want):
                return "the spanning forest of the edges %s has cycles" % grown
            for u, v in F.par:
                e = tuple(sorted((place[u], place[v])))
                lab = F.pay.get(frozenset((u, v)))
                if not isinstance(lab, dict) or lab.get("common_vertex") != ("q",) + e:
                    return "the edge %s of the spanning forest carries %r" % (e, lab)

        def parity():
            F, par, place = value()
            if not isinstance(par, dict):
                raise Unsup("parities")
            val = {}
            for k, v in par.items():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == "rxi":
                    val[place[k[1]]] = v
            for c in components(range(2, NODES), grown):
                if len(c) == 1:
                    continue
                what = "in the tree %s with odd stabilizers %s" % (sorted(c), [k for k in c if g.P.get(k)])
                for k in sorted(c & set(g.P)):
                    if val.get(k) != g.P[k]:
                        return "the stabilizer %d has parity %r %s" % (k, val.get(k), what)
                odd = sum(g.P[k] for k in c & set(g.P)) % 2
                if c & {6, 7}:
                    x = [val.get(k) for k in sorted(c & {6, 7})]
                    if None in x or sum(x) != odd:
                        return "the boundary points have parities %r %s" % (x, what)
        decide(ctx, "forest", ALG + "obtain_spanning_forest", edges, "on sample support tables", undef=True)
        decide(ctx, "parities", ALG + "obtain_spanning_forest", parity, "on sample support tables", undef=True)

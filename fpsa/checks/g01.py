"""Histories of an EGraph through its public methods (index, adjacency, add qubit, remove qubit, in several orders and
with every kind of argument, rejected calls included), interpreted symbolically; nodes, edges, index maps, adjacency
matrices and the macronode map after every step are compared with a reference model of the graph at that step."""
from ..scen import *
from ..terms import *
from ..forms import *
from ..interp import Frame
from ..noisekit import GRAPH

RULE = "after every step the index maps are inverse bijections onto the nodes, the adjacency rows follow them, and macronodes partition the qubits"
ASSUMPTIONS = ["networkx graph containers and array conversions behave as documented",
               "equality of forms is tested at sample graphs and arguments (random interpretation)"]
FN = "flamingpy/codes/graphs/egraph.py:EGraph<%s>"

HIST = '''
def f(G, x, y, a, b, i, j, r, k, z):
    def snap(G, fmt):
        adj = None
        if fmt is not None:
            adj = G.adj_generator(sparse=fmt)
        i = None
        if G.to_indices is not None:
            i = dict(G.to_indices)
        p = None
        if G.to_points is not None:
            p = dict(G.to_points)
        m = None
        if G.macro_to_micro is not None:
            m = {k: list(v) for k, v in G.macro_to_micro.items()}
        return (list(G.nodes), list(G.edges), i, p, adj, m)

%s
    return (%s)
'''
MACRO = '''
def f(cls, N, E, D):
    g = cls()
    g.add_nodes_from(N)
    for u, v, w in E:
        g.add_edge(u, v, weight=w)
    g.graph["macro_dict"] = D
    return cls(g, macronodes=True)
'''
ADDS = {"point": "G.add_qubit(x, [a, b])", "ints": "G.add_qubit(x, [i, j])", "bare": "G.add_qubit(x)", "empty": "G.add_qubit(x, [])",
        "auto": "G.add_qubit(None, [a])", "kw": "G.add_qubit(qubit=x, neighbors=[a])", "self": "G.add_qubit()"}
RMS = {"point": "G.remove_qubit(r)", "int": "G.remove_qubit(k)"}
BAD = {"present": "G.add_qubit(r, [a])", "pair": "G.add_qubit((3, 4), [a])", "type": "G.add_qubit('x', [a])", "neighbour": "G.add_qubit(x, [a, y])",
       "neighbour-type": "G.add_qubit(x, ['a'])", "macro": "G.add_qubit(x, [a], add_to_macronode=True)", "remove-type": "G.remove_qubit('x')",
       "macro-neighbour": "G.add_qubit(x, [a, y], add_to_macronode=True)", "unindexed": "G.remove_qubit(k)"}
MUST = ("present", "macro")                                # refusals that cannot be left to the libraries
IDX = "G.index_generator()"
SN = "= snap(G, %s)"


def script(*steps):
    out, n = [], 0
    for x in steps:
        if x.startswith("="):
            x, n = "s%d %s" % (n, x), n + 1
        out.append("    " + x)
    return HIST % ("\n".join(out), "".join("s%d, " % i for i in range(n)))


def histories():
    for n, add in ADDS.items():
        yield "index,add:%s" % n, [IDX, SN % None, add, SN % False]
    yield "adj,add,adj", [SN % False, ADDS["point"], SN % False]
    yield "adj,add,adj-sparse", [SN % True, ADDS["point"], SN % True]
    yield "add,adj", [ADDS["point"], SN % None, SN % False]
    yield "add-ints,adj", [ADDS["ints"], SN % None, SN % False]
    yield "formats", [SN % True, SN % False, SN % True, SN % True]
    for n, rm in RMS.items():
        yield "adj,remove:%s" % n, [SN % False, rm, SN % None, SN % False]
        yield "adj,remove:%s,adj-sparse" % n, [SN % True, rm, SN % True]
        yield "index,remove:%s,add" % n, [IDX, SN % None, rm, SN % None, ADDS["bare"], SN % False]
        yield "index,remove:%s,add-ints" % n, [IDX, SN % None, rm, "G.add_qubit(x, [j])", SN % None, "G.add_qubit(y, [j])", SN % True]
        yield "index,remove:%s,index" % n, [IDX, SN % None, rm, IDX, SN % None, SN % False]
    yield "remove,adj", [RMS["point"], SN % None, SN % False]
    yield "remove,add,adj", [RMS["point"], ADDS["bare"], SN % True]
    yield "add,add,remove,adj", [SN % False, ADDS["bare"], SN % None, "G.add_qubit(y, [x])", SN % None, RMS["int"], SN % False]
    yield "add,remove-it,add,adj", [IDX, ADDS["point"], SN % None, "G.remove_qubit(x)", SN % None, "G.add_qubit(y, [i])", SN % False]


def macro_histories():
    yield "macro,index", [IDX, SN % None, SN % False]
    yield "macro,add", [IDX, SN % None, "G.add_qubit(x, [a], add_to_macronode=True)", SN % False]
    yield "macro,add,index", ["G.add_qubit(x, [a], add_to_macronode=True)", SN % None, SN % False]
    yield "macro,add,add", [SN % True, "G.add_qubit(x, [i], add_to_macronode=True)", SN % None, "G.add_qubit(y, [x], add_to_macronode=True)", SN % True]
    for n, rm in RMS.items():
        yield "macro,remove:%s" % n, [SN % False, rm, SN % None, SN % False]
    yield "macro,remove,adj", [RMS["point"], SN % None, SN % False]
    yield "macro,empty", [IDX, RMS["point"], "G.remove_qubit(z)", SN % None, "G.add_qubit(z, add_to_macronode=True)", SN % False]


N0 = [(1, 0, 2), (0, 0, 0), (3, 1, 0), (0, 2, 1), (0, 1, 5)]
E0 = [((1, 0, 2), (0, 0, 0), 1), ((0, 0, 0), (3, 1, 0), -1), ((0, 2, 1), (1, 0, 2), 1), ((0, 1, 5), (0, 2, 1), 1)]
MD = {(1, 0, 2): [(1.1, 0, 2), (0.9, 0, 2)], (0, 0, 0): [(0.1, 0, 0), (0, 0.1, 0), (-0.1, 0, 0)], (0, 2, 1): [(0, 2.1, 1)]}
NM = [(1.1, 0, 2), (0.1, 0, 0), (0, 2.1, 1), (0, 0.1, 0), (0.9, 0, 2), (-0.1, 0, 0)]
EM = [((0.9, 0, 2), (0.1, 0, 0), 1), ((0, 0.1, 0), (0, 2.1, 1), -1)]
SYM = lambda n: mk("tuple", *[S("?%s%d" % (n, q), "num") for q in range(3)])


def samples(h):
    new = [(2, 2, 2), (0, 1, 0)]
    last = 6 if "add,add" in h else 4
    for q, r in enumerate([(0, 0, 0), (3, 1, 0), (0, 1, 5)]):
        pts = {"x": new[q % 2], "y": (7, 0, 1), "a": (0, 2, 1), "b": (1, 0, 2), "r": r, "z": (7, 7, 7)}
        yield vals(pts, N0, E0, {"?i": 2, "?j": 3, "?k": [0, last, 2][q]})


def macro_samples(h):
    for q, r in enumerate([(1.1, 0, 2), (-0.1, 0, 0), (0.9, 0, 2)]):
        pts = {"x": [(0, 1.9, 1), (4, 0.9, 0), (0, 0, 0.1)][q], "y": (7.1, 0, 1), "a": (0, 2.1, 1), "b": (1.1, 0, 2), "r": r,
               "z": [(0.9, 0, 2), (0, 2.1, 1), (1.1, 0, 2)][q]}
        yield vals(pts, NM, EM, {"?i": 1, "?j": 3, "?k": [0, 3, 5][q]})


def vals(pts, N, E, ints):
    d = {"?%s%d" % (n, c): v[c] for n, v in pts.items() for c in range(3)}
    return dict(d, **ints, **{"?N": N, "?E": E, "pts": pts})


class Model:
    """Reference: what each public step does to nodes, edges, index maps and macronodes."""
    def __init__(self, sy, macro=None):
        self.nodes, self.w = list(sy["?N"]), {frozenset((u, v)): w for u, v, w in sy["?E"]}
        self.ind = None
        self.macro = None if macro is None else {k: list(v) for k, v in macro.items()}
        self.out = []

    def index_generator(self):
        if self.ind is None:
            order = sorted(self.nodes) if self.macro is None else [p for k in sorted(self.macro) for p in self.macro[k]]
            self.ind = {p: i for i, p in enumerate(order)}

    def add_qubit(self, qubit=None, neighbors=None, add_to_macronode=None):
        if qubit is None:
            qubit = (max(p[0] for p in self.nodes) + 1, 0, 0)
        if not isinstance(qubit, tuple) or len(qubit) != 3 or qubit in self.nodes or add_to_macronode and self.macro is None:
            raise ValueError
        if neighbors and isinstance(neighbors[0], int):
            self.index_generator()
            back = {i: p for p, i in self.ind.items()}
            neighbors = [back[i] for i in neighbors]
        for n in neighbors or ():
            if n not in self.nodes:
                raise ValueError
        self.nodes.append(qubit)
        for n in neighbors or ():
            self.w[frozenset((n, qubit))] = 1
        if self.ind is not None:
            self.ind[qubit] = None
        if add_to_macronode:
            self.macro.setdefault(tuple(round(c) for c in qubit), []).append(qubit)

    def remove_qubit(self, q):
        if isinstance(q, int):
            q = {i: p for p, i in self.ind.items()}[q]
        self.nodes.remove(q)
        self.w = {e: w for e, w in self.w.items() if q not in e}
        if self.ind is not None:
            del self.ind[q]
        if self.macro is not None:
            self.macro = {k: [p for p in v if p != q] for k, v in self.macro.items()}
            self.macro = {k: v for k, v in self.macro.items() if v}

    def adj_generator(self, sparse):
        self.index_generator()


def follow(sy, steps, got, macro):
    """The reference state at every look; fresh indices are taken over from the analysed maps (any unused number will do)."""
    G, out = Model(sy, macro), []

    def snap(_, fmt):
        if fmt is not None:
            G.index_generator()
        g = got(len(out))
        if G.ind is not None and g is not None:
            for p, i in list(G.ind.items()):
                if i is None:
                    G.ind[p] = g.get(p)
        out.append((list(G.nodes), dict(G.w), None if G.ind is None else dict(G.ind), None if G.macro is None else {k: list(v) for k, v in G.macro.items()}))
    env = dict(sy["pts"], G=G, snap=snap, i=sy["?i"], j=sy["?j"], k=sy["?k"])
    ns = {}
    src = "def f(G, snap, %s):\n%s\n" % (", ".join(k for k in env if k not in ("G", "snap")),
                                         "\n".join("    " + (x[2:] if x[0] == "=" else x) for x in steps))
    exec(src, ns)                                          # the reference model only: no code of the project runs
    ns["f"](**env)
    return out


def run(ctx):
    for h, steps in histories():
        ctx.scenario(h, plain, ctx, h, steps, None)
    for h, steps in macro_histories():
        ctx.scenario(h, plain, ctx, h, steps, MD)
    for n, bad in BAD.items():
        for pre in ([], [IDX], [SN % False]):
            if n == "unindexed" and pre:
                continue
            h = "rejected:%s%s" % (n, ",indexed" if pre == [IDX] else ",adj" if pre else "")
            ctx.scenario(h, refused, ctx, h, n, pre, bad)


def args(it):
    return [SYM("x"), SYM("y"), SYM("a"), SYM("b"), S("?i", "int"), S("?j", "int"), SYM("r"), S("?k", "int"), SYM("z")]


def start(it, macro):
    if macro is None:
        return snippet(it, GRAPH, it.get(EG), S("?N"), S("?E"), NONE)
    D = snippet(it, "def f():\n    return %r\n" % macro)
    return snippet(it, MACRO, it.get(EG), S("?N"), S("?E"), D)


def look(it, t):
    return dict(zip(("nodes", "edges", "ind", "pts", "adj", "macro"), [it.lib.val(z) for z in it.lib.exact_items(it.lib.val(t))]))


def refused(ctx, h, n, pre, bad):
    """Every way out of a refused call by an exception leaves the graph as it was (index maps may have been generated)."""
    macro = MD if n.startswith("macro-") else None
    it = ctx.interp()
    it.gversions = True
    G = start(it, macro)
    if pre:
        snippet(it, script(*pre), G, *args(it))
    fr = Frame(fn=None, name="scenario", module="", rets=[], conts=[], breaks=[], raises=[], closure=None, eguard=(), clsctx=None, globs=set(), nonlocals=set())
    it.frames.append(fr)
    try:
        snippet(it, script(bad), G, *args(it))
    finally:
        it.frames.pop()
    outs = []
    for name, guard, st in fr.raises:
        it.st = st.fork()
        it.st.dead, it.st.deadkind, it.st.loops, it.st.guard = False, None, (), ()
        outs.append((name, guard, st.loops, look(it, it.lib.exact_items(it.lib.val(snippet(it, script(SN % None), G, *args(it))))[0]),
                     look(it, it.lib.exact_items(it.lib.val(snippet(it, script(SN % False), G, *args(it))))[0]), it.st))
    where = FN % h
    for sy in (macro_samples if macro else samples)(h):
        hit = []

        def which():
            for o in outs:
                it.st = o[5]
                f = Form(it, sy)
                if any(f.r.truthy(f.r.ev(mk("and", *o[1]) if o[1] else TRUE, e)) for e in f.r.bind(o[2], {})):
                    hit.append((o, f))
                    return None
            if n in MUST:
                return "the call is not refused"
            raise Unsup("no explicit refusal")
        if not decide(ctx, "refusal", where, which, "for <%s>" % bad):
            continue
        o, f = hit[0]
        w = {frozenset((u, v)): x for u, v, x in sy["?E"]}
        for P, fmt in ((o[3], SN % None), (o[4], SN % False)):
            ind = [None]

            def know():
                ind[0] = f.r.ev(P["ind"], {})
            if not decide(ctx, "reference", where, know, ""):
                continue
            rind = None
            if pre or ind[0] is not None:
                order = [q for k in sorted(macro) for q in macro[k]] if macro else sorted(sy["?N"])
                rind = {q: i for i, q in enumerate(order)}
            one(ctx, f, P, (list(sy["?N"]), w, rind, macro), where, "after the refused call <%s>" % bad, fmt, ind[0])


def plain(ctx, h, steps, macro):
    it = ctx.interp()
    it.gversions = True
    G = start(it, macro)
    r = it.lib.val(snippet(it, script(*steps), G, *args(it)))
    looks = [look(it, t) for t in it.lib.exact_items(r)]
    fmts = [x for x in steps if x[0] == "="]
    for sy in (macro_samples if macro else samples)(h):
        f = Form(it, sy)
        memo = {}

        def got(n):
            if n not in memo:
                memo[n] = f.r.ev(looks[n]["ind"], {})
            return memo[n]
        at = "after look %d of %s"
        name = "; ".join(" ".join(x.split()) for x in steps if x[0] != "=")
        ref = []

        def know():
            ref.extend(follow(sy, steps, got, macro))
        if not decide(ctx, "reference", FN % h, know, "the history can be followed"):
            continue
        for n, P in enumerate(looks):
            one(ctx, f, P, ref[n], FN % h, "after look %d of the history <%s>" % (n, name), fmts[n], got(n))


def one(ctx, f, P, ref, where, at, fmt, ind):
    get = lambda k: f.r.ev(P[k], {})
    nodes, w, rind, rmac = ref

    def structure():
        g = [tuple(p) for p in get("nodes")]
        return setdiff(g, nodes, "qubit") or (None if len(set(g)) == len(g) else "a qubit is listed twice") or \
            setdiff([frozenset(e) for e in get("edges")], w, "edge")

    def maps():
        pts = get("pts")
        if (ind is None) != (pts is None):
            return "only one of the index maps exists"
        if ind is None:
            return None if rind is None else "the indices are gone"
        if set(ind) != set(nodes):
            return setdiff(ind, nodes, "indexed qubit")
        if {v: k for k, v in ind.items()} != dict(pts) or len(pts) != len(ind):
            return "the maps are not inverse to each other: %r / %r" % (ind, pts)
        if rind is not None:
            ch = [p for p in nodes if rind[p] != ind[p]]
            if ch:
                return "index %r of %r, expected %r" % (ind[ch[0]], ch[0], rind[ch[0]])

    def adj():
        try:
            a = get("adj")
        except Undef as e:
            if str(e).startswith("key "):
                return "building the matrix looks up an index that does not exist (%s)" % e
            raise
        if isinstance(a, Sparse) != (fmt == SN % True):
            return "a %s matrix was returned" % ("sparse" if isinstance(a, Sparse) else "dense")
        order = sorted(nodes, key=lambda q: ind[q])
        want = tuple(tuple(w.get(frozenset((u, v)), 0) if u != v else 0 for v in order) for u in order)
        got = tuple(tuple(int(z) for z in row) for row in a)
        if got != want:
            return "rows %r, expected %r" % (got, want)

    def macronodes():
        m = get("macro")
        if m is None or rmac is None:
            return None if m is rmac else "the macronode map %s" % ("is gone" if m is None else "appeared")
        a, b = [{k: sorted(v) for k, v in d.items()} for d in (m, rmac)]
        if a != b:
            return "macronodes %r, expected %r" % (a, b)
    decide(ctx, "structure", where, structure, at)
    decide(ctx, "maps", where, maps, at)
    if P["adj"] is not NONE:
        decide(ctx, "adjacency", where, adj, at)
    decide(ctx, "macronodes", where, macronodes, at)

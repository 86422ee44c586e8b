"""Macronized graphs as forms over a symbolic graph, compared with the conversion rule mode by mode."""
import math
import random

from ..scen import *
from ..terms import *
from ..forms import *
from ..nint import *

RULE = ("every edge becomes one edge between two new modes next to its endpoints, displaced along it (against it for periodic edges); macronodes partition the modes, "
        "round to their vertex and hold four modes when padded; attributes, perfect points and the index order carry over")
ASSUMPTIONS = ["networkx graph containers behave as documented", "no vertex has two edges in the same direction",
               "equality of forms is tested at sample graphs (random interpretation); positions agree up to the rounding of the displacement"]
FN = "flamingpy/codes/graphs/egraph.py:macronize[%s]"
SRC = '''
def f(cls, N, E, P, x, u, v%s):
    g = cls()
    for n, a in N:
        g.add_node(n, label=a)
    for p, q, w, per in E:
        if per:
            g.add_edge(p, q, weight=w, periodic=True)
        else:
            g.add_edge(p, q, weight=w)
%s    g.graph["kind"] = 3
    m = %s
    return (list(m.nodes), list(m.edges), %s, m.graph.get("perfect_points"), m.nodes[x]["label"], m.graph.get("kind"), m.edges[(u, v)]["weight"],
            %s, list(g.nodes), list(g.edges), g.graph.get("perfect_points"))
'''
PERF = '    g.graph["perfect_points"] = P\n'
WAYS = {"method": "g.macronize()", "method,pad": "g.macronize(True)", "method,pad=": "g.macronize(pad_boundary=pad)", "method,pad,disp": "g.macronize(True, disp)",
        "method,disp=": "g.macronize(disp=disp)"}
N_, E_, P_, x_, u_, v_, pad_, disp_ = (S("?" + x) for x in ("N", "E", "P", "x", "u", "v", "pad", "disp"))
NAMES = ("nodes", "edges", "macro", "perfect", "label", "kind", "weight", "index", "orig nodes", "orig edges", "orig perfect")


def run(ctx):
    for name, call in WAYS.items():
        for perfect in (True, False):
            ctx.scenario("%s,perfect=%s" % (name, perfect), one, ctx, name, call, perfect, True)
    ctx.scenario("function", one, ctx, "function", "fun(g, pad, disp)", True, False)


def sample(rng, s):
    """A graph in which no two edges leave a vertex in the same direction."""
    cap = 6 if s % 3 == 1 else 4
    while True:
        box = [(x, y, z) for x in range(0, 7, 2) for y in range(0, 7, 2) for z in range(0, 7, 2)]
        N, E, used = [(4, 4, 4) if cap == 6 else rng.choice(box)], [], {}
        while len(N) < 7:
            a = N[0] if cap == 6 and rng.random() < 0.9 else rng.choice(N)
            step = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (0, -1, 1), (2, 0, 0), (0, 0, 3), (-1, 1, 1)])
            b = tuple(p + q for p, q in zip(a, step))
            if min(b) < 0 or b in N:
                continue
            per = rng.random() < 0.35
            keys = [(a, unit(a, b, per)), (b, unit(b, a, per))]
            if any(used.get(k) for k in keys) or any(sum(1 for c, _ in used if c == v) >= cap for v in (a, b)):
                continue
            used.update({k: True for k in keys})
            N.append(b)
            E.append((a, b, rng.choice((1, -1, 1)), per))
        rng.shuffle(N)
        E = [(q, p, w, f) if rng.random() < 0.5 else (p, q, w, f) for p, q, w, f in E]
        rng.shuffle(E)
        return [(n, i + 10) for i, n in enumerate(N)], E


def unit(a, b, per):
    d = math.dist(a, b)
    return tuple(round((-1 if per else 1) * (y - x) / d, 6) for x, y in zip(a, b))


def one(ctx, name, call, perfect, method):
    it = ctx.interp()
    src = SRC % (", pad, disp" + ("" if method else ", fun"), PERF if perfect else "", call, "m.macro_to_micro" if method else 'm.graph["macro_dict"]',
                 "m.index_generator()" if method else "None")
    a = [it.get("flamingpy.codes.graphs.egraph:EGraph"), N_, E_, P_, x_, u_, v_, pad_, disp_] + ([] if method else [it.get("flamingpy.codes.graphs.egraph:macronize")])
    t = dict(zip(NAMES, it.lib.val(snippet(it, src, *a)).a))
    where = FN % (name + (",perfect" if perfect else ""))
    for s in range(3 if ctx.tier == "quick" else 15):
        rng = random.Random("%s%d" % (name, s))
        N, E = sample(rng, s)
        P = tuple(rng.sample([n for n, _ in N], 2))
        pad = "pad" in name and (name != "method,pad=" or s % 3 != 2) or name == "function" and s % 2 == 0
        disp = rng.choice((0.1, 0.05, 0.2, 0.4, 0.004, 0.0008)) if "disp" in name or name == "function" else 0.1
        env = {N_: tuple(N), E_: tuple(E), P_: P, pad_: pad, disp_: disp}
        c = Case(it, t, env, N, E, P if perfect else (), pad, disp)
        for rule, fn in (("macronodes", c.macronodes), ("modes", c.modes), ("edges", c.edges), ("attributes", c.attributes), ("perfect-modes", c.perfect),
                         ("original", c.original)) + ((("index-order", c.index),) if method else ()):
            decide(ctx, rule, where, fn, "on a sample graph", undef=True)


def near(p, q, tol):
    return len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q))


class Case:
    def __init__(self, it, t, env, N, E, P, pad, disp):
        self.t, self.env, self.N, self.E, self.P, self.pad, self.disp = t, env, N, E, P, pad, disp
        self.r = Nint(it, {}, cell=lambda typ, a, k: None)
        self.r.norm = lambda k: tuple(sorted(k, key=repr)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) else k
        self.label = dict(N)
        self.deg = {n: [] for n, _ in N}
        for a, b, w, per in E:
            self.deg[a].append((b, w, per))
            self.deg[b].append((a, w, per))

    def ev(self, name, **k):
        return self.r.ev(self.t[name], {**self.env, **{S("?" + q): v for q, v in k.items()}})

    def macro(self):
        m = self.ev("macro")
        if not isinstance(m, dict):
            raise Unsup("macronode map")
        return {freeze(k): [freeze(x) for x in v] for k, v in m.items()}

    def at(self, a, b, per, m):
        """The modes of macronode a that lie next to it towards b."""
        d = math.dist(a, b)
        p = tuple(x + (-1 if per else 1) * self.disp * (y - x) / d for x, y in zip(a, b))
        return [x for x in m.get(a, ()) if near(x, p, 0.1 * self.disp)]

    def macronodes(self):
        m = self.macro()
        if set(m) != set(self.deg):
            return setdiff(list(m), list(self.deg), "macronode")
        for v, ms in m.items():
            n = max(4, len(self.deg[v])) if self.pad else len(self.deg[v])
            if len(set(ms)) != len(ms):
                return "the macronode %r lists a mode twice" % (v,)
            if len(ms) != n:
                return "the macronode %r of a vertex with %d edges has %d modes instead of %d" % (v, len(self.deg[v]), len(ms), n)
            for x in ms:
                if tuple(round(y) for y in x) != v:
                    return "the mode %r of the macronode %r rounds to another vertex" % (x, v)
            for b, w, per in self.deg[v]:
                if len(self.at(v, b, per, m)) != 1:
                    return "the macronode %r has no mode displaced %s %r by %s: %r" % (v, "away from its periodic neighbour" if per else "towards", b, self.disp, ms)
        return None

    def modes(self):
        m = self.macro()
        nodes = [freeze(x) for x in self.ev("nodes")]
        if len(set(nodes)) != len(nodes):
            return "a mode is listed twice"
        return setdiff(nodes, [x for v in m.values() for x in v], "mode")

    def edges(self):
        m = self.macro()
        want = {}
        for a, b, w, per in self.E:
            p, q = self.at(a, b, per, m), self.at(b, a, per, m)
            if len(p) != 1 or len(q) != 1:
                raise Unsup("modes of an edge")
            want[frozenset((p[0], q[0]))] = w, p[0], q[0]
        d = setdiff([frozenset(freeze(e)) for e in self.ev("edges")], list(want), "edge")
        if d:
            return d
        for w, p, q in want.values():
            got = self.ev("weight", u=p, v=q)
            if got != w:
                return "the edge between %r and %r has weight %r instead of %d" % (p, q, got, w)
        return None

    def attributes(self):
        for v, ms in self.macro().items():
            for x in ms:
                got = self.ev("label", x=x)
                if got != self.label[v]:
                    return "the mode %r carries the attribute %r instead of that of %r" % (x, got, v)
        return None if self.ev("kind") == 3 else "the graph attributes are lost"

    def perfect(self):
        got, m = self.ev("perfect"), self.macro()
        if not self.P:
            return None if not got else "a graph without perfect points has perfect modes"
        if got is None:
            return "the perfect points are lost"
        return setdiff([freeze(x) for x in got], [x for p in self.P for x in m[p]], "perfect mode")

    def original(self):
        d = setdiff([freeze(x) for x in self.ev("orig nodes")], list(self.deg), "vertex") or \
            setdiff([frozenset(freeze(e)) for e in self.ev("orig edges")], [frozenset(e[:2]) for e in self.E], "edge")
        if d:
            return "the converted graph itself changes: " + d
        if self.P and [freeze(x) for x in self.ev("orig perfect")] != list(self.P):
            return "the perfect points of the converted graph itself change"
        return None

    def index(self):
        m, ix = self.macro(), self.ev("index")
        want = [x for v in sorted(m) for x in m[v]]
        got = sorted(ix, key=lambda x: ix[x])
        if sorted(ix.values()) != list(range(len(want))):
            return "the modes are not numbered consecutively"
        return None if [freeze(x) for x in got] == want else "the modes are not numbered macronode by macronode in the order of the vertices"

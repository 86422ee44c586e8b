"""Closed-form extraction of the recovery set mwpm_decoder returns for an arbitrary matching and arbitrary paths (a
matching graph class supplied by the caller, with symbolic results), compared with the parity of path traversals."""
import random

from ..scen import *
from ..terms import *
from ..forms import *
from .l02 import lst

RULE = "the recovery set is the set of qubits on an odd number of the matched paths' edges; pairs of virtual points contribute nothing"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions, matchings and paths (random interpretation)"]
FN = "flamingpy/decoders/mwpm/algos.py:mwpm_decoder[%s, %s, %s]"
SRC = '''
def f(base, M, V, P):
    class Given(base):
        def __init__(self, ec, code=None):
            self.ec = ec
            self.virtual_points = V
        def min_weight_perfect_matching(self):
            return M
        def edge_path(self, edge):
            return P[edge]
    return Given
'''
MVP = (S("?M"), S("?V"), S("?P"))


def run(ctx):
    for (bd, ec), b in LT.BOUNDS.items():
        for be in ("networkx", "rustworkx"):
            ctx.scenario("mwpm_decoder(%s, %s, %s)" % (ec, bd, be), recovery, ctx, bd, ec, b, be)


def stabgraph(f, T, ec, bounds, dims):
    """Sample point of the stabilizer graph: node values and {frozenset(node values): qubits shared}."""
    sup = dict(LT.supports(ec, bounds, dims))
    val = {}
    for x in lst(f.r.ev(T["stabs"], {}), "stabilizers"):
        ph = lst(f.r.field(x, "physical"), "physical")
        val[tuple(sum(p[i] for p in ph) / len(ph) for i in range(3))] = x
    if set(val) != {tuple(map(float, c)) for c in sup}:
        raise Unsup("stabilizers are not the cubes of the complex")
    sv = {val[tuple(map(float, c))]: s for c, s in sup.items()}
    low, high = LT.boundary(ec, bounds, dims)
    E = {}
    for a in sv:
        for b in sv:
            if repr(a) < repr(b) and sv[a] & sv[b]:
                E[frozenset((a, b))] = sv[a] & sv[b]
        for p in low | high:
            if p in sv[a]:
                E[frozenset((a, p))] = {p}
    return sv, low, high, E


def recovery(ctx, bd, ec, bounds, be):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    cl = snippet(it, SRC, it.get("flamingpy.decoders.mwpm.matching:MatchingGraph"), *MVP)
    R = it.lib.val(call(it, "flamingpy.decoders.mwpm:mwpm_decoder", c, C(ec), cl))
    u, v = S("?u"), S("?v")
    T = {"stabs": it.lib.val(it.getattr(c, ec + "_stabilizers"))}
    lab = it.lib.val(it.getitem(meth(it, it.getattr(c, ec + "_stab_graph"), "edge_data", u, v), C("common_vertex")))
    where = FN % (ec, bd, be)
    for dims in dims_of(ctx.tier)[:2]:
        rng = random.Random("%s%s%s%s" % (bd, ec, be, dims))

        def check():
            f = Form(it, dsyms(dims), cell=lambda typ, a, k: None)
            f.r.norm = norm
            sv, low, high, E = stabgraph(f, T, ec, bounds, dims)
            adj = {}
            for e in E:
                a, b = tuple(e)
                adj.setdefault(a, []).append(b)
                adj.setdefault(b, []).append(a)
            for x in adj.values():
                x.sort(key=repr)
            stabs = sorted(sv, key=repr)
            label = {}

            def name(x, y):
                k = frozenset((x, y))
                if k not in label:
                    label[k] = freeze(f.r.ev(lab, {u: x, v: y}))
                return label[k]

            def walk(x, n):
                p = [x]
                for _ in range(n):
                    nx = [y for y in adj[p[-1]] if y in sv]
                    if not nx:
                        break
                    p.append(rng.choice(nx))
                return p
            for trial in range(12):
                M, V, P, want = [], [], {}, {}

                def use(x, y, p):
                    M.append((x, y) if rng.random() < 0.5 else (y, x))
                    P[(x, y)] = P[(y, x)] = tuple(p)
                    for i in range(len(p) - 1):
                        q = name(p[i], p[i + 1])
                        want[q] = not want.get(q, False)
                for _ in range((0, 1, 2, 3, 5)[trial % 5]):
                    p = walk(rng.choice(stabs), rng.choice((1, 1, 2, 3, 6)))
                    if len(p) > 1 and (p[0], p[-1]) not in P:
                        use(p[0], p[-1], p)
                if low:
                    for i in range(rng.choice((0, 1, 2, 3))):
                        b = rng.choice(sorted(low | high))
                        vp = (b, i)
                        V.append(vp)
                        p = [b] + walk(rng.choice([s for s in adj[b]]), rng.choice((0, 0, 1, 2, 4)))
                        use(p[-1], vp, p)
                    for i in range(rng.choice((0, 1))):
                        x, y = ((rng.choice(sorted(low)), 90 + 2 * i), (rng.choice(sorted(high)), 91 + 2 * i))
                        V += [x, y]
                        M.append((x, y))
                        P[(x, y)] = P[(y, x)] = ()
                got = f.r.ev(R, dict(zip(MVP, (tuple(M), tuple(V), P))))
                if not isinstance(got, (set, frozenset, list, tuple)):
                    raise Unsup("recovery value")
                d = setdiff([freeze(x) for x in got], [q for q, w in want.items() if w], "qubit")
                if d:
                    return "for a matching of %d pairs the recovery set has %s" % (len(M), d)
        decide(ctx, "recovery-parity", where, check, "with dimensions %s" % (dims,))


def norm(k):
    return tuple(sorted(k, key=repr)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (tuple, str)) else k

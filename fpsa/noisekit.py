"""Shared scenarios of the noise-layer checks: a CV layer over a bare graph state or a built code, applied twice."""
import random

from .scen import *
from .terms import *
from .forms import *
from .nint import *

GRAPH = '''
def f(cls, N, E, P):
    g = cls()
    g.add_nodes_from(N)
    for u, v, w in E:
        g.add_edge(u, v, weight=w)
    if P is not None:
        g.graph["perfect_points"] = P
    return g
'''
MARK = '''
def f(code, P):
    code.graph.graph["perfect_points"] = P
'''
LAYER = '''
def f(cls, code, rng, d, st, ps, inds, tr):
    lay = cls(code, delta=d%s)
%s    return lay
'''
READ = '''
def f(lay, n, inds):
    a = lay.egraph.nodes[n]
    return (a.get("state", "none"), a.get("hom_val_p", "none"), a.get("bit_val", "none"), a.get("hom_val_q", "none"),
            lay.p_inds, lay.gkp_inds, lay.hom_outcomes(inds), lay.bit_values(inds), lay.egraph.to_indices[n])
'''
NAMES = ("state", "hom_p", "bit", "hom_q", "p_inds", "gkp_inds", "outcomes", "bits", "index")
n_, d_, st_, ps_, rng_, inds_, N_, E_, P_, tr_ = (S("?" + x) for x in ("n", "d", "st", "ps", "rng", "inds", "N", "E", "P", "tr"))
OPTS = {"states": ', states={"p": st}', "p_swap": ", p_swap=ps", "none": "", "states,two-step": ', states={"p": st}, sampling_order="two-step"',
        "p_swap,two-step": ', p_swap=ps, sampling_order="two-step"', "all-p": ", p_swap=1", "no-p": ", p_swap=0",
        "states,translator": ', states={"p": st}, translator=tr', "empty-states": ", states={}",
        "p_swap,empty": ', p_swap=ps, states={"p": []}', "states,no-p": ', states={"p": st}, p_swap=0'}


class Noise:
    """Forms of a layer after one and after two applications."""
    def __init__(self, it, opt, code=None, perfect=True, times=2):
        self.it, self.code = it, code
        self.G = code if code is not None else snippet(it, GRAPH, it.get(EG), N_, E_, P_ if perfect else NONE)
        self.perfect = perfect
        if code is not None and perfect:
            snippet(it, MARK, code, P_)
        self.lay = snippet(it, LAYER % (OPTS[opt], ""), it.get(CV), self.G, rng_, d_, st_, ps_, inds_, tr_)
        self.after = []
        for _ in range(times):
            meth(it, self.lay, "apply_noise", rng_)
            r = it.lib.val(snippet(it, READ, self.lay, n_, inds_))
            self.after.append(dict(zip(NAMES, r.a)))
        if code is not None:
            g = it.getattr(code, "graph")
            self.nodes = it.lib.val(snippet(it, "def f(g):\n    return list(g.nodes)\n", g))
            self.edges = it.lib.val(snippet(it, "def f(g):\n    return list(g.edges)\n", g))
            self.measured = it.lib.val(it.getattr(code, "all_syndrome_coords"))


class Point:
    """A sample point: graph, states, options; evaluates the forms of a Noise."""
    def __init__(self, nz, seed, dims=None):
        self.nz, rng = nz, random.Random(seed)
        self.f = Form(nz.it, dsyms(dims) if dims else {}, cell=lambda typ, a, k: None)
        r = self.f.r = Nint(nz.it, dsyms(dims) if dims else {}, cell=lambda typ, a, k: None)
        r.norm = lambda k: tuple(sorted(k, key=repr)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) else k
        if nz.code is None:
            k = rng.choice((4, 5, 6, 7))
            box = [(x, y, z) for x in range(3) for y in range(3) for z in range(3)]
            self.N = rng.sample(box, k)
            pairs = [(a, b) for i, a in enumerate(self.N) for b in self.N[:i]]
            self.E = [e + (rng.choice((1, 1, -1)),) for e in rng.sample(pairs, rng.randint(2, min(len(pairs), 2 * k)))]
            self.meas = list(self.N)
        else:
            self.N = [freeze(x) for x in r.seq(nz.nodes, {})]
            self.E = [freeze(x) + (1,) for x in r.seq(nz.edges, {})]
            self.meas = [freeze(x) for x in r.seq(nz.measured, {})]
        n = len(self.N)
        self.order = sorted(self.N)
        self.idx = {x: i for i, x in enumerate(self.order)}
        self.adj = {x: [] for x in self.N}
        for a, b, w in self.E:
            self.adj[a].append((b, w))
            self.adj[b].append((a, w))
        self.P = tuple(rng.sample(self.N, rng.randint(1, 2)) if nz.code is None else rng.sample(self.meas, 3) + rng.sample(self.N, 2)) if nz.perfect else ()
        self.st = sorted(rng.sample(range(n), rng.randint(1, max(1, n // 2))))
        rng.shuffle(self.st)
        self.d = rng.choice((0.25, 0.4, 0.7, 1.5))
        self.ps = rng.choice((0.3, 0.5, 0.8))
        self.inds = rng.sample(range(n), min(n, 3))
        self.env = {d_: self.d, st_: nd(self.st), ps_: self.ps, rng_: ("rng",), inds_: nd(self.inds)}
        if nz.code is None:
            self.env.update({N_: tuple(self.N), E_: tuple(self.E)})
        self.env[P_] = self.P

    def ev(self, t, **k):
        return self.f.r.ev(t, {**self.env, **k})

    def at(self, t, n):
        return self.f.r.ev(t, {**self.env, n_: n})

    def sample(self, s):
        self.f.r.sample = s
        self.f.r.memo.clear()
        self.f.r.six.clear()


def lst(v):
    return list(nd(v).d)


def grams(forms):
    """{kind: {(i, j): sum of products of coefficients}} of a list of linear forms."""
    out = {}
    for i, a in enumerate(forms):
        for k, x in a.m.items():
            out.setdefault(k[0], {}).setdefault(k, []).append((i, x))
    g = {}
    for kind, vs in out.items():
        m = g[kind] = {}
        for ys in vs.values():
            for i, x in ys:
                for j, y in ys:
                    if i <= j:
                        m[i, j] = m.get((i, j), 0) + x * y
    return g


def lin(x):
    return x if isinstance(x, Lin) else Lin(x)


def gramdiff(got, want, names):
    """Difference in distribution of two families of linear forms over independent variables."""
    for i, (a, b) in enumerate(zip(got, want)):
        if not close(a.c, b.c):
            return "the mean of %r is %.4g, not %.4g" % (names[i], a.c, b.c)
    g, w = grams(got), grams(want)
    kinds = {"Z": "Gaussian", "U": "uniform", "B": "binary"}
    for k in sorted(set(g) | set(w)):
        a, b = g.get(k, {}), w.get(k, {})
        for ij in sorted(set(a) | set(b)):
            if not close(a.get(ij, 0), b.get(ij, 0)):
                i, j = ij
                return "the %s part of the %s of %r%s is %.4g, not %.4g" % (
                    kinds.get(k, k), "variance" if i == j else "covariance", names[i], "" if i == j else " and %r" % (names[j],), a.get(ij, 0), b.get(ij, 0))
    return None


def close(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))

"""Local-Clifford equivalence as a form over two symbolic graphs, compared with the orbits of local complementation at sample graphs."""
import itertools
import random

from ..interp import Frame
from ..scen import *
from ..terms import *
from ..forms import *
from ..nint import *

RULE = ("graph states are reported equivalent exactly when local complementations turn one into the other, and the Clifford reported is a product of "
        "one-qubit Cliffords mapping the stabiliser of the first state to that of the second, in the form asked for")
ASSUMPTIONS = ["numpy, scipy and networkx behave as documented", "edges have weight one", "equality of forms is tested at sample graphs (random interpretation)"]
FN = "flamingpy/utils/linalg.py:are_lc_equivalent[%s]"
SRC = '''
def f(cls, M, E, N, F%s):
    g, h = cls(), cls()
    for n in M:
        g.add_node(n)
    for p, q in E:
        g.add_edge(p, q)
    for n in N:
        h.add_node(n)
    for p, q in F:
        h.add_edge(p, q)
    %s
    return %s
'''
WAYS = {"method": ("", "g.is_lc_equivalent(h)"), "method,tensor": ("", 'g.is_lc_equivalent(h, "tensor")'), "method,global": ("", 'g.is_lc_equivalent(h, clifford_form="global")'),
        "function": ("", "fun(g, h)"), "function,global": ("", 'fun(g, h, "global")'),
        "sparse adjacency requested before": ("g.adj_generator()", 'g.is_lc_equivalent(h, clifford_form="tensor")')}
M_, E_, N_, F_ = (S("?" + x) for x in "MENF")
LIN = "flamingpy.utils.linalg:are_lc_equivalent"


def run(ctx):
    for name, (pre, call) in WAYS.items():
        ctx.scenario(name, one, ctx, name, pre, call)


def edges(n, a):
    return [(i, j) for i in range(n) for j in range(i) if a[i] >> j & 1]


def adj(n, es):
    a = [0] * n
    for i, j in es:
        a[i] |= 1 << j
        a[j] |= 1 << i
    return tuple(a)


def complement(a, v):
    """Local complementation at v."""
    b = list(a)
    for i in range(len(a)):
        if a[v] >> i & 1:
            b[i] ^= a[v] & ~(1 << i)
    return tuple(b)


def orbit(a):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for v in range(len(a)):
            y = complement(x, v)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def ring(n):
    return adj(n, [(i, (i + 1) % n) for i in range(n)])


def path(n):
    return adj(n, [(i, i + 1) for i in range(n - 1)])


def star(n, c=0):
    return adj(n, [(c, i) for i in range(n) if i != c])


def full(n):
    return adj(n, itertools.combinations(range(n), 2))


def permuted(a, p):
    return adj(len(a), [(p[i], p[j]) for i, j in edges(len(a), a)])


def rand(rng, n, p):
    return adj(n, [e for e in itertools.combinations(range(n), 2) if rng.random() < p])


def walk_(rng, a, k):
    for _ in range(k):
        a = complement(a, rng.randrange(len(a)))
    return a


def union(a, b):
    n = len(a)
    return a + tuple(x << n for x in b)


def pairs(name, tier):
    """Sample pairs of graphs."""
    rng = random.Random(name)
    fixed = [(star(4), full(4)), (full(4), star(4, 2)), (ring(5), ring(5)), (ring(4), path(4)), (path(4), star(4)), (star(3), (0, 0, 0)), ((0,), (0,)), ((), ()),
             (path(3), path(4)), (union(path(2), path(2)), path(4)), (union(path(2), path(2)), permuted(union(path(2), path(2)), (0, 2, 1, 3))),
             (union(path(3), path(2)), union(full(3), path(2))), (union(path(2), path(3)), union(path(2), permuted(path(3), (1, 0, 2)))), (ring(5), path(5)),
             (full(5), star(5, 3)), ((0, 0), (0, 0)), (path(2), (0, 0)), (ring(5), permuted(ring(5), (0, 2, 4, 1, 3))), (union(star(3), (0,)), union((0,), star(3))),
             (ring(6), permuted(ring(6), (0, 2, 1, 3, 4, 5))), (ring(6), ring(6)), ((), (0, 0)), ((0, 0), ())]
    k = 1 if tier != "quick" or name in ("method", "method,global") else 3
    for a, b in fixed[len(name) % k::k]:
        yield a, b
    for s in range((14, 0, 5)[k - 1] if tier == "quick" else 100):
        n = rng.choice((3, 4, 4, 5, 5, 5, 6) if tier == "quick" else (3, 4, 5, 5, 6, 6, 7))
        a = rand(rng, n, rng.choice((0.3, 0.5, 0.7)))
        k = s % 3
        b = walk_(rng, a, rng.randint(1, 6)) if k == 0 else permuted(a, rng.sample(range(n), n)) if k == 1 else rand(rng, n, 0.5)
        if k == 0 and s % 2:
            i, j = rng.sample(range(n), 2)          # one edge off
            b = adj(n, set(edges(n, b)) ^ {(max(i, j), min(i, j))})
        yield a, b


def points(rng, n):
    """The qubits of a sample graph, in the order of the rows of its adjacency matrix."""
    return sorted(rng.sample([(x, y, z) for x in range(4) for y in range(3) for z in range(3)], n))


def one(ctx, name, pre, call):
    it = ctx.interp()
    fun = "fun" in call
    a = [it.get("flamingpy.codes.graphs.egraph:EGraph"), M_, E_, N_, F_] + ([it.get(LIN)] if fun else [])
    fr = Frame(fn=None, name="scenario", module="", rets=[], conts=[], breaks=[], raises=[], closure=None, eguard=(), clsctx=None, globs=set(), nonlocals=set())
    it.frames.append(fr)
    try:
        t = it.lib.val(snippet(it, SRC % (", fun" if fun else "", pre, call), *a))
    finally:
        it.frames.pop()
    outs = [(x[0], and_(*x[1]) if x[1] else TRUE) for x in fr.raises if not x[2].loops]
    where = FN % name
    for s, (g, h) in enumerate(pairs(name, ctx.tier)):
        rng = random.Random("%s%d" % (name, s))
        env = {}
        for x, nv, ev in ((g, M_, E_), (h, N_, F_)):
            p = points(rng, len(x))
            q = [((p[i], p[j]) if rng.random() < 0.5 else (p[j], p[i])) for i, j in edges(len(x), x)]
            rng.shuffle(q)
            env[nv], env[ev] = tuple(rng.sample(p, len(p))), tuple(q)
        once = []
        val = lambda: once[0] if once else once.append(value(it, t, outs, env)) or once[0]
        decide(ctx, "verdict", where, lambda: verdict(val, g, h), "on sample graphs", undef=True)
        decide(ctx, "clifford", where, lambda: clifford(val, g, h, "global" in name), "on sample graphs", undef=True)


def value(it, t, outs, env):
    r = Nint(it, {}, cell=lambda typ, a, k: None)
    r.norm = lambda k: tuple(sorted(k, key=repr)) if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) else k
    for name, guard in outs:
        try:
            hit = r.truthy(r.ev(guard, env))
        except Unsup:
            continue
        if hit:
            raise Undef("the equivalence test raises %s" % name)
    v = r.ev(t, env)
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsup("result of the equivalence test")
    return v


def same(g, h):
    return len(g) == len(h) and len(g) > 0 and h in orbit(g)


def show(a):
    return "%d qubits, edges %s" % (len(a), sorted((j, i) for i, j in edges(len(a), a)))


def verdict(val, g, h):
    eq, c = val()
    want = same(g, h)
    if bool(eq) != want:
        return "(%s) and (%s) are reported %sequivalent" % (show(g), show(h), "" if eq else "not ")
    return None if want or c is None else "a Clifford is returned for graphs that are not equivalent"


def clifford(val, g, h, glob):
    eq, c = val()
    if not same(g, h) or not eq:
        return None
    n = len(g)
    what = "for (%s) and (%s)" % (show(g), show(h))
    if glob:
        c = nd(c)
        if c.sh != (2 * n, 2 * n):
            return "the Clifford is an array of shape %r %s" % (c.sh, what)
        m = [[ints(x) for x in r.d] for r in c.rows()]
        if any(m[i][j] for i in range(2 * n) for j in range(2 * n) if (i - j) % n):
            return "the Clifford acts on several qubits at once %s" % what
        f = [(m[k][k], m[k][k + n], m[k + n][k], m[k + n][k + n]) for k in range(n)]
    else:
        if not isinstance(c, (list, tuple)) or len(c) != n:
            return "the Clifford is not a list of %d factors %s" % (n, what)
        f = []
        for x in c:
            x = nd(x)
            if x.sh != (2, 2):
                return "a factor of the Clifford has shape %r" % (x.sh,)
            f.append(tuple(ints(y) for y in x.d))
    for k, (a, b, c_, d) in enumerate(f):
        if not {a, b, c_, d} <= {0, 1} or (a * d + b * c_) % 2 != 1:
            return "the factor %r on qubit %d is no Clifford %s" % ((a, b, c_, d), k, what)
    A = [[g[i] >> j & 1 for j in range(n)] for i in range(n)]
    H = [[h[i] >> j & 1 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            lhs = sum(H[i][k] * (f[k][2] * A[k][j] + f[k][3] * (k == j)) for k in range(n))
            if (lhs - f[i][0] * A[i][j] - f[i][1] * (i == j)) % 2:
                return "the Clifford %r does not map the first graph state to the second %s" % (f, what)
    return None


def ints(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)) and not hasattr(x, "denominator") or int(x) != x:
        raise Unsup("entry of a Clifford")
    return int(x)

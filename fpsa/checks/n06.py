"""Bit values of the independent-noise layer as functions of the draws: one fresh draw per qubit, below the error probability."""
import random

from ..noisekit import *

RULE = ("for every node of the code graph the bit value is a function of one draw that no other node and no other application uses, and the set of values of "
        "that draw with bit 1 has exactly the error probability as its measure")
ASSUMPTIONS = ["draws of the generator are independent variables of the documented distribution",
               "equality of forms is tested at sample points (random interpretation)"]
FN = "flamingpy/noise/iid.py:IidNoise.apply_noise[%s]"
ep_ = S("?ep")
NEW = "def f(cls, code, ep):\n    return cls(code, ep)\n"
SEE = '''
def f(lay, code, n):
    a = code.graph.nodes[n]
    return (a.get("bit_val", "none"), lay.error_probability)
'''
CASES = [("primal", "open", "rng"), ("dual", "open", "rng"), ("primal", "toric", "rng"), ("dual", "periodic", "rng"), ("primal", "open", "default")]


def run(ctx):
    for ec, bd, gen in CASES:
        ctx.scenario("apply_noise(%s, %s, %s generator)" % (ec, bd, "given" if gen == "rng" else "default"), layer, ctx, ec, bd, gen)


def layer(ctx, ec, bd, gen):
    it = ctx.interp()
    code = built_code(it, ec, bd)
    lay = snippet(it, NEW, it.get(IID), code, ep_)
    forms = []
    for _ in range(2):
        meth(it, lay, "apply_noise", *([rng_] if gen == "rng" else []))
        r = it.lib.val(snippet(it, SEE, lay, code, n_))
        forms.append(r.a[0])
    g = it.getattr(code, "graph")
    nodes = it.lib.val(snippet(it, "def f(g):\n    return list(g.nodes)\n", g))
    meas = it.lib.val(it.getattr(code, "all_syndrome_coords"))
    for dims in ((2, 3, 2),) if ctx.tier == "quick" else ((2, 3, 2), (3, 2, 2), (2, 3, 4)):
        seen = set()
        for i, t in enumerate(forms):
            where = FN % ("%s,%s,%s,trial%d" % (ec, bd, gen, i + 1))
            decide(ctx, "independent-bits", where, lambda: bits(it, t, nodes, meas, dims, seen), "with dimensions %s" % (dims,), undef=True)


def evaluator(it, dims, p):
    r = Nint(it, dsyms(dims), cell=lambda typ, a, k: None)
    env = {ep_: p, rng_: ("rng",)}
    r.over, r.touch = {}, set()
    return r, env


def bits(it, t, nodes, meas, dims, seen):
    r, env = evaluator(it, dims, 0.3)
    N = [freeze(x) for x in r.seq(nodes, env)]
    M = {freeze(x) for x in r.seq(meas, env)}
    if not M <= set(N):
        return "syndrome qubits that are not in the graph"

    def value(n, over, s):
        r.over, r.sample = over, s
        r.memo.clear()
        r.left = 200000
        r.six.clear()
        v = r.ev(t, {**env, n_: n})
        if isinstance(v, str) or v is None or v is NONE:
            return None
        v = un(nd(v))
        if v not in (0, 1):
            raise Undef("%r of qubit %r is not a bit" % (v, n))
        return int(v)
    own = {}
    for n in N:
        r.touch = set()
        if value(n, {}, 1) is None:
            if n in M:
                return "qubit %r has no bit value" % (n,)
            continue
        vs = sorted(r.touch, key=repr)
        if any(v[0] == "Z" for v in vs):
            raise Unsup("Gaussian draws")
        if any(v[0][0] in "BI" for v in vs):
            raise Unsup("integer draws")

        def matters(part):
            return any(len({value(n, dict.fromkeys(part, u), s) for u in (0.0, 0.15, 0.45, 0.999)}) > 1 for s in (1, 2))

        def split(part):
            if not matters(part):
                return []
            if len(part) == 1:
                return list(part)
            h = len(part) // 2
            return split(part[:h]) + split(part[h:])
        deps = split(vs)
        if not deps and len(vs) <= 60:
            deps = [v for v in vs if matters([v])]
        own[n] = deps
        if not deps:
            return "the bit value of qubit %r is %d whatever is drawn" % (n, value(n, {}, 1))
        if len(deps) > 2:
            raise Unsup("a bit value that depends on many draws")
        for v in deps:
            if v in seen:
                k = next((m for m, d in own.items() if v in d and m != n), None)
                return "the bit values of qubits %r and %r come from the same draw" % (k, n) if k is not None else \
                    "the bit value of qubit %r comes from a draw of an earlier application" % (n,)
            seen.add(v)
    rng = random.Random(repr(dims))
    some = rng.sample(sorted(own), min(4, len(own)))
    for p in (0.3, 0.0, 1.0, 0.00371, 0.96428):
        env[ep_] = p
        for n in some if p == 0.3 else some[:2]:
            v = own[n][0]
            if len(own[n]) == 1:
                got = measure(lambda u: value(n, {v: u}, 1))
            else:
                w, k = own[n][1], 40
                got = sum(value(n, {v: (i + 0.5) / k, w: (j + 0.5) / k}, 1) for i in range(k) for j in range(k)) / k ** 2
            if abs(got - p) > (1e-6 if len(own[n]) == 1 else 0.06):
                return "qubit %r is flipped with probability %.4f when the error probability is %s" % (n, got, p)
    return None


def measure(f):
    """Measure of {u in [0, 1): f(u) = 1}, switch points located by bisection."""
    grid = [0.0] + [(i + 0.5) / 50 for i in range(50)] + [1 - 1e-9]
    # short intervals next to the ends are where small probabilities live
    grid = sorted(grid + [1e-4, 1e-3, 5e-3, 0.995, 0.999, 0.9999])
    m, last, val = 0.0, 0.0, f(0.0)
    for a, b in zip(grid, grid[1:]):
        w = f(b)
        if w != val:
            lo, hi = a, b
            for _ in range(40):
                mid = (lo + hi) / 2
                if f(mid) == val:
                    lo = mid
                else:
                    hi = mid
            m += val * (lo - last)
            last, val = lo, w
    return m + val * (1 - last)

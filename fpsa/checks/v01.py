"""Entangling transformations as matrices: random interpretation of the closed forms of the library functions."""
import math

from ..noisekit import *

RULE = ("the CZ matrix of a weighted adjacency A is [[1, 0], [A, 1]]; applying it in one shot or block by block gives q' = q, p' = p + A q on vectors and "
        "S M S^T on matrices; the four-splitter is the stated orthogonal symplectic network in both orderings; inverted permutations compose to the identity")
ASSUMPTIONS = ["thewalrus beam_splitter and expand compute the documented matrices", "equality of forms is tested at sample points (random interpretation)"]
OP = "flamingpy/cv/ops.py:"
a_, x_, p_ = S("?adj"), S("?x"), S("?p")
B = 1 / math.sqrt(2)


def run(ctx):
    for src, name in (("g(A)", ""), ("g(A, sparse=False)", "dense"), ("g(A, False)", "positional")):
        ctx.scenario("SCZ_mat(%s)" % (name or "default"), matrix, ctx, src, name)
    for dim in (1, 2):
        for src, name in (("g(A, x)", ""), ("g(A, x, True)", "one-shot"), ("g(A, x, one_shot=False)", "blocks"), ("g(A, quads=x, one_shot=True)", "one-shot-keyword")):
            ctx.scenario("SCZ_apply(%s, %dd)" % (name or "default", dim), apply, ctx, src, name, dim)
    for n in (4, 8, 12, 20):
        ctx.scenario("splitter_symp(%d)" % n, splitter, ctx, n)
    ctx.scenario("invert_permutation", inverse, ctx)


def value(it, t, env):
    r = Nint(it, {}, cell=lambda typ, a, k: None)
    return r, r.ev(t, env)


def adjacency(rng, n):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = rng.choice((0, 1, 1, -1))
    return m


def rows(v):
    v = nd(v)
    if len(v.sh) == 1:
        return list(v.d)
    k = v.sh[1]
    return [list(v.d[i * k:(i + 1) * k]) for i in range(v.sh[0])]


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def scz(A):
    n = len(A)
    return [[float(i == j) for j in range(2 * n)] for i in range(n)] + [list(A[i]) + [float(i == j) for j in range(n)] for i in range(n)]


def differ(got, want, what):
    """None, or the first entry in which two matrices or vectors differ."""
    got = rows(got)
    if not isinstance(want[0], list):
        got, want = [got], [list(want)]
        if got and isinstance(got[0], list) and got[0] and isinstance(got[0][0], list):
            return "%s is a matrix, not a vector" % what
    elif not isinstance(got[0], list):
        return "%s is a vector, not a matrix" % what
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        return "%s has shape %dx%d instead of %dx%d" % (what, len(got), len(got[0]), len(want), len(want[0]))
    for i, (a, b) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(a, b)):
            if abs(x - y) > 1e-6 * max(1, abs(y)):
                return "entry %d,%d of %s is %.5g instead of %.5g" % (i, j, what, x, y)
    return None


def sizes(ctx):
    return (1, 2, 3, 5) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)


FORMATS = (("dense-input", False), ("sparse-array-input", "array"), ("sparse-matrix-input", "matrix"))


def store(m, sparse):
    v = nd(m)
    return ND(v.sh, v.d, sparse)


def matrix(ctx, src, name):
    it = ctx.interp()
    t = it.lib.val(snippet(it, "def f(g, A):\n    return %s\n" % src, it.get("flamingpy.cv.ops:SCZ_mat"), a_))

    def go(sp):
        rng = random.Random(name)
        for n in sizes(ctx):
            A = adjacency(rng, n)
            v = value(it, t, {a_: store(A, sp)})[1]
            d = differ(v, scz(A), "the matrix of adjacency %r" % (A,))
            if v.sp is not None and sp and bool(v.sp) == bool(name):
                return "a %s matrix is returned" % ("sparse" if v.sp else "dense")
            if v.sp and not sp:
                return "a sparse matrix is returned for a dense adjacency"
            if d:
                return d
        return None
    for fmt, sp in FORMATS:
        decide(ctx, "cz-matrix", OP + "SCZ_mat[%s%s]" % (name and name + ",", fmt), lambda: go(sp), "at a sample point", undef=True)


def apply(ctx, src, name, dim):
    it = ctx.interp()
    t = it.lib.val(snippet(it, "def f(g, A, x):\n    return %s\n" % src, it.get("flamingpy.cv.ops:SCZ_apply"), a_, x_))

    def go(sp):
        rng = random.Random(name + str(dim))
        for n in sizes(ctx):
            A = adjacency(rng, n)
            s = scz(A)
            x = [rng.uniform(-3, 3) for _ in range(2 * n)] if dim == 1 else [[rng.uniform(-3, 3) for _ in range(2 * n)] for _ in range(2 * n)]
            want = [sum(p * q for p, q in zip(r, x)) for r in s] if dim == 1 else mul(mul(s, x), [list(c) for c in zip(*s)])
            d = differ(value(it, t, {a_: store(A, sp), x_: store(x, False)})[1], want, "the image under adjacency %r" % (A,))
            if d:
                return d
        return None
    for fmt, sp in FORMATS:
        decide(ctx, "cz-application", OP + "SCZ_apply[%s%dd,%s]" % (name and name + ",", dim, fmt), lambda: go(sp), "at a sample point", undef=True)


def splitter(ctx, n):
    it = ctx.interp()
    t = it.lib.val(snippet(it, "def f(g):\n    return g(%s)\n" % ("" if n == 4 else n), it.get("flamingpy.cv.ops:splitter_symp")))

    def go():
        U = [[.5, .5, .5, .5], [-.5, .5, -.5, .5], [-.5, -.5, .5, .5], [.5, -.5, -.5, .5]]
        got = rows(value(it, t, {})[1])
        if len(got) != 2 * n:
            return "the matrix has %d rows" % len(got)
        for m in range(n // 4):
            for i in range(4):
                for q in (0, 1):
                    row = got[i + 4 * q] if n == 4 else got[8 * m + 2 * i + q]
                    want = [0.0] * (2 * n)
                    for j in range(4):
                        want[j + 4 * q if n == 4 else 8 * m + 2 * j + q] = U[i][j]
                    if any(abs(x - y) > 1e-6 for x, y in zip(row, want)):
                        return "row of the %s quadrature of mode %d is %r instead of %r" % ("qp"[q], 4 * m + i, [round(x, 3) for x in row], want)
        return None
    decide(ctx, "splitter", OP + "splitter_symp[%d]" % n, go, "as a matrix", undef=True)


def inverse(ctx):
    it = ctx.interp()
    t = it.lib.val(snippet(it, "def f(g, p):\n    return g(p)\n", it.get("flamingpy.cv.ops:invert_permutation"), p_))

    def go():
        rng = random.Random(3)
        for n in (1, 2, 5, 9):
            p = list(range(n))
            rng.shuffle(p)
            q = rows(value(it, t, {p_: nd(p)})[1])
            if [p[i] for i in q] != list(range(n)) or [q[i] for i in p] != list(range(n)):
                return "the inverse of %r is %r" % (p, q)
        return None
    decide(ctx, "inverse", OP + "invert_permutation", go, "at a sample point", undef=True)

"""Phase error probabilities: the closed forms of the library functions against the GKP noise model, by random interpretation."""
import math

from ..noisekit import *

RULE = ("the conditional probability is the weight of the peaks of the other bit divided by the weight of all peaks, for the fractional part or the whole outcome, "
        "scalar or array; an undefined ratio is replaced as asked for; the unconditional probability is one minus the weight of the zero bins")
ASSUMPTIONS = ["scipy.special.erf and numpy.exp are the error function and the exponential",
               "outcomes within 4 bins of the origin, away from bin boundaries; equality is tested at sample points (random interpretation), to 1e-9"]
GK = "flamingpy/cv/gkp.py:"
v_, x_, n_max_, r_ = S("?var"), S("?x"), S("?vn"), S("?rep")
ROOT = math.sqrt(math.pi)
FORMS = {
    "fraction": "def f(g, v, x, r, n):\n    return g(v, x)\n",
    "whole": "def f(g, v, x, r, n):\n    return g(v, x, use_hom_val=True)\n",
    "fraction,terms": "def f(g, v, x, r, n):\n    return g(v, x, n)\n",
    "whole,terms": "def f(g, v, x, r, n):\n    return g(v, x, var_num=n, use_hom_val=True)\n",
    "fraction,replaced": "def f(g, v, x, r, n):\n    return g(v, x, replace_undefined=r)\n",
    "whole,replaced": "def f(g, v, x, r, n):\n    return g(v, x, 10, r, True)\n",
    "fraction,bin": "def f(g, v, x, r, n):\n    return g(v, x, replace_undefined='bin_location')\n",
    "whole,bin": "def f(g, v, x, r, n):\n    return g(v, x, replace_undefined='bin_location', use_hom_val=True)\n",
}
SHAPES = ("scalars", "arrays", "variances", "single")


def run(ctx):
    for name in FORMS:
        ctx.scenario("Z_err_cond(%s)" % name, conditional, ctx, name)
    ctx.scenario("Z_err", unconditional, ctx)


def want(v, x, terms, whole):
    """(probability or None, fractional part)."""
    n = math.floor(x / ROOT + 0.5)
    f = x - n * ROOT
    z = x if whole else f
    odd = (1 - n % 2) if whole else 1

    def g(i):
        e = -(z - i * ROOT) ** 2 / v
        return math.exp(e) if e > -745.2 else 0.0
    den = sum(g(i) for i in range(-terms, terms))
    return (sum(g(2 * i + odd) for i in range(-terms, terms)) / den if den else None), f


def conditional(ctx, name):
    it = ctx.interp()
    t = it.lib.val(snippet(it, FORMS[name], it.get("flamingpy.cv.gkp:Z_err_cond"), v_, x_, r_, n_max_))
    for shape in SHAPES:
        decide(ctx, "conditional-probability", GK + "Z_err_cond[%s,%s]" % (name, shape), lambda: points(it, t, name, shape, ctx), "at a sample point", undef=True)


def sample(rng, k, name):
    xs = []
    while len(xs) < k:
        x = rng.uniform(-4, 4) * ROOT
        if abs(abs(x / ROOT - math.floor(x / ROOT)) - 0.5) > 0.02:
            xs.append(x)
    vs = [rng.choice((0.05, 0.3, 1.0, 2.5)) * rng.uniform(0.8, 1.2) for _ in xs]
    if name.endswith(("replaced", "bin")):
        for i in range(0, k, 2):
            vs[i] = 1e-6
            xs[i] = (rng.randint(-3, 3) + rng.choice((-1, 1)) * rng.uniform(0.2, 0.45)) * ROOT
    return vs, xs


def points(it, t, name, shape, ctx):
    rng = random.Random(name + shape)
    for s in range(3 if ctx.tier == "quick" else 12):
        k = 1 if shape in ("scalars", "single") else 4
        vs, xs = sample(rng, k, name)
        if shape == "variances":
            xs = xs[:1] * k
        terms = rng.choice((5, 6, 14)) if name.endswith("terms") else 10
        if name.endswith("terms"):
            vs = [v * 12 for v in vs]
        rep = rng.uniform(0, 0.5)
        env = {v_: vs[0] if shape == "scalars" else nd(vs), x_: xs[0] if shape in ("scalars", "variances") else nd(xs), r_: rep, n_max_: terms}
        r = Nint(it, {}, cell=lambda typ, a, k_: None)
        got = r.ev(t, env)
        got = [got] if not isarr(got) else lst(got)
        if len(got) != k:
            return "%d probabilities are returned for %d variances" % (len(got), k)
        for v, x, g in zip(vs, xs, got):
            p, f = want(v, x, terms, name.startswith("whole"))
            if p is None:
                p = rep if name.endswith("replaced") else abs(f) / ROOT if name.endswith("bin") else 0
            if not isinstance(g, (int, float)) or abs(g - p) > 1e-9:
                return "the phase error probability for variance %.4g and outcome %.4f is %s instead of %.6g" % (v, x, "%.6g" % g if isinstance(g, (int, float)) else repr(g), p)
    return None


def unconditional(ctx):
    it = ctx.interp()
    forms = {"": "def f(g, v, n):\n    return g(v)\n", "terms": "def f(g, v, n):\n    return g(v, n)\n", "terms-keyword": "def f(g, v, n):\n    return g(v, var_num=n)\n"}
    for name, src in forms.items():
        t = it.lib.val(snippet(it, src, it.get("flamingpy.cv.gkp:Z_err"), v_, n_max_))

        def at():
            rng = random.Random(name)
            for s in range(3 if ctx.tier == "quick" else 12):
                vs = [rng.choice((0.1, 0.4, 1.0, 2.0)) * rng.uniform(0.8, 1.2) for _ in range(rng.randint(0, 3))] + [rng.choice((0.1, 1.7))]
                vs += [1.8 - vs[-1]] * (s % 3 == 0)
                r = Nint(it, {}, cell=lambda typ, a, k_: None)
                got = r.ev(t, {v_: nd(vs), n_max_: 8})
                got = [got] if not isarr(got) else lst(got)
                if len(got) != len(vs):
                    return "%d probabilities are returned for %d variances" % (len(got), len(vs))
                for v, g in zip(vs, got):
                    zero = sum(0.5 * (math.erf((4 * i + 1) * ROOT / (2 * v)) - math.erf((4 * i - 1) * ROOT / (2 * v))) for i in range(-30, 31))
                    if abs(g - (1 - zero)) > 1e-7:
                        return "the phase error probability for width %.4g is %.6g instead of %.6g" % (v, g, 1 - zero)
            return None
        decide(ctx, "unconditional-probability", GK + "Z_err[%s]" % name, at, "at a sample point", undef=True)

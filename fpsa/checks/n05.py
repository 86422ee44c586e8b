"""Bit values as functions of the outcomes: translator applied mode by mode, and the closed form of the default binning."""
import math

from ..noisekit import *

RULE = ("every bit value of a layer is the translator's value for the outcome of the same mode; the default binning gives the parity of the multiple of "
        "sqrt(pi) nearest to the outcome and the signed distance to it; n * alpha + f = x with an integer n and |f| <= alpha / 2")
ASSUMPTIONS = ["closed forms are compared at sample points (random interpretation) away from the bin boundaries, where floating point decides"]
FN = "flamingpy/noise/cv.py:CVLayer.inner_decoder[%s]"
x_, al_ = S("?x"), S("?alpha")
ROOT = math.sqrt(math.pi)
GK = "flamingpy/cv/gkp.py:"
FORMS = {
    "bits": "def f(g, x):\n    return g(x)\n",
    "both": "def f(g, x):\n    return g(x, return_fraction=True)\n",
    "positional": "def f(g, x):\n    return g(x, True)\n",
}


def run(ctx):
    for opt in ("states", "p_swap,two-step", "states,translator"):
        ctx.scenario("inner_decoder(%s)" % opt, layer, ctx, opt)
    for ec, bd, opt in (("primal", "open", "states,translator"), ("dual", "toric", "p_swap")):
        ctx.scenario("inner_decoder(code %s %s, %s)" % (ec, bd, opt), layer, ctx, opt, ec, bd)
    for name in FORMS:
        ctx.scenario("GKP_binner(%s)" % name, binner, ctx, name)
    ctx.scenario("integer_fractional", fractional, ctx)


def nearest(x):
    return math.floor(x / ROOT + 0.5)


def layer(ctx, opt, ec=None, bd=None):
    it = ctx.interp()
    nz = Noise(it, opt, code=built_code(it, ec, bd) if ec else None, perfect=False)
    dims = dims_of(ctx.tier)[0] if ec else None
    for i, a in enumerate(nz.after):
        where = FN % ("%s,trial%d" % (opt if not ec else "%s,%s,%s" % (ec, bd, opt), i + 1))
        decide(ctx, "translated-bits", where, lambda: translated(nz, where, dims, a, opt), "with dimensions %s" % (dims,) if dims else "on a sample graph", undef=True)


def translated(nz, seed, dims, a, opt):
    p = Point(nz, seed, dims)

    def tr(xs):
        return tuple(int(hnum("tr", round(x, 9)) < 0.5) for x in lst(xs))
    p.env[tr_] = tr
    for s in range(1, 5 if dims is None else 2):
        p.sample(s)
        for m in p.meas:
            v, b = p.at(a["hom_p"], m), p.at(a["bit"], m)
            if isinstance(v, str) or isinstance(b, str):
                return "mode %r has no outcome or no bit value" % (m,)
            want = tr([v])[0] if "translator" in opt else nearest(v) % 2
            if un(nd(b)) != want:
                return "the outcome %.4f of mode %r is translated to %r instead of %d" % (v, m, b, want)
    return None


def points(seed):
    rng = random.Random(seed)
    xs = [rng.uniform(-4, 4) for _ in range(6)] + [rng.uniform(-60, 60) for _ in range(4)] + [rng.uniform(-900, 900) for _ in range(4)]
    xs += [0.0, 0.2 * ROOT, -0.2 * ROOT, 0.8 * ROOT, -0.8 * ROOT, 1.3 * ROOT, -1.3 * ROOT]
    return [x for x in xs if abs(abs(x / ROOT - math.floor(x / ROOT)) - 0.5) > 1e-3]


def binner(ctx, name):
    it = ctx.interp()
    t = it.lib.val(snippet(it, FORMS[name], it.get("flamingpy.cv.gkp:GKP_binner"), x_))

    def go(arg, xs):
        f = Form(it, {}, cell=lambda typ, a, k: None)
        f.r = Nint(it, {}, cell=lambda typ, a, k: None)
        r = f.r.ev(t, {x_: arg})
        bits, fr = (r, None) if name == "bits" else (f.r.item(r, 0), f.r.item(r, 1))
        bits, fr = lst([bits]) if not isarr(bits) else lst(bits), None if fr is None else lst([fr]) if not isarr(fr) else lst(fr)
        if len(bits) != len(xs) or fr is not None and len(fr) != len(xs):
            return "%d outcomes are translated to %d bits" % (len(xs), len(bits))
        for i, x in enumerate(xs):
            n = nearest(x)
            if bits[i] != n % 2:
                return "the outcome %.6f is translated to %r instead of %d" % (x, bits[i], n % 2)
            if fr is not None and abs(fr[i] - (x - n * ROOT)) > 1e-9 * max(1, abs(x)):
                return "the fractional part of %.6f is %.6f instead of %.6f" % (x, fr[i], x - n * ROOT)
        return None

    def at():
        xs = points(name)
        return go(nd(xs), xs) or go(tuple(xs), xs) or next((d for d in (go(nd([x]), [x]) for x in xs) if d), None)

    def scalar():
        return next((d for d in (go(x, [x]) for x in points(name)) if d), None)
    decide(ctx, "binning", GK + "GKP_binner[%s,array]" % name, at, "at a sample point", undef=True)
    decide(ctx, "binning", GK + "GKP_binner[%s,scalar]" % name, scalar, "at a sample point", undef=True)


def fractional(ctx):
    it = ctx.interp()
    t = it.lib.val(snippet(it, "def f(g, x, a):\n    return g(x, a)\n", it.get("flamingpy.cv.gkp:integer_fractional"), x_, al_))

    def at():
        rng = random.Random(5)
        for al in [ROOT, 2.0, 0.5, 1.0, 3.7] + [rng.uniform(0.1, 9) for _ in range(3)]:
            xs = [rng.uniform(-40, 40) for _ in range(8)] + [0.0, al, -al, 3 * al, -0.4 * al, 0.4 * al, 2.5 * al, -2.5 * al, 0.5 * al]
            f = Form(it, {}, cell=lambda typ, a, k: None)
            f.r = Nint(it, {}, cell=lambda typ, a, k: None)
            r = f.r.ev(t, {x_: nd(xs), al_: al})
            n, fr = lst(f.r.item(r, 0)), lst(f.r.item(r, 1))
            for x, i, y in zip(xs, n, fr):
                if float(i) != int(i):
                    return "the integer part of %.6f with respect to %.4f is %r" % (x, al, i)
                if abs(i * al + y - x) > 1e-9 * max(1, abs(x)):
                    return "%.6f is not %r * %.4f + %.6f" % (x, i, al, y)
                if abs(y) > al / 2 + 1e-9:
                    return "the fractional part of %.6f with respect to %.4f is %.6f" % (x, al, y)
        return None
    decide(ctx, "integer-fractional", GK + "integer_fractional", at, "at a sample point", undef=True)

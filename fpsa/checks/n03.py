"""Homodyne outcomes as linear forms over the drawn numbers: means and covariances compared with the noise model."""
from ..noisekit import *

RULE = ("the measured p outcomes are, in distribution, p_i plus the sum of q_j times the edge weight over the neighbours j, with the mean and variance of q and p given by "
        "the state of each mode (zero p and q noise for perfect modes in the initial order, zero measurement noise in the two-step order)")
ASSUMPTIONS = ["draws of the generator are independent variables of the documented distribution", "rounding of 32-bit floats is not modelled",
               "equality of forms is tested on sample graphs and parameters (random interpretation)"]
FN = "flamingpy/noise/cv.py:CVLayer.apply_noise[%s]"


def run(ctx):
    for opt in ("states", "p_swap", "none", "states,two-step", "p_swap,two-step", "all-p"):
        for perfect in (True, False):
            ctx.scenario("CVLayer(%s, perfect=%s)" % (opt, perfect), bare, ctx, opt, perfect)
    for ec, bd in (("primal", "open"), ("dual", "periodic")):
        for opt in ("p_swap", "states,two-step"):
            for perfect in (False, True):
                ctx.scenario("CVLayer(code %s %s, %s, perfect=%s)" % (ec, bd, opt, perfect), oncode, ctx, ec, bd, opt, perfect)


def expected(p, label, two, quad="p"):
    """Linear forms of the outcomes of the measured modes."""
    import math
    d, root = p.d, math.sqrt(math.pi)
    q, pp = {}, {}
    for n in p.N:
        s = label[n]
        if two:
            q[n] = Lin(0, {("U", "q", n): 2 * root}) if s == "p" else Lin(0, {("B", "q", n): root})
            pp[n] = Lin(0, {("Z", "p", n): 0 if n in p.P else math.sqrt(d / 2)})
        else:
            sq = 1 / math.sqrt(2 * d) if s == "p" else math.sqrt(d / 2)
            q[n] = Lin(0, {("Z", "q", n): 0 if n in p.P else sq})
            pp[n] = Lin(0, {("Z", "p", n): 0 if n in p.P else math.sqrt(d / 2)})
    out = []
    for n in p.meas:
        x = pp[n] if quad == "p" else q[n]
        if quad == "q" and two:
            x = x + Lin(0, {("Z", "meas", n): 0 if n in p.P else math.sqrt(d / 2)})
        for m, w in p.adj[n] if quad == "p" else ():
            x = x + q[m] * w
        out.append(x)
    return out


def compare(p, after, two):
    label = {n: p.at(after["state"], n) for n in p.N}
    for n, s in label.items():
        if s not in ("p", "GKP"):
            return "the state of %r is %r" % (n, s)
    got = []
    for n in p.meas:
        v = p.at(after["hom_p"], n)
        if isinstance(v, str):
            return "the measured mode %r has no outcome" % (n,)
        got.append(lin(v))
    return gramdiff(got, expected(p, label, two), p.meas)


def bare(ctx, opt, perfect):
    nz = Noise(ctx.interp(), opt, perfect=perfect)
    for s in range(3 if ctx.tier == "quick" else 12):
        for i, a in enumerate(nz.after):
            decide(ctx, "outcome-distribution", FN % (opt + (",perfect" if perfect else "") + ",trial%d" % (i + 1)),
                   lambda: compare(Point(nz, "%s%s%d" % (opt, perfect, s)), a, "two-step" in opt), "on a sample graph", undef=True)


def oncode(ctx, ec, bd, opt, perfect):
    it = ctx.interp()
    nz = Noise(it, opt, code=built_code(it, ec, bd), perfect=perfect)
    for dims in dims_of(ctx.tier)[:1]:
        for i, a in enumerate(nz.after):
            decide(ctx, "outcome-distribution", FN % ("%s,%s,%s,trial%d" % (ec, bd, opt + (",perfect" if perfect else ""), i + 1)),
                   lambda: compare(Point(nz, opt + ec, dims), a, "two-step" in opt), "with dimensions %s" % (dims,), undef=True)

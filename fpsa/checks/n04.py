"""Outcomes and bit values as functions of the mode: exactly the measured modes are written, and the getters return what was written."""
import math

from ..noisekit import *
from .n03 import expected

RULE = ("a measurement writes an outcome of the measured quadrature on exactly the measured modes (bits on exactly the syndrome qubits), uses the means and "
        "noise of those modes, and hom_outcomes / bit_values return them in the order asked for")
ASSUMPTIONS = ["draws of the generator are independent variables of the documented distribution",
               "equality of forms is tested on sample graphs and parameters (random interpretation)"]
FN = "flamingpy/noise/cv.py:CVLayer.%s[%s]"
i1_, i2_, m_, c_ = S("?i1"), S("?i2"), S("?M"), S("?CV")
LAY = '''
def f(cls, code, rng, d, st, i1, i2, M, CV):
    lay = cls(code, delta=d, states={"p": st}%s)
    lay.populate_states(rng)
    %s
    return lay
'''
SEE = '''
def f(lay, n, i1, i2):
    a = lay.egraph.nodes[n]
    return (a.get("hom_val_p", "none"), a.get("hom_val_q", "none"), a.get("bit_val", "none"), a["state"], lay.egraph.to_indices[n],
            lay.hom_outcomes(i1, "p"), lay.hom_outcomes(i2, "q"), lay.hom_outcomes(), lay.hom_outcomes(quad="q"), lay.bit_values(i1), lay.bit_values())
'''
KEYS = ("p", "q", "bit", "state", "index", "get_p", "get_q", "all_p", "all_q", "get_bit", "all_bit")
# name: (sampling order, statements, measured modes per quadrature, rule of the outcome)
STEPS = {
    "p": ("", "lay.measure_hom('p', i1, rng=rng)", {"p": "i1"}, "model"),
    "q": ("", "lay.measure_hom('q', i2, rng=rng)", {"q": "i2"}, "model"),
    "p,two-step": ("two-step", "lay.measure_hom('p', i1, rng=rng)", {"p": "i1"}, "model"),
    "q,two-step": ("two-step", "lay.measure_hom('q', i2, rng=rng)", {"q": "i2"}, "model"),
    "all-q": ("", "lay.measure_hom('q', rng=rng)", {"q": "all"}, "model"),
    "all-p,two-step": ("two-step", "lay.measure_hom(rng=rng)", {"p": "all"}, "model"),
    "means": ("two-step", "lay.measure_hom(quad='p', inds=i1, updated_means=M, rng=rng)\n    lay.measure_hom(quad='q', inds=i2, updated_means=M, rng=rng)",
              {"p": "i1", "q": "i2"}, "means"),
    "means,covs": ("two-step", "lay.measure_hom(quad='p', inds=i1, updated_means=M, updated_covs=CV, rng=rng)\n"
                   "    lay.measure_hom(quad='q', inds=i2, updated_means=M, updated_covs=CV, rng=rng)", {"p": "i1", "q": "i2"}, "covs"),
    "again": ("two-step", "lay.measure_hom('p', rng=rng)\n    lay.measure_hom(quad='p', inds=i1, updated_means=M, updated_covs=CV, rng=rng)", {"p": "all"}, None),
    "q-then-p": ("", "lay.measure_hom('q', i2, rng=rng)\n    lay.measure_hom('p', i1, rng=rng)", {"p": "i1", "q": "i2"}, "model"),
}


def run(ctx):
    for name in STEPS:
        ctx.scenario("measure_hom(%s)" % name, direct, ctx, name)
    for ec, bd, opt in (("primal", "open", "states"), ("dual", "toric", "p_swap,two-step"), ("primal", "periodic", "p_swap"), ("dual", "open", "states,two-step")):
        ctx.scenario("apply_noise(code %s %s, %s)" % (ec, bd, opt), layer, ctx, opt, ec, bd)
    for opt in ("states", "p_swap,two-step"):
        ctx.scenario("apply_noise(%s)" % opt, layer, ctx, opt)


def direct(ctx, name):
    it = ctx.interp()
    order, steps, where, rule = STEPS[name]

    class Nz(Noise):
        def __init__(self):
            self.it, self.code, self.perfect = it, None, True
            self.G = snippet(it, GRAPH, it.get(EG), N_, E_, P_)
            self.lay = snippet(it, LAY % (', sampling_order="two-step"' if order else "", steps), it.get(CV), self.G, rng_, d_, st_, i1_, i2_, m_, c_)
            r = it.lib.val(snippet(it, SEE, self.lay, n_, i1_, i2_))
            self.form = dict(zip(KEYS, r.a))
    nz = Nz()
    for s in range(2 if ctx.tier == "quick" else 8):
        decide(ctx, "measured-modes", FN % ("measure_hom", name), lambda: measured(nz, "%s%d" % (name, s), where, rule, bool(order)), "on a sample graph", undef=True)


def measured(nz, seed, where, rule, two):
    p = Point(nz, seed)
    f, n, rng = nz.form, len(p.N), random.Random(seed)
    sets = {"all": list(range(n)), "i1": rng.sample(range(n), max(1, n // 2))}
    sets["i2"] = [i for i in range(n) if i not in sets["i1"]]
    rng.shuffle(sets["i2"])
    M, V = [rng.uniform(-2, 2) for _ in range(2 * n)], [rng.uniform(0.1, 1) for _ in range(2 * n)]
    p.env.update({i1_: nd(sets["i1"]), i2_: nd(sets["i2"]), m_: nd(M), c_: nd(V)})
    got = {}
    for m in p.N:
        if p.at(f["index"], m) != p.idx[m]:
            return "mode %r has index %r instead of %d" % (m, p.at(f["index"], m), p.idx[m])
        for quad in "pq":
            v = p.at(f[quad], m)
            inside = quad in where and p.idx[m] in sets[where[quad]]
            if (v == "none" if isinstance(v, str) else v is None) == inside:
                return "the %s outcome of mode %r is %s" % (quad, m, "missing" if inside else "set although it was not measured")
            got[quad, p.idx[m]] = None if isinstance(v, str) else v
        if not isinstance(p.at(f["bit"], m), str):
            return "mode %r has a bit value without having been decoded" % (m,)
    for key, quad, inds in (("get_p", "p", sets["i1"]), ("get_q", "q", sets["i2"]), ("all_p", "p", range(n)), ("all_q", "q", range(n))):
        r = [None if x is NONE else x for x in p.f.r.seq(f[key], p.env)]
        if len(r) != len(inds):
            return "hom_outcomes returns %d outcomes for %d modes" % (len(r), len(inds))
        for i, x in zip(inds, r):
            if (x is None) != (got[quad, i] is None) or x is not None and not lin(x) == lin(got[quad, i]):
                return "hom_outcomes gives %r for the %s outcome %r of mode %d" % (x, quad, got[quad, i], i)
    for quad in where:
        inds = sets[where[quad]]
        have = [lin(got[quad, i]) for i in inds]
        if rule == "model":
            label = {m: p.at(f["state"], m) for m in p.N}
            p.meas = [p.order[i] for i in inds]
            want = expected(p, label, two, quad)
        elif rule == "means":
            want = [Lin(M[i + (n if quad == "p" else 0)], {("Z", "x", i): 0 if p.order[i] in p.P else math.sqrt(p.d / 2)}) for i in inds]
        elif rule == "covs":
            want = [Lin(M[i + (n if quad == "p" else 0)], {("Z", "x", i): V[i + (n if quad == "p" else 0)]}) for i in inds]
        else:
            k = [i for i in inds if i in sets["i1"]]
            have, inds = [lin(got[quad, i]) for i in k], k
            want = [Lin(M[i + n], {("Z", "x", i): V[i + n]}) for i in k]
        d = gramdiff(have, want, ["mode %d" % i for i in inds])
        if d:
            return quad + " outcome: " + d
    return None


def layer(ctx, opt, ec=None, bd=None):
    it = ctx.interp()
    nz = Noise(it, opt, code=built_code(it, ec, bd) if ec else None, perfect=False)
    for i, a in enumerate(nz.after):
        where = FN % ("apply_noise", "%s,trial%d" % (opt if not ec else "%s,%s,%s" % (ec, bd, opt), i + 1))
        dims = dims_of(ctx.tier)[0] if ec else None
        decide(ctx, "syndrome-modes", where, lambda: written(nz, where, dims, a), "with dimensions %s" % (dims,) if dims else "on a sample graph", undef=True)


def written(nz, seed, dims, a):
    p = Point(nz, seed, dims)
    p.sample(1)
    p.inds = [p.idx[m] for m in p.meas][:3] + [i for i in range(len(p.N)) if p.order[i] not in p.meas][:2]
    p.env[inds_] = nd(p.inds)
    vals = {}
    for m in p.N:
        for key, what in (("hom_p", "a p outcome"), ("bit", "a bit value"), ("hom_q", "a q outcome")):
            v = p.at(a[key], m)
            has = not isinstance(v, str) and v is not None
            if has != (m in p.meas and key != "hom_q"):
                return "%r has %s%s although it %s measured in p" % (m, "" if has else "no ", what[2:] if not has else what, "is" if m in p.meas else "is not")
            vals[key, p.idx[m]] = v if has else None
    for key, form in (("hom_p", "outcomes"), ("bit", "bits")):
        r = [None if x is NONE else x for x in p.f.r.seq(a[form], p.env)]
        want = [vals[key, i] for i in p.inds]
        if len(r) != len(want) or any((x is None) != (y is None) or x is not None and not close(x, y) for x, y in zip(r, want)):
            return "%s of the modes %r are %r but %r was recorded" % (form, p.inds, r, want)
    return None

"""State labels as functions of the drawn numbers: partition of the modes, number and choice of the squeezed modes, fresh draws per trial."""
from ..noisekit import *

RULE = ("after every trial each mode is labelled p or GKP, the labels agree with the index lists, the squeezed modes are the supplied ones or a fresh "
        "uniformly chosen set of binomial(N, p_swap) modes")
ASSUMPTIONS = ["draws of the generator are independent variables of the documented distribution",
               "the choice of the squeezed modes is decided for binomial + choice without replacement and for one threshold draw per mode; others are undecided"]
FN = "flamingpy/noise/cv.py:CVLayer.apply_noise[%s]"


def run(ctx):
    for opt in ("states", "states,two-step", "p_swap", "p_swap,two-step", "p_swap,empty", "none", "empty-states", "all-p", "no-p", "states,no-p"):
        for perfect in (False, True) if opt in ("p_swap", "states") else (False,):
            ctx.scenario("CVLayer(%s, perfect=%s)" % (opt, perfect), bare, ctx, opt, perfect)
    for ec, bd, opt in (("primal", "open", "p_swap"), ("dual", "toric", "states")):
        ctx.scenario("CVLayer(code %s %s, %s)" % (ec, bd, opt), oncode, ctx, ec, bd, opt)


def bare(ctx, opt, perfect):
    nz = Noise(ctx.interp(), opt, perfect=perfect)
    check(ctx, nz, opt + (",perfect" if perfect else ""), opt, None, 2 if ctx.tier == "quick" else 8)


def oncode(ctx, ec, bd, opt):
    it = ctx.interp()
    nz = Noise(it, opt, code=built_code(it, ec, bd), perfect=False)
    check(ctx, nz, "%s,%s,%s" % (ec, bd, opt), opt, dims_of(ctx.tier)[0], 1)


def check(ctx, nz, where, opt, dims, points):
    for s in range(points):
        p = Point(nz, "%s%d" % (where, s), dims)
        for i, a in enumerate(nz.after):
            w = FN % (where + ",trial%d" % (i + 1))
            decide(ctx, "labels-partition", w, lambda: partition(p, a, opt), "on a sample graph", undef=True)
            if opt.startswith("p_swap"):
                decide(ctx, "swap-out-distribution", w, lambda: swaps(p, a), "on a sample graph", undef=True)
        if opt.startswith("p_swap"):
            decide(ctx, "swap-out-redrawn", FN % where, lambda: fresh(p, nz.after), "on a sample graph", undef=True)


def labels(p, a):
    got = {n: p.at(a["state"], n) for n in p.N}
    idx = {n: p.at(a["index"], n) for n in p.N}
    return got, idx


def ints(v):
    out = []
    for x in lst(v):
        if isinstance(x, bool) or float(x) != int(x):
            raise Unsup("index %r" % (x,))
        out.append(int(x))
    return out


def partition(p, a, opt):
    n = len(p.N)
    for s in range(1, 4):
        p.sample(s)
        got, idx = labels(p, a)
        if sorted(idx.values()) != list(range(n)):
            return "the modes are not numbered 0 to %d" % (n - 1)
        for m, x in got.items():
            if x not in ("p", "GKP"):
                return "mode %r is labelled %r" % (m, x)
        ps, gs = ints(p.ev(a["p_inds"])), ints(p.ev(a["gkp_inds"]))
        if len(set(ps)) != len(ps):
            return "the indices of the squeezed modes %r have duplicates" % (ps,)
        if len(set(gs)) != len(gs):
            return "the indices of the GKP modes %r have duplicates" % (gs,)
        if sorted(ps + gs) != list(range(n)):
            return "the indices of squeezed %r and GKP modes %r do not partition the %d modes" % (sorted(ps), sorted(gs), n)
        for m, x in got.items():
            if (x == "p") != (idx[m] in ps):
                return "mode %r with index %d is labelled %r but the squeezed modes are %r" % (m, idx[m], x, sorted(ps))
        want = None
        if opt.startswith("states"):
            want = sorted(p.st)
        elif opt == "all-p":
            want = list(range(n))
        elif opt in ("none", "no-p", "empty-states"):
            want = []
        if want is not None and sorted(ps) != want:
            return "the squeezed modes are %r instead of %r" % (sorted(ps), want)
    return None


def drawn(p, a):
    """Index -> squeezed, and the draws the index list was computed from."""
    p.f.r.memo.clear()
    p.f.r.six.clear()
    p.f.r.logs = {}
    ps = set(ints(p.ev(a["p_inds"])))
    return {i: i in ps for i in range(len(p.N))}, dict(p.f.r.logs)


def swaps(p, a):
    n, seen, unseen, counts, other = len(p.N), set(), set(), set(), None
    bern = {}
    for s in range(1, 41):
        p.sample(s)
        got, logs = drawn(p, a)
        seen |= {m for m in got if got[m]}
        unseen |= {m for m in got if not got[m]}
        names = [v[0] for v in logs.values()]
        if not logs:
            return "no random number decides which modes are squeezed"
        if "binomial" in names and names.count("binomial") == 1:
            nm, ar, kw, r = next(v for v in logs.values() if v[0] == "binomial")
            q = dict(zip(("n", "p", "size"), ar), **kw)
            if q.get("n") != n or not (close(q["p"], p.ps) or close(q["p"], 1 - p.ps)):
                return "the number of squeezed modes is drawn from binomial(%s, %s) instead of binomial(%s, %s)" % (q.get("n"), q["p"], n, p.ps)
            k, c = sum(got.values()), r if close(q["p"], p.ps) else n - r
            if k != c and not (close(p.ps, 0.5) and k == n - c):
                return "%d modes are squeezed where %s were drawn" % (k, c)
            if not set(names) & {"choice", "permutation", "shuffle", "permuted", "random"}:
                return "the squeezed modes are not chosen at random"
        elif set(names) <= {"random", "uniform"}:
            us = {(i, j): u for i, v in logs.items() for j, u in enumerate(nd(v[3]).d)}
            for m in got:
                ok = {key for key, u in us.items() if (u < p.ps) == got[m]} if len(us) >= n else set()
                bern[m] = bern[m] & ok if m in bern else ok
        else:
            other = sorted(names)
        counts.add(sum(got.values()))
    if len(counts) == 1:
        return "the number of squeezed modes is always %d" % counts.pop()
    if other:
        raise Unsup("choice of the squeezed modes from %s" % other)
    if bern:
        if any(len(x) > 1 for x in bern.values()):
            raise Unsup("choice of the squeezed modes")
        if any(not x for x in bern.values()):
            return "mode %d is not squeezed with probability %s" % (sorted(m for m in bern if not bern[m])[0], p.ps)
        if len(set().union(*bern.values())) != n:
            return "two modes share the draw that decides whether they are squeezed"
    if len(seen) < n:
        return "mode %d is never squeezed" % (sorted(set(range(n)) - seen)[0],)
    if len(unseen) < n:
        return "mode %d is always squeezed" % (sorted(set(range(n)) - unseen)[0],)
    return None


def fresh(p, after):
    same, ids = True, []
    for s in range(1, 6):
        p.sample(s)
        r = [drawn(p, a) for a in after]
        ids.append(set(r[0][1]) & set(r[1][1]))
        same = same and r[0][0] == r[1][0]
    if same:
        return "the second trial squeezes the same modes as the first"
    if any(ids):
        return "the second trial reuses a random number of the first"
    return None

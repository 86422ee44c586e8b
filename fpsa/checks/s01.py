"""Trial accounting of the Monte Carlo driver: the reported number of failures as a closed form over the verdicts of the trials,
with the decoder's verdict and the noise replaced by uninterpreted ones, without MPI and summed over the ranks of an MPI run."""
import random

from ..noisekit import *

RULE = ("the value returned at rank 0 is the number of trials minus the number of positive verdicts, where over all ranks exactly as many verdicts as trials are used; "
        "every trial applies the noise to the code and then decodes that code with the decoder and weight options of the caller")
ASSUMPTIONS = ["MPI's Reduce with SUM delivers the element-wise sum of the send buffers to the root", "equality of forms is tested at sample points (random interpretation)"]
FN = "flamingpy/simulations.py:ec_monte_carlo[%s]"
trials_, rank_, size_, red_, code_, noise_, dec_, wo_, comm_ = (S("?trials"), S("?rank"), S("?size"), S("?reduced"), S("code"), S("noise"), S("decoder"),
                                                              S("weight_opts"), S("comm"))
SAMPLES = ((1, 1), (5, 1), (8, 1), (1, 3), (7, 2), (9, 3), (12, 5), (2, 4))


class Env:
    def __init__(self, ctx, mpi):
        self.ctx, self.it = ctx, ctx.interp(have_mpi=mpi)
        it = self.it
        self.world = snippet(it, "class W:\n    pass\ndef f(s):\n    w = W()\n    w.state = s\n    return w\n", S("earlier-state"))
        self.seq, self.reduce, self.other = [], [], []
        params = [x.arg for x in it.funcs[it.get(DEC + "correct").a[0]].node.args.args]
        self.where = FN % ("MPI" if mpi else "no MPI")

        def correct(a, k):
            b = {**dict(zip(params, a)), **k}
            self.seq.append(("decode", it.st.loops, b))
            return snippet(it, "def f(w):\n    return bool(w.state < 0.5)\n", self.world)

        def apply(a, k):
            self.seq.append(("noise", it.st.loops, a))
            snippet(it, "def f(w, r):\n    w.state = r.random()\n", self.world, S("VERDICT"))
            return NONE

        def reduce_into(a, k):
            self.reduce.append((it.lib.val(a[0]), k.get("op", a[2] if len(a) > 2 else None), k.get("root", a[3] if len(a) > 3 else None), False))
            snippet(it, "def f(b, r):\n    b[:] = r\n", a[1], red_)
            return NONE

        def reduce(a, k):
            self.reduce.append((it.lib.val(a[0]), k.get("op", a[1] if len(a) > 1 else None), k.get("root", a[2] if len(a) > 2 else None), True))
            return red_
        it.stubs = {"correct": correct}
        it.mhooks = {(noise_, "apply_noise"): apply}
        for n in ("Reduce", "Allreduce"):
            it.mhooks[comm_, n] = reduce_into
        for n in ("reduce", "allreduce"):
            it.mhooks[comm_, n] = reduce
        self.i0 = len(it.events)
        args = it.lib.mkdict()
        it.setitem(args, C("weight_opts"), wo_)
        self.ret = it.lib.val(call(it, SIM + "ec_monte_carlo", trials_, code_, noise_, dec_, args, comm_ if mpi else NONE, rank_, size_))


def run(ctx):
    for mpi in (False, True):
        ctx.scenario("ec_monte_carlo(%s)" % ("MPI" if mpi else "no MPI"), scenario, ctx, mpi)


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    if t.op == "any":
        return [y for x in t.a for y in leaves(x)]
    return [t]


def scenario(ctx, mpi):
    e = Env(ctx, mpi)
    W = e.where
    # what every trial does
    for i, (kind, loops, b) in enumerate(e.seq):
        if kind != "decode":
            continue
        for p, want, exact in (("code", code_, True), ("decoder", dec_, False), ("weight_options", wo_, False)):
            got = b.get(p)
            if got is None:
                ctx.alarm("trial-arguments", W, "the trial does not pass %s to the decoder" % p)
                continue
            for x in leaves(e.it.lib.val(got)):
                if x is want or (not exact and contains(x, lambda y: y is want)):
                    ctx.ok("trial-arguments", W + " " + p)
                elif x.op == "ref" and not exact:
                    ctx.undecided("trial-arguments", W, "%s is a derived object" % p)
                else:
                    ctx.alarm("trial-arguments", W, "the trial decodes with %s = %s instead of the caller's" % (p, short(x)))
        before = [s for s in e.seq[:i] if s[0] == "noise"]
        if not any(s[1] == loops for s in before):
            ctx.alarm("noise-before-decoding", W, "a trial is decoded without applying the noise first" +
                      (" (the noise is applied outside the trial loop)" if before else ""))
        else:
            ctx.ok("noise-before-decoding", W)
    if not any(s[0] == "decode" for s in e.seq):
        ctx.undecided("trial-accounting", W, "no decoding found")
        return
    unknown = [v for v in e.it.events[e.i0:] if v.kind == "mcall" and v.root is comm_]
    if unknown:
        ctx.undecided("trial-accounting", W, "communication %r is not modelled" % unknown[0].name)
        return
    for t, op, root, _ in e.reduce:
        bad = None
        if op is not None and not (op.op == "ext" and op.a[0].endswith(".SUM")) and e.it.lib.val(op).op == "ext":
            bad = "the ranks are combined with %s" % short(op)
        elif root is not None and isc(root) and root.a[0] != 0:
            bad = "the sum is delivered to rank %r" % (root.a[0],)
        if bad:
            ctx.alarm("reduction", W, bad)
        else:
            ctx.ok("reduction", W)
    if len(e.reduce) > 1:
        ctx.undecided("trial-accounting", W, "several reductions")
        return
    for n, size in SAMPLES:
        if size > 1 and not mpi:
            continue
        for s in range(3):
            decide(ctx, "trial-accounting", W, lambda: account(e, n, size, s), "%d trials on %d process%s" % (n, size, "" if size == 1 else "es"))


def short(x):
    return repr(x.a[0]) if isc(x) else x.op


def evaluator(e):
    r = Nint(e.it, {}, cell=lambda typ, a, k: None)
    r.over, r.touch, r.sample = {}, set(), 1
    return r


def account(e, n, size, s):
    """Evaluate the reported failures for random verdicts of the trials on every rank."""
    rng = random.Random(1000 * n + 10 * size + s)
    base = {trials_: n, size_: size}
    local = e.reduce[0][0] if e.reduce else None
    total, used, ups, overs = [], 0, 0, []

    def go(t, env):
        """(value, trials used, positive verdicts) under random verdicts"""
        r = evaluator(e)
        r.ev(t, env)
        keys = sorted(r.touch, key=repr)
        over = {k: (0.25 if (s == 0 or rng.random() < .5) else 0.75) for k in keys}
        r = evaluator(e)
        r.over = over
        v = nd(r.ev(t, env))
        overs.append(over)
        return v, len(keys), sum(1 for x in over.values() if x < .5)
    if local is None:
        if size > 1:
            raise Unsup("no reduction")
        v, used, ups = go(e.ret, {**base, rank_: 0, red_: nd([0])})
        got = un(v)
    else:
        for k in range(size):
            v, u, p = go(local, {**base, rank_: k, red_: nd([0])})
            total, used, ups = [x + y for x, y in zip(total, v.d)] if total else list(v.d), used + u, ups + p
        r = evaluator(e)
        r.over = overs[0]
        got = un(nd(r.ev(e.ret, {**base, rank_: 0, red_: (total[0] if e.reduce[0][3] else nd(total))})))
        if r.touch and got == n - ups:
            raise Unsup("verdicts outside the reduction")
    if used != n:
        return "%d verdicts are used" % used
    if got != n - ups:
        return "%d verdicts are positive and the reported number of failures is %s" % (ups, got)
    return None

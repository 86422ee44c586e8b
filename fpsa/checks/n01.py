"""Provenance analysis of every random draw: the abstract value of the object a draw
is performed on must be the generator the caller supplied (noise layers), or the one
generator the Monte Carlo driver created once, outside its trial loop, from a seed
that depends on the process rank."""
from ..scen import *
from ..terms import *
from ..terms import children as tm_children

RULE = ("every draw's generator is the caller's; no use of a module-level or process-global random state; the Monte Carlo "
        "generator is created once per run and its seed separates ranks")
ASSUMPTIONS = ["numpy Generator methods are the only sources of randomness besides numpy.random.*, random.* and os.urandom/secrets/uuid"]


def where(e):
    return "%s:%s:%s" % (e.site[0], e.site[2], e.name)


def run(ctx):
    NK = [x for x in NOISES if x[1].get("sampling_order") is not C("final")]
    for kind, kw in NK:
        for carrier in ("code", "egraph"):
            if carrier == "egraph" and kind != "cv":
                continue
            ctx.scenario("apply_noise(%s) on %s" % (nname(kind, kw), carrier), noise_scen, ctx, kind, kw, carrier)
    for mpi in (False, True):
        for kind in ("iid", "cv", "macro"):
            ctx.scenario("ec_monte_carlo(%s, MPI %s)" % (kind, "present" if mpi else "absent"), mc_scen, ctx, kind, mpi)
    ctx.scenario("drawing and decoding entry points", viz_scen, ctx)


def judge(ctx, it, evs, allowed, what):
    n = 0
    for e in evs:
        if e.kind == "draw":
            n += 1
            roots = roots_of(it, e.root)
            bad = [r for r in roots if r not in allowed]
            if bad:
                why = describe(bad[0])
                ctx.alarm("draw-provenance", where(e), "%s: draw %r (line %s) uses %s instead of the supplied generator" % (
                    what, e.name, e.site[1], why))
            else:
                ctx.ok("draw-provenance", "%s: %s" % (what, where(e)))
        elif e.kind == "reseed":
            ctx.alarm("global-seed", where(e), "%s: process-global random state is seeded (line %s)" % (what, e.site[1]))
        elif e.kind == "extcall" and global_random(e.name):
            ctx.alarm("draw-provenance", where(e), "%s: %s (line %s) is not the supplied generator" % (what, e.name, e.site[1]))
    return n


def global_random(n):
    return n.startswith(("numpy.random.", "random.", "secrets.", "os.urandom", "uuid.uuid", "scipy.stats.")) and \
        n.split(".")[-1] not in ("default_rng", "Generator", "PCG64", "SeedSequence")


def roots_of(it, r):
    if r is None:
        return [C(None)]
    if r.op == "ite":
        return roots_of(it, r.a[1]) + roots_of(it, r.a[2])
    if r.op == "any":
        return [y for x in r.a for y in roots_of(it, x)]
    if r.op in ("lout", "last", "first", "phi"):
        return [y for x in (it.phidef.get(r) if r.op == "phi" else r.a[1:]) or () if isinstance(x, T) and x is not r and x.op != "phi"
                for y in roots_of(it, x)] or [r]
    return [r]


def describe(r):
    if r.op == "newrng":
        return "a generator created %s" % ("when the module was imported (a default argument)" if str(r.a[-1]).startswith("module") or
                                           "module" in repr(r) else "inside the call")
    if r.op == "ext":
        return "the process-global %s" % r.a[0]
    return "another object (%s)" % (r,)


def noise_scen(ctx, kind, kw, carrier):
    it = ctx.interp()
    code = sym_code(it) if carrier == "code" and kind != "macro" else (
        built_code(it) if carrier == "code" else sym_egraph(it))
    n = noise(it, kind, code, **noise_kw(kw))
    rng = S("rng")
    i0 = len(it.events)
    meth(it, n, "apply_noise", rng)
    cnt = judge(ctx, it, it.events[i0:], {rng}, nname(kind, kw))
    if cnt == 0:
        ctx.undecided("draw-provenance", nname(kind, kw), "no draw found")


def mc_scen(ctx, kind, mpi):
    it = ctx.interp(have_mpi=mpi)
    code = built_code(it) if kind == "macro" else sym_code(it)
    n = noise(it, kind, code)
    rank = S("rank", "int")
    i0 = len(it.events)
    d = it.lib.mkdict()
    it.setitem(d, C("weight_opts"), S("weight_opts"))
    call(it, SIM + "ec_monte_carlo", S("trials", "int"), code, n, C("MWPM"), d, S("comm"), rank, S("size", "int"))
    evs = it.events[i0:]
    news = [e for e in evs if e.kind == "newrng"]
    draws = [e for e in evs if e.kind == "draw"]
    allowed = set()
    what = "ec_monte_carlo(%s)" % kind
    for r in {x for e in draws for x in roots_of(it, e.root)}:
        if r.op == "newrng":
            mk_ = [e for e in news if e.root is r]
            if not mk_:
                ctx.alarm("per-run-generator", "ec_monte_carlo", "trials draw from %s, which is shared by all processes and runs" % describe(r))
                allowed.add(r)
                continue
            e = mk_[0]
            allowed.add(r)
            if e.loops:
                ctx.alarm("one-generator", where(e), "a new generator is created inside the trial loop (line %s)" % e.site[1])
            else:
                ctx.ok("one-generator", what)
            if not contains(r, lambda x: x is rank):
                if seeded(r):
                    ctx.alarm("rank-seed", where(e), "the generator seed (line %s) does not depend on the process rank: every "
                              "process repeats the same trials" % e.site[1])
                else:
                    ctx.ok("rank-seed", what + " (fresh entropy)")
            elif folds(r.a[0], rank):
                ctx.alarm("rank-seed", where(e), "the generator seed (line %s) maps different process ranks to the same stream" % e.site[1])
            else:
                ctx.ok("rank-seed", what)
    judge(ctx, it, evs, allowed, what)
    if not draws:
        ctx.undecided("draw-provenance", what, "no draw found")


def seeded(r):
    return r.a[0] is not NONE and r.a[0] is not mk("tuple")


def folds(r, rank):
    """The rank only enters through an operation that identifies different ranks."""
    lossy = ("floordiv", "mod", "ite", "truth", "eq", "lt", "le", "min", "max", "int", "abs")

    def go(x):
        if x is rank:
            return True
        if x.op in lossy:
            return False
        return any(go(c) for c in tm_children(x))
    return not go(r)


def viz_scen(ctx):
    for be in ("networkx", "rustworkx"):
        it = ctx.interp()
        code = sym_code(it, backend=be)
        i0 = len(it.events)
        ctx.scenario("correct (%s)" % be, call, it, DEC + "correct", code, C("MWPM"))
        judge(ctx, it, it.events[i0:], set(), "correct")
    it = ctx.interp()
    i0 = len(it.events)
    ctx.scenario("every public function of the package", every_function, ctx, it)
    judge_global(ctx, it, it.events[i0:], "public API")


def judge_global(ctx, it, evs, what):
    for e in evs:
        if e.kind == "draw" and any(r.op == "ext" for r in roots_of(it, e.root)):
            ctx.alarm("global-random", where(e), "%s: %s (line %s) uses the process-global random state" % (what, e.name, e.site[1]))

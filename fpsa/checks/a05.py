"""Escape and lifetime analysis: objects created when a module is imported (module-level containers,
class-level attributes, default argument values) live as long as the process; no public call may write
to one, rebind a module global, or put a mutable result in a memo table, because two codes, noise
layers or decodings would then influence each other."""
from ..scen import *
from ..terms import *
from ..effects import *

RULE = "no write effect reaches an import-time object; no call rebinds a module global; no memo table holds mutable or graph-dependent results"
ASSUMPTIONS = ["the shared default random generator (numpy state) is the one documented process-wide object"]


def run(ctx):
    ctx.scenario("every function and method of the package", everything, ctx)
    for ec in ("primal", "dual"):
        for bd in ("open", "toric", "periodic"):
            for be in ("networkx", "rustworkx"):
                ctx.scenario("two codes: %s %s %s" % (ec, bd, be), codes, ctx, ec, bd, be)
    for dec in ("MWPM", "UF"):
        for nz in ("iid", "cv", "macro"):
            for be in ("networkx", "rustworkx"):
                ctx.scenario("two pipelines: %s, %s, %s" % (nz, dec, be), pipe, ctx, dec, nz, be)
    for mpi in (False, True):
        ctx.scenario("run_ec_simulation MPI %s" % mpi, sim, ctx, mpi)


def preload(it):
    for m in PKG + ["", "utils", "codes", "noise", "decoders"]:
        it.load_module(("flamingpy." + m).rstrip("."))
    return it.nid


def judge(ctx, it, n0, evs, label):
    for e in evs:
        if e.kind == "write_global":
            ctx.alarm("module-global", "%s:%s" % (loc(e), e.name), "%s: module global %s is rebound (line %s)" % (label, e.name, e.site[1]))
        elif e.kind == "write_memo":
            v = e.val
            if v is not None and (v.op == "ref" or contains(v, lambda t: t.op in ("load", "nattr", "eattr", "adjv", "nview", "eview", "attr"))):
                ctx.alarm("memo-table", "%s:%s" % (loc(e), e.name), "%s: the memoised result of %s is mutable or depends on a mutable object" % (
                    label, e.name))
        elif e.kind in WRITES and e.root is not None:
            if e.kind == "aug" and e.extra == "rebind":
                continue
            for b in bases(it, e.root):
                if b.op == "ref" and b.a[0] <= n0:
                    o = it.st.heap.get(b.a[0])
                    s = o.site if o is not None else None
                    ctx.alarm("import-time-object", "%s:%s" % (loc(e), what_written(e)), "%s: an object created at import time (%s) is modified by %s (line %s)" % (
                        label, "%s:%s" % (s[0], s[1]) if s else "?", what_written(e), e.site[1]))
                elif b.op in ("cls", "fn", "module"):
                    ctx.alarm("class-attribute", "%s:%s" % (loc(e), what_written(e)), "%s: an attribute of a class, function or module is written (%s, line %s)" % (
                        label, what_written(e), e.site[1]))
    ctx.ok("no-shared-write", label)


def everything(ctx):
    it = ctx.interp()
    n0 = preload(it)
    i0 = len(it.events)
    every_function(ctx, it)
    judge(ctx, it, n0, it.events[i0:], "public API")


def codes(ctx, ec, bd, be):
    it = ctx.interp()
    n0 = preload(it)
    i0 = len(it.events)
    a = built_code(it, ec, bd, be)
    b = built_code(it, ec, bd, be)
    judge(ctx, it, n0, it.events[i0:], "SurfaceCode(%s, %s, %s)" % (ec, bd, be))


def pipe(ctx, dec, nz, be):
    it = ctx.interp()
    n0 = preload(it)
    i0 = len(it.events)
    for _ in range(2):
        c = built_code(it, backend=be) if nz == "macro" else sym_code(it, "code", backend=be)
        n = noise(it, nz, c)
        meth(it, n, "apply_noise", S("rng"))
        call(it, DEC + "correct", c, C(dec))
    judge(ctx, it, n0, it.events[i0:], "%s/%s/%s" % (nz, dec, be))


def sim(ctx, mpi):
    it = ctx.interp(have_mpi=mpi)
    n0 = preload(it)
    i0 = len(it.events)
    da = it.lib.mkdict()
    it.setitem(da, C("weight_opts"), S("weight_opts"))
    ca, na = it.lib.mkdict(), it.lib.mkdict()
    it.setitem(ca, C("distance"), S("d", "int"))
    it.setitem(na, C("error_probability"), S("p_err", "num"))
    call(it, SIM + "run_ec_simulation", S("trials", "int"), it.get(SCODE), ca, it.get(IID), na, C("MWPM"), da, S("fname"))
    judge(ctx, it, n0, it.events[i0:], "run_ec_simulation")

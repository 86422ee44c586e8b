"""Interprocedural mod/alias analysis: every public entry point is analysed on symbolic
arguments; any store, in-place operation or mutating call whose access path is rooted in a
plain-data argument (dictionary, list, array, option value) is a violation.  Entry points that
keep an argument (constructors) are followed by the methods that could write to it later."""
from ..scen import *
from ..terms import *
from ..effects import *

RULE = "no write effect reaches an object rooted in a caller's plain-data argument"
ASSUMPTIONS = ["numpy/networkx functions modelled as pure do not write to their array arguments"]

# function -> parameters that hold data the caller keeps owning
ENTRY = {
    "codes.surface_code": {"str_to_bound": None, "RHG_graph": None, "alternating_polarity": None, "dense_coords": None},
    "codes.graphs.egraph": {"macronize": ["can_graph"]},
    "cv.gkp": "all", "cv.ops": "all",
    "decoders.decoder": {"assign_weights": ["weight_options"], "recovery": ["decoder_func"], "check_correction": [],
                         "correct": ["weight_options", "decoder_opts"]},
    "decoders.mwpm.algos": {"mwpm_decoder": ["drawing_opts"]},
    "utils.graph_states": "all", "utils.linalg": "all",
}
VIZ = ["plot_integer_part", "plot_fractional_part", "plot_GKP_bins", "plot_Z_err_cond", "draw_EGraph", "draw_EGraph_matplotlib",
       "draw_EGraph_plotly", "plot_mat_heat_map", "draw_dec_graph", "syndrome_plot", "draw_decoding", "add_recovery_drawing"]


def run(ctx):
    for m, spec in ENTRY.items():
        it0 = ctx.interp()
        env = it0.load_module("flamingpy." + m) or {}
        names = [n for n, t in sorted(env.items()) if isinstance(t, T) and t.op == "fn" and not n.startswith("_") and
                 it0.funcs[t.a[0]].module == "flamingpy/" + m.replace(".", "/") + ".py"] if spec == "all" else list(spec)
        for n in names:
            if n in env:
                ctx.scenario("%s.%s" % (m, n), fn_scen, ctx, "flamingpy.%s:%s" % (m, n), spec[n] if isinstance(spec, dict) else None)
    for n in VIZ:
        ctx.scenario("viz." + n, fn_scen, ctx, "flamingpy.utils.viz:" + n, "noax")
    for carrier in ("code", "egraph"):
        for p in (None, "p"):
            for so in ("initial", "two-step"):
                ctx.scenario("CVLayer life cycle on %s, p_swap %s, %s" % (carrier, p, so), cv_scen, ctx, carrier, p, so)
    ctx.scenario("CVMacroLayer life cycle", macro_scen, ctx)
    ctx.scenario("SurfaceCode from a caller's distance list", code_scen, ctx)
    ctx.scenario("EGraph methods", eg_scen, ctx)
    for mpi in (False, True):
        ctx.scenario("run_ec_simulation, MPI %s" % mpi, sim_scen, ctx, mpi)
    ctx.scenario("correct with option dictionaries", correct_scen, ctx)


def judge(ctx, it, evs, owned, label):
    """owned: term -> argument name"""
    n = 0
    for e in evs:
        if e.kind not in WRITES or e.root is None:
            continue
        if e.kind == "aug" and e.extra == "rebind":
            continue
        n += 1
        for b in bases(it, e.root):
            if b in owned:
                ctx.alarm("argument-mutated", "%s:%s" % (loc(e), owned[b]), "%s: the caller's %r is modified (%s %s at line %s)" % (
                    label, owned[b], path_of(e.root), what_written(e), e.site[1]))
    for t, name in owned.items():
        ctx.ok("argument-unmodified", "%s(%s)" % (label, name))


def fn_scen(ctx, dotted, spec):
    it = ctx.interp()
    f = it.get(dotted)
    if f.op != "fn":
        return
    fn = it.funcs[f.a[0]]
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    own = {}
    args, kw = [], {}
    for x in names:
        t = S("arg:" + x)
        if x in ("code",):
            t = sym_code(it, "arg:code")
        elif x in ("egraph", "can_graph", "graph1", "graph2"):
            t = typed(it, "arg:" + x, EG)
        if x in [y.arg for y in a.kwonlyargs]:
            kw[x] = t
        else:
            args.append(t)
        if spec is None or spec == "noax" or x in spec:
            if x not in ("ax", "axes", "fig", "code", "egraph", "graph1", "graph2"):
                own[t] = x
    i0 = len(it.events)
    it.call(f, args, kw)
    judge(ctx, it, it.events[i0:], own, dotted.split("flamingpy.")[1].replace(":", "."))


def cv_scen(ctx, carrier, p, so):
    it = ctx.interp()
    code = sym_code(it) if carrier == "code" else sym_egraph(it)
    st = it.lib.mkdict()
    arr = S("user_indices")
    it.setitem(st, C("p"), arr if p is None else mk("vec"))
    kw = {"delta": S("delta", "num"), "states": st, "sampling_order": C(so)}
    if p:
        kw["p_swap"] = S("p_swap", "num")
    i0 = len(it.events)
    n = it.call(it.get(CV), [code], kw)
    meth(it, n, "apply_noise", S("rng"))
    meth(it, n, "apply_noise", S("rng"))
    m, c = S("user_means"), S("user_covs")
    if so == "initial":
        meth(it, n, "measure_hom", C("q"), S("user_inds"), m, c)
        meth(it, n, "hom_outcomes", S("user_inds"))
        meth(it, n, "bit_values", S("user_inds"))
    judge(ctx, it, it.events[i0:], {st: "states", arr: "states['p']", m: "updated_means", c: "updated_covs", S("user_inds"): "inds"}, "CVLayer")


def macro_scen(ctx):
    it = ctx.interp()
    code = built_code(it)
    st = it.lib.mkdict()
    arr = S("user_indices")
    it.setitem(st, C("p"), arr)
    meth(it, it.getattr(code, "graph"), "macronize")
    bs = S("bs_network")
    i0 = len(it.events)
    n = it.call(it.get(MACRO), [code], {"delta": S("delta", "num"), "states": st, "bs_network": bs})
    meth(it, n, "apply_noise", S("rng"))
    judge(ctx, it, it.events[i0:], {st: "states", arr: "states['p']", bs: "bs_network"}, "CVMacroLayer")


def code_scen(ctx):
    it = ctx.interp()
    d = it.lib.mklist([S("dx", "int"), S("dy", "int"), S("dz", "int")])
    i0 = len(it.events)
    it.call(it.get(SCODE), [d], {})
    judge(ctx, it, it.events[i0:], {d: "distance"}, "SurfaceCode")
    it = ctx.interp()
    d = it.lib.mklist([S("dx", "int"), S("dy", "int"), S("dz", "int")])
    b = it.lib.mklist([C("primal"), C("dual"), C("periodic")])
    i0 = len(it.events)
    call(it, "flamingpy.codes.surface_code:RHG_graph", d, b)
    judge(ctx, it, it.events[i0:], {d: "dims", b: "boundaries"}, "RHG_graph")


def eg_scen(ctx):
    it = ctx.interp()
    g = sym_egraph(it)
    nb = S("neighbors")
    i0 = len(it.events)
    f0 = it.st.fork()
    meth(it, g, "add_qubit", S("qubit"), nb, S("macro"))
    it.st = f0
    judge(ctx, it, it.events[i0:], {nb: "neighbors", S("qubit"): "qubit"}, "EGraph.add_qubit")


def sim_scen(ctx, mpi):
    it = ctx.interp(have_mpi=mpi)
    own = {}
    ds = []
    for nm in ("code_args", "noise_args", "decoder_args"):
        d = it.lib.mkdict()
        if nm == "code_args":
            it.setitem(d, C("distance"), S("d", "int"))
        if nm == "noise_args":
            it.setitem(d, C("error_probability"), S("p_err", "num"))
        if nm == "decoder_args":
            w = it.lib.mkdict()
            it.setitem(w, C("method"), C("uniform"))
            own[w] = "decoder_args['weight_opts']"
            it.setitem(d, C("weight_opts"), w)
        ds.append(d)
        own[d] = nm
    i0 = len(it.events)
    call(it, SIM + "run_ec_simulation", S("trials", "int"), it.get(SCODE), ds[0], it.get(IID), ds[1], C("MWPM"), ds[2], S("fname"))
    judge(ctx, it, it.events[i0:], own, "run_ec_simulation")


def correct_scen(ctx):
    for dec in ("MWPM", "UF"):
        it = ctx.interp()
        code = sym_code(it)
        w, d = S("weight_options_arg"), it.lib.mkdict()
        it.setitem(d, C("backend"), C("networkx"))
        w = it.lib.mkdict()
        it.setitem(w, C("method"), C("uniform"))
        i0 = len(it.events)
        call(it, DEC + "correct", code, C(dec), w, sanity_check=C(False), decoder_opts=d)
        judge(ctx, it, it.events[i0:], {w: "weight_options", d: "decoder_opts"}, "correct(%s)" % dec)

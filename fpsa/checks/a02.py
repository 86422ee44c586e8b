"""Abstract evaluation of every option-taking entry point with the option fixed to a value outside
its documented vocabulary: the rejecting branch must be reached on every path, so the abstract state
after the call must be unreachable.  A state that is reachable (and did not hand the value to an
external function that could reject it) is a violation."""
from ..scen import *
from ..terms import *
from ..effects import *

RULE = "a value outside an option's vocabulary never reaches a normal return"
ASSUMPTIONS = ["an option value equal to none of the documented ones is represented by one fresh constant"]
OTHER = C("__not_an_option__")
BOUNDS = tuple(p + "_" + b for p in ("open", "periodic") for b in ("primal", "dual")) + ("primal", "dual", "periodic")


# words of other options (and of other states of the code), wrong here however familiar
WORDS = list(BOUNDS) + ["open", "toric", "both", "all", "networkx", "rustworkx", "lemon", "MWPM", "UF", "uniform", "blueprint", "initial", "two-step",
                        "tensor", "global", "matplotlib", "plotly", "p", "GKP", "x", "z"]


def run(ctx):
    ecs, bds = ("primal", "dual"), ("open", "toric", "periodic")
    for bd in bds:
        opt(ctx, "SurfaceCode(ec=?, boundaries=%s)" % bd, lambda it, v, bd=bd: built_code(it, v.a[0], bd), ecs)
    for ec in ("primal", "dual"):
        opt(ctx, "SurfaceCode(ec=%s, boundaries=?)" % ec, lambda it, v, ec=ec: built_code(it, ec, v.a[0]), bds)
        opt(ctx, "SurfaceCode(ec=%s, backend=?)" % ec, lambda it, v, ec=ec: built_code(it, ec, "open", v.a[0]), ("networkx", "rustworkx"))
    opt(ctx, "SurfaceCode(distance=two numbers)", lambda it, v: it.call(it.get(SCODE), [mk("tuple", S("dx", "int"), S("dy", "int"))], {}))
    opt(ctx, "str_to_bound(?)", lambda it, v: call(it, "flamingpy.codes.surface_code:str_to_bound", v), BOUNDS)
    opt(ctx, "RHG_graph(boundaries=?)", lambda it, v: call(it, "flamingpy.codes.surface_code:RHG_graph", DIMS(), v), BOUNDS)
    for c in ("code", "egraph"):
        opt(ctx, "CVLayer(sampling_order=?) on %s" % c, lambda it, v, c=c: it.call(
            it.get(CV), [sym_code(it) if c == "code" else sym_egraph(it)], {"delta": S("delta", "num"), "sampling_order": v}), ("initial", "two-step"))
    for dec in ("MWPM", "UF"):
        opt(ctx, "assign_weights(%s, method=?)" % dec, lambda it, v, dec=dec: call(it, DEC + "assign_weights", sym_code(it), C(dec), method=v),
            ("uniform", "blueprint"))
    opt(ctx, "assign_weights(UF, method=blueprint)", lambda it, v: call(it, DEC + "assign_weights", sym_code(it), C("UF"), method=C("blueprint")))
    opt(ctx, "are_lc_equivalent(clifford_form=?)", lambda it, v: call(
        it, "flamingpy.utils.linalg:are_lc_equivalent", typed(it, "g1", EG), typed(it, "g2", EG), v), ("tensor", "global"))
    for p in (C(-0.25), C(1.5), C(-1e-9), C(1 + 1e-9), C(2), C(-1), C(100)):
        opt(ctx, "IidNoise(error_probability=%s)" % p.a[0], lambda it, v, p=p: it.call(it.get(IID), [sym_code(it), p], {}))
    for d in (C(0.5), C(0.75), C(-0.25), C(1)):
        opt(ctx, "macronize(disp=%s)" % d.a[0], lambda it, v, d=d: call(it, "flamingpy.codes.graphs.egraph:macronize", sym_egraph(it), disp=d))
    opt(ctx, "draw_EGraph(backend=?)", lambda it, v: call(it, "flamingpy.utils.viz:draw_EGraph", sym_egraph(it), v), ("matplotlib", "plotly"))
    for bad in (C(0), C(-1), C(-3), C(2.5), C(1.0), C(0.5), C("3")):
        for g in ("star_graph", "complete_graph", "ring_graph", "linear_cluster", "star", "complete", "ring"):
            name = "flamingpy.utils.graph_states:" + g

            def f(it, v, name=name, bad=bad):
                return call(it, name, bad)
            itx = ctx.interp()
            if itx.get(name, required=False) is not None:
                opt(ctx, "%s(%r)" % (g, bad.a[0]), f)
    # an option the decoder does not know
    opt(ctx, "correct(decoder=?)", lambda it, v: call(it, DEC + "correct", sym_code(it), v), ("MWPM", "UF"))
    MB = ("networkx", "rustworkx", "lemon")
    for ec in ecs:
        opt(ctx, "build_match_graph(%s, matching_backend=?)" % ec, lambda it, v, ec=ec: call(
            it, "flamingpy.decoders.mwpm.algos:build_match_graph", sym_code(it), C(ec), v), MB)
    opt(ctx, "mwpm_decoder(backend=?)", lambda it, v: call(
        it, "flamingpy.decoders.mwpm.algos:mwpm_decoder", sym_code(it), C("primal"), backend=v), MB)
    opt(ctx, "correct(decoder_opts backend=?)", lambda it, v: call(
        it, DEC + "correct", sym_code(it), C("MWPM"), decoder_opts=backend(it, v)), MB)
    # combinations
    st = lambda it: states(it)
    opt(ctx, "CVLayer(p_swap and p indices)", lambda it, v: it.call(
        it.get(CV), [sym_code(it)], {"delta": S("delta", "num"), "p_swap": C(0.25), "states": st(it)}))


def backend(it, v):
    d = it.lib.mkdict()
    it.setitem(d, C("backend"), v)
    return d


def states(it):
    d = it.lib.mkdict()
    it.setitem(d, C("p"), mk("vec", C(1), C(2)))
    return d


def mentions(x, val):
    return isinstance(x, T) and contains(x, lambda y: y is val)


def near(vocab):
    """Values outside the vocabulary that look like one of its words."""
    out = []
    for v in vocab:
        out += [v.upper(), v.title(), v + " ", " " + v, v[:-1], v[1:], v[:1], v + "s", v + v]
    out += [v + "," + w for v in vocab for w in vocab if v != w] + [v + w for v in vocab for w in vocab if v != w]
    return [v for v in dict.fromkeys(out + WORDS) if v not in vocab and v]


def opt(ctx, label, fn, vocab=()):
    ctx.scenario(label, one_opt, ctx, label, fn, OTHER)
    for v in near(vocab):
        l = label.replace("?", repr(v))
        ctx.scenario(l, one_opt, ctx, l, fn, C(v))


def one_opt(ctx, label, fn, val):
    it = ctx.interp()
    i0 = len(it.events)
    fn(it, val)
    evs = it.events[i0:]
    if it.st.dead:
        r = [e for e in evs if e.kind == "raise"]
        ctx.ok("rejected", "%s (%s in %s)" % (label, r[-1].name if r else "raise", r[-1].site[2] if r else "?"))
        return
    if [e for e in evs if e.kind in ("index_error", "none_call", "attr_missing") and not e.guard]:
        ctx.ok("rejected", label + " (lookup failure)")
        return
    if [e for e in evs if e.kind == "callback" and e.root is val and not e.guard]:
        ctx.ok("rejected", label + " (a string is not callable)")
        return
    ext = [e for e in evs if e.kind in ("extcall", "callback", "mcall") and (mentions(e.val, val) or mentions(e.root, val))]
    if ext:
        ctx.undecided("rejected", label, "the value is handed to %s" % ext[0].name)
        return
    anch = [e for e in evs if e.kind == "enter"]
    ctx.alarm("option-accepted", label.replace(" ", "_"), "%s: the value is accepted silently (entry %s)" % (
        label, "%s:%s" % (anch[0].site[0], anch[0].name) if anch else "?"))

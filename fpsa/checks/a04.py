"""Effect analysis of the drawing and inspection entry points on a symbolic code and graph state:
no write effect may reach the drawn object (lazily computed index and adjacency caches excepted), and
no process-wide plotting configuration may be changed outside a restoring context."""
from ..scen import *
from ..terms import *
from ..effects import *

RULE = "drawing and read-only queries have no write effect on the drawn object or on process-wide plotting state"
ASSUMPTIONS = ["matplotlib and plotly calls only write to figures and axes"]
CACHES = {"to_indices", "to_points", "adj_mat"}
VIZ = [("draw_EGraph", {}), ("draw_EGraph_matplotlib", {}), ("draw_EGraph_plotly", {}), ("plot_mat_heat_map", {}), ("draw_dec_graph", {}),
       ("syndrome_plot", {}), ("draw_decoding", {}), ("add_recovery_drawing", {}), ("plot_integer_part", {}), ("plot_fractional_part", {}),
       ("plot_GKP_bins", {}), ("plot_Z_err_cond", {})]
RC = ("matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.rcParams.update", "matplotlib.pyplot.rc", "matplotlib.use", "matplotlib.pyplot.rcParams.update",
      "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.pyplot.rcdefaults", "matplotlib.pyplot.switch_backend",
      "matplotlib.pyplot.xkcd", "warnings.simplefilter", "warnings.filterwarnings", "locale.setlocale", "os.chdir")


def run(ctx):
    for n, _ in VIZ:
        for be in ("networkx", "rustworkx"):
            ctx.scenario("viz.%s (%s)" % (n, be), viz, ctx, n, be)
    for be in ("networkx", "rustworkx"):
        for ec in ("primal", "dual"):
            for w in ("MWPM", "UF"):
                ctx.scenario("draw_decoding of a %s %s decoding (%s)" % (ec, w, be), dec_draw, ctx, ec, w, be)
    ctx.scenario("object methods that draw or inspect", methods, ctx)
    ctx.scenario("importing the plotting module", load, ctx)


def protected(it, e):
    for nm in e.stack:
        for f in it.funcs.values():
            if f.qual == nm and any("rc_context" in ast_name(d) for d in f.node.decorator_list if hasattr(f.node, "decorator_list")):
                return True
    return False


def ast_name(d):
    import ast
    return ast.dump(d)


def judge(ctx, it, evs, own, label):
    depth = 0
    for e in evs:
        if e.kind == "with_enter" and "rc_context" in repr(e.root):
            depth += 1
        if e.kind == "with_exit" and "rc_context" in repr(e.root):
            depth -= 1
        if e.kind in WRITES and e.root is not None:
            if e.kind == "aug" and e.extra == "rebind":
                continue
            for b in bases(it, e.root):
                if b in own and not (e.kind == "write_attr" and e.name in CACHES) and not refresh(e):
                    ctx.alarm("drawing-writes", "%s:%s" % (loc(e), what_written(e)), "%s: %s of %s is modified (line %s)" % (
                        label, what_written(e), path_of(e.root), e.site[1]))
                if b.op == "ext" and depth == 0 and not protected(it, e) and "plotly" not in b.a[0]:
                    ctx.alarm("global-plot-state", loc(e), "%s: process-wide %s is modified (line %s)" % (label, b.a[0], e.site[1]))
        if e.kind == "extcall" and e.name in RC and depth == 0 and not protected(it, e):
            ctx.alarm("global-plot-state", loc(e), "%s: %s (line %s) changes process-wide state" % (label, e.name, e.site[1]))
    ctx.ok("no-write", label)


def refresh(e):
    """A derived weight (stabilizer edge := weight of its common qubit) is recomputed, not changed."""
    if e.kind != "write_item" or e.key is not C("weight") or e.root is None or e.root.op != "eattr":
        return False
    return e.val is C(0) or contains(e.val, lambda t: t is C("weight"))


def viz(ctx, n, be):
    it = ctx.interp()
    f = it.get("flamingpy.utils.viz:" + n)
    if f.op != "fn":
        return
    fn = it.funcs[f.a[0]]
    a = fn.node.args
    args, own = [], set()
    for x in [y.arg for y in a.posonlyargs + a.args]:
        t = S("arg:" + x)
        if x == "code":
            t = sym_code(it, "arg:code", backend=be)
            own.add(t)
        elif x == "egraph":
            t = typed(it, "arg:egraph", EG)
            own.add(t)
        elif x in ("graph", "mat", "xs", "ns", "fs", "outcomes", "bit_values", "hom_val", "error"):
            own.add(t)
        args.append(t)
    i0 = len(it.events)
    it.call(f, args, {})
    judge(ctx, it, it.events[i0:], own, "viz.%s (%s)" % (n, be))


def dec_draw(ctx, ec, w, be):
    it = ctx.interp()
    code = sym_code(it, "code", backend=be)
    i0 = len(it.events)
    meth(it, it.getattr(code, ec + "_stab_graph"), "draw")
    o = it.lib.mkdict()
    i1 = len(it.events)
    call(it, "flamingpy.utils.viz:draw_decoding", code, C(ec), o, S("drawing_opts"))
    judge(ctx, it, it.events[i0:], {code}, "draw_decoding(%s, %s)" % (ec, be))


def methods(ctx):
    for be in ("networkx", "rustworkx"):
        it = ctx.interp()
        code = sym_code(it, "code", backend=be)
        i0 = len(it.events)
        for n in ("draw_stabilizers", "draw"):
            st = it.st.fork()
            ctx.scenario("SurfaceCode.%s (%s)" % (n, be), draw_m, it, code, n)
            it.st = st
        g = it.getattr(code, "graph")
        for n in ("draw", "draw_adj", "slice_coords"):
            st = it.st.fork()
            ctx.scenario("EGraph.%s" % n, draw_m, it, g, n)
            it.st = st
        sg = it.getattr(code, "primal_stab_graph")
        for n in ("to_nx", "nodes", "edges", "real_nodes", "real_edges", "odd_parity_stabilizers", "has_bound_points", "draw"):
            st = it.st.fork()
            ctx.scenario("StabilizerGraph.%s (%s)" % (n, be), draw_m, it, sg, n)
            it.st = st
        judge(ctx, it, it.events[i0:], {code}, "methods (%s)" % be)
    it = ctx.interp()
    code = sym_code(it)
    n = noise(it, "cv", code)
    i0 = len(it.events)
    for m in ("draw", "draw_SCZ", "hom_outcomes", "bit_values", "SCZ"):
        st = it.st.fork()
        ctx.scenario("CVLayer.%s" % m, draw_m, it, n, m)
        it.st = st
    judge(ctx, it, it.events[i0:], {code, n}, "CVLayer inspection")


def draw_m(it, o, n):
    a = []
    if n == "slice_coords":
        a = [C("z"), S("number", "int")]
    m = it.getattr(o, n)
    if m.op in ("bm", "fn", "bmx"):
        return it.call(m, a, {})


def load(ctx):
    it = ctx.interp()
    it.quiet = -1
    i0 = len(it.events)
    it.load_module("flamingpy.utils.viz")
    it.quiet = 0
    judge(ctx, it, it.events[i0:], set(), "import of the plotting module")

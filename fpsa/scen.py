"""Abstract entry points (scenarios): public API calls on symbolic inputs."""
from .terms import *
from .interp import Vanished

SCODE = "flamingpy.codes.surface_code:SurfaceCode"
EG = "flamingpy.codes.graphs.egraph:EGraph"
IID = "flamingpy.noise.iid:IidNoise"
CV = "flamingpy.noise.cv:CVLayer"
MACRO = "flamingpy.noise.cv:CVMacroLayer"
DEC = "flamingpy.decoders.decoder:"
SIM = "flamingpy.simulations:"

DIMS = lambda: mk("tuple", S("dx", "int"), S("dy", "int"), S("dz", "int"))


def call(it, f, *a, **k):
    if isinstance(f, str):
        f = it.get(f)
    return it.call(f, list(a), k)


def meth(it, o, n, *a, **k):
    return it.call(it.getattr(o, n), list(a), k)


def typed(it, name, dotted):
    t = S(name)
    it.lib.types[t] = it.get(dotted)
    return t


def snippet(it, src, *args):
    """Run a scenario step written as a function f(...) (set-up of inputs, sequences of public calls)."""
    n = "<scenario %d>" % len(it.virtual)
    it.virtual = dict(it.virtual, **{n: src})
    return it.call(it.load_module(n)["f"], list(args), {})


def set_node_attrs(it, G, **attrs):
    """Give every vertex of G the attribute values of the named symbolic tables."""
    for a, tab in attrs.items():
        snippet(it, "def f(G, t):\n    for n in G.nodes:\n        G.nodes[n][%r] = t[n]\n" % a, G, S(tab))


def sym_egraph(it, name="G"):
    return typed(it, name, EG)


def sym_code(it, name="code", ecs=("primal",), backend="networkx"):
    """A symbolic surface code whose attributes have their declared classes."""
    c = typed(it, name, SCODE)
    it.lib.types[mk("attr", c, "graph")] = it.get(EG)
    sg = it.get("flamingpy.codes.graphs.stabilizer_graph:%sStabilizerGraph" % ("Nx" if backend == "networkx" else "Rx"))
    for e in ("primal", "dual"):
        it.lib.types[mk("attr", c, e + "_stab_graph")] = sg
    return c


def built_code(it, ec="primal", bd="open", backend="networkx", **k):
    kw = {"ec": C(ec), "boundaries": C(bd), "backend": C(backend)}
    kw.update(k)
    return it.call(it.get(SCODE), [DIMS()], kw)


def noise(it, kind, code, **k):
    if kind == "iid":
        return it.call(it.get(IID), [code, S("p_err", "num")], {})
    kw = {"delta": S("delta", "num"), "p_swap": S("p_swap", "num")}
    kw.update(k)
    if kind == "cv":
        return it.call(it.get(CV), [code], kw)
    if kind == "macro":
        meth(it, it.getattr(code, "graph"), "macronize")
        return it.call(it.get(MACRO), [code], kw)
    raise ValueError(kind)


NOISES = [("iid", {}), ("cv", {}), ("cv", {"sampling_order": C("two-step")}), ("cv", {"states": "states"}), ("macro", {}),
          ("cv", {"sampling_order": C("final")}), ("macro", {"p_swap": C(0)}), ("cv", {"p_swap": C(0)}), ("cv", {"p_swap": C(1)})]


def noise_kw(kw):
    return {k: (S("states_arg") if v == "states" else v) for k, v in kw.items()}


def nname(kind, kw):
    return kind + "".join(",%s=%s" % (k, v if isinstance(v, str) else v.a[0]) for k, v in kw.items())


PKG = ["codes.graphs.egraph", "codes.stabilizer", "codes.graphs.stabilizer_graph", "codes.surface_code", "noise.iid", "noise.cv",
       "cv.gkp", "cv.ops", "decoders.decoder", "decoders.mwpm.matching", "decoders.mwpm.lemon", "decoders.mwpm.algos",
       "decoders.unionfind.uf_classes", "decoders.unionfind.algos", "simulations", "utils.viz", "utils.linalg", "utils.graph_states"]


def every_function(ctx, it, mods=PKG, pred=None):
    """Analyse every function and method of the package on fully symbolic arguments."""
    n = 0
    for m in mods:
        env = it.load_module("flamingpy." + m)
        if env is None:
            continue
        for name, t in sorted(env.items()):
            if not isinstance(t, T):
                continue
            if t.op == "fn" and it.funcs[t.a[0]].module == "flamingpy/" + m.replace(".", "/") + ".py":
                n += one(ctx, it, t, [], m + "." + name)
            elif t.op == "cls" and it.classes[t.a[0]].module == "flamingpy/" + m.replace(".", "/") + ".py":
                c = it.classes[t.a[0]]
                selfv = S("self:" + name)
                it.lib.types[selfv] = t
                for mn, mt in sorted(c.methods.items()):
                    if mt.op == "fn":
                        n += one(ctx, it, mt, [selfv], "%s.%s.%s" % (m, name, mn))
    return n


def one(ctx, it, ft, pre, label):
    fn = it.funcs[ft.a[0]]
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    args = list(pre) + [S("arg:" + x) for x in names[len(pre):]]
    kw = {x.arg: S("arg:" + x.arg) for x in a.kwonlyargs}
    st = it.st.fork()
    ctx.scenario(label, it.call, ft, args, kw, limit=60)
    it.st = st
    return 1

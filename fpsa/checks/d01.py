"""Closed-form extraction of the weights assign_weights leaves on qubits and on stabilizer graph edges, over symbolic
dimensions, squeezing labels and error probabilities, compared with the documented weighting rules."""
import math
import sys

from ..scen import *
from ..terms import *
from ..forms import *
from .l02 import lst

RULE = "every syndrome qubit and every stabilizer graph edge carries the weight its decoder and options call for"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions, labels and probabilities (random interpretation)",
               "the analytic error probability (Z_err_cond) is an uninterpreted function of its arguments"]
FN = "flamingpy/decoders/decoder.py:assign_weights[%s, %s, %s, %s]"

MODES = [("MWPM", "uniform", {}), ("UF", "uniform", {}),
         ("MWPM", "blueprint", {"prob_precomputed": C(True)}),
         ("MWPM", "blueprint", {"delta": S("delta", "num")}),
         ("MWPM", "blueprint", {"prob_precomputed": C(True), "integer": C(True), "multiplier": S("mult", "int")}),
         ("MWPM", "blueprint", {"delta": S("delta", "num"), "integer": C(True), "multiplier": S("mult", "int")}),
         ("MWPM", "default", {}), ("UF", "default", {})]


def name(m):
    return m[1] + "".join("," + k for k in sorted(m[2]))


def run(ctx):
    full = ctx.tier == "thorough"
    for n, ((bd, ec), b) in enumerate(LT.BOUNDS.items()):
        for j, m in enumerate(MODES):
            be = ("networkx", "rustworkx")[(n + j) % 2]
            for be in (("networkx", "rustworkx") if full else (be,)):
                ctx.scenario("assign_weights(%s, %s, %s, %s)" % (ec, bd, m[0], name(m)), weights, ctx, bd, ec, b, m, be)
    for bd, ec in (("open", "primal"), ("periodic", "dual")):
        for j, m in enumerate(MODES[:3]):
            m2 = MODES[(j + 1) % 3]
            ctx.scenario("reassign(%s, %s, %s after %s)" % (ec, bd, m[0] + " " + name(m), m2[0] + " " + name(m2)), weights, ctx, bd, ec, LT.BOUNDS[bd, ec], m,
                         "networkx", m2)


def assign(it, c, m):
    kw = dict(m[2]) if m[1] == "default" else dict(m[2], method=C(m[1]))
    call(it, DEC + "assign_weights", c, C(m[0]), **kw)


def weights(ctx, bd, ec, bounds, m, be, before=None):
    it = ctx.interp()
    it.stubs = {"Z_err_cond": lambda args, kw: mk("call", mk("ext", "Z_err_cond"), *args, *[mk("kw", k, v) for k, v in sorted(kw.items())])}
    c = built_code(it, ec, bd, be)
    G = it.getattr(c, "graph")
    sg = it.getattr(c, ec + "_stab_graph")
    set_node_attrs(it, G, state="states")
    if before:
        assign(it, c, before)
    assign(it, c, m)
    k, u, v = S("?node"), S("?u"), S("?v")
    W = it.lib.val(nattr_term(it, G, k, "weight"))
    E = it.lib.val(meth(it, sg, "edges"))
    ed = meth(it, sg, "edge_data", u, v)
    EW, EC = it.lib.val(it.getitem(ed, C("weight"))), it.lib.val(it.getitem(ed, C("common_vertex")))
    where = FN % (m[0] + " " + name(m), ec, bd, be) + (":reassigned" if before else "")
    for dims in dims_of(ctx.tier)[:2]:
        syn = sorted(LT.syndrome(ec, bounds, dims))
        adj = {}
        for e in LT.edges(bounds, dims):
            a, b = tuple(e)
            adj.setdefault(a, set()).add(b)
            adj.setdefault(b, set()).add(a)
        at = "with dimensions %s" % (dims,)
        state = lambda p: "p" if hnum("st", p) * 997 % 1 < (0.3 if sum(p) % 3 else 0.75) else "GKP"
        hom = lambda p: (hnum("hom", p) - 0.5) * 6
        def prob(p):
            x = hnum("prob", p)
            return 0 if x < 0.1 else (0.5 + x / 10 if x > 0.9 else x / 2)
        delta, mult = 0.05, 7
        cells = {"state": state, "p_phase_cond": prob, "hom_val_p": hom}

        def spec(p):
            pc = sum(1 for q in adj[p] if state(q) == "p")
            if m[1] in ("uniform", "default"):
                return 1 if m[0] == "MWPM" else (2 if pc in (0, 1) else -1)
            if pc in (0, 1):
                if "prob_precomputed" in m[2]:
                    e = prob(p)
                else:
                    e = hnum("call", "Z_err_cond", ((len(adj[p]) + 1) * delta, hom(p)), ())
                e = min(e, 0.5) or sys.float_info.min
            else:
                e = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}[pc]
            w = -math.log(e)
            return round(mult * w) if "integer" in m[2] else w

        f = Form(it, dict(dsyms(dims), delta=delta, mult=mult, states={p: state(p) for p in adj}), cell=lambda typ, a, p: cells[a](p) if typ == "n" and a in cells else None)
        f.r.norm = lambda x: tuple(sorted(x, key=repr)) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (tuple, str)) else x

        def same(x, w):
            return isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x - w) <= 1e-9 * max(1, abs(w))

        def qubits():
            for p in syn:
                x = f.r.ev(W, {k: p})
                if x is None or not same(x, spec(p)):
                    return "qubit %s (%d p-squeezed neighbours) has weight %s instead of %s" % (
                        p, sum(1 for q in adj[p] if state(q) == "p"), "none" if x is None else x, spec(p))

        def edges():
            for e in lst(f.r.ev(E, {}), "edges"):
                a, b = [freeze(x) for x in e]
                for x, y in ((a, b), (b, a)):
                    env = {u: x, v: y}
                    q = freeze(f.r.ev(EC, env))
                    w = f.r.ev(EW, env)
                    want = 0 if ("low" in (x, y) or "high" in (x, y)) else spec(q)
                    if not same(w, want):
                        return "the stabilizer graph edge of qubit %s has weight %s instead of %s" % (q, w, want)
        if decide(ctx, "qubit-weight", where, qubits, at, undef=True):
            decide(ctx, "edge-weight", where, edges, at, undef=True)

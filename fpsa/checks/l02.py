"""Closed-form extraction of the stabilizer lists, syndrome coordinates, indices and parities that SurfaceCode
stores, over symbolic dimensions, compared with the definition: one stabilizer per cube of the error complex,
supported on the face qubits present in the lattice (identified across periodic boundaries)."""
from ..scen import *
from ..terms import *
from ..forms import *

RULE = "stabilizer supports, syndrome qubits, indices and parities equal their definition in every configuration"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions with pairwise different axes (random interpretation)"]
FN = "flamingpy/codes/surface_code.py:SurfaceCode[%s, %s]"


def run(ctx):
    for (bd, ec), b in LT.BOUNDS.items():
        for be in ("networkx", "rustworkx"):
            ctx.scenario("SurfaceCode(%s, %s, %s)" % (ec, bd, be), code, ctx, bd, ec, b, be)


def lst(x, what):
    if not isinstance(x, (list, tuple, frozenset, set)):
        raise Unsup(what)
    return list(x)


def code(ctx, bd, ec, bounds, be):
    it = ctx.interp()
    c = built_code(it, ec, bd, be)
    ga = lambda n: it.lib.val(it.getattr(c, n))
    stabs, syn, inds = ga(ec + "_stabilizers"), ga(ec + "_syndrome_coords"), ga(ec + "_syndrome_inds")
    allc, alli = ga("all_syndrome_coords"), ga("all_syndrome_inds")
    g = it.getattr(c, "graph")
    tp = it.lib.val(it.getattr(g, "to_points"))
    gen = None
    r = it.lib.iterate(it.getattr(c, ec + "_stabilizers"))
    if len(r) == 1:
        gen = r[0][2]
    par = it.getattr(gen, "parity") if gen is not None else None
    crd = it.lib.val(meth(it, gen, "coords")) if gen is not None else None
    mid = it.lib.val(meth(it, gen, "midpoint")) if gen is not None else None
    # the parity read again after the bit value of one qubit has been flipped
    par2, q = None, None
    if gen is not None:
        q = S("q")
        call(it, DEC + "recovery", it.lib.mklist([q]), c, C(ec))
        par2 = it.getattr(gen, "parity")
    where = FN % (ec, bd)
    for dims in dims_of(ctx.tier):
        at = "with dimensions %s" % (dims,)
        f = Form(it, dsyms(dims), cell=cell)
        S_ = LT.supports(ec, bounds, dims)
        sup, want = dict(S_), LT.syndrome(ec, bounds, dims)

        def sts():
            r = []
            for v in lst(f.val(stabs), "stabilizers"):
                if not (isinstance(v, tuple) and len(v) == 3 and v[0] == "obj"):
                    raise Unsup("stabilizer value")
                r.append(v)
            return r

        def env(v):
            e = {}
            if gen.op == "ref":
                o = it.obj(gen)
                for l, x in zip(o.aloops, v[2]):
                    e[l.a[0]] = x
            else:
                e[gen] = v
            return e

        def centre(v):
            ph = lst(f.r.field(v, "physical"), "physical")
            return tuple(sum(p[i] for p in ph) / len(ph) for i in range(3))

        def supports():
            got = sorted(sorted(f.r.field(v, "egraph").nodes) for v in sts())
            w = sorted(sorted(s) for s in sup.values())
            if got == w:
                return None
            if len(got) != len(w):
                return "%d stabilizers instead of %d" % (len(got), len(w))
            x = [s for s in got if s not in w]
            return "stabilizer on %s is none of the cubes" % (x[0] if x else "a repeated support")

        def centres():
            for v in sts():
                m = centre(v)
                if m not in sup:
                    return "a stabilizer is placed at %s, which is no cube centre" % (m,)
                if set(f.r.field(v, "egraph").nodes) != sup[m]:
                    return "the stabilizer of the cube at %s acts on %s" % (m, sorted(f.r.field(v, "egraph").nodes))

        def coords():
            for v in sts():
                x = f.r.ev(crd, env(v))
                if set(lst(x, "coords")) != set(f.r.field(v, "egraph").nodes):
                    return "coords() gives %s" % (x,)

        def parity():
            for v in sts():
                x = f.r.ev(par, env(v))
                w = sum(bit(p) for p in f.r.field(v, "egraph").nodes) % 2
                if x != w:
                    return "the parity of the stabilizer on %s is %s, not the XOR of its bit values" % (sorted(f.r.field(v, "egraph").nodes), x)

        def reread():
            for v in sts()[:3]:
                ns = sorted(f.r.field(v, "egraph").nodes)
                q = ns[len(ns) // 2]
                f2 = Form(it, dict(dsyms(dims), q=q), cell=cell)
                x = f2.r.ev(par2, env(v))
                w = (1 + sum(bit(p) for p in ns)) % 2
                if x != w:
                    return "after flipping %s the parity of the stabilizer on %s still reads %s" % (q, ns, x)

        def syndrome(t=syn):
            x = lst(f.val(t), "syndrome")
            if t is syn and len(x) != len(set(x)):
                return "a syndrome qubit is listed twice"
            return setdiff(x, want, "qubit")

        def indices(t=inds):
            P = f.val(tp)
            x = lst(f.val(t), "indices")
            bad = [i for i in x if i not in P]
            if bad:
                return "index %s belongs to no vertex" % bad[0]
            return setdiff([P[i] for i in x], want, "qubit")
        if decide(ctx, "stabilizer-supports", where, supports, at) and gen is not None:
            decide(ctx, "stabilizer-centres", where, centres, at)
            decide(ctx, "stabilizer-coords", where, coords, at)
            decide(ctx, "stabilizer-parity", where, parity, at)
            decide(ctx, "stabilizer-parity-current", where, reread, at)
        decide(ctx, "syndrome-coords", where, syndrome, at)
        decide(ctx, "syndrome-indices", where, indices, at)
        decide(ctx, "all-syndrome-coords", where, lambda: syndrome(allc), at)
        decide(ctx, "all-syndrome-indices", where, lambda: indices(alli), at)


def cell(typ, a, k):
    return bit(k) if (typ, a) == ("n", "bit_val") else None


def bit(p):
    return int(hnum("bit", p) * 1000) % 2

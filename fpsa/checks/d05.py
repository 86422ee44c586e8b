"""Effect analysis of decoding and correction: the transitive write effects of every decoding entry
point on the code are exactly the decoder's own annotations - qubit weights, derived stabilizer-edge
weights and, in the recovery only, bit values; the lattice, stabilizers, syndrome and boundary data,
state labels and measurement outcomes are never written."""
from ..scen import *
from ..terms import *
from ..effects import *

RULE = "write effects of decoding on the code are confined to weights and (in the recovery) bit values"
ASSUMPTIONS = ["rustworkx and networkx algorithms called by the decoders do not modify the graphs they are given"]
CACHES = {"to_indices", "to_points", "adj_mat"}


def run(ctx):
    for be in ("networkx", "rustworkx"):
        for dec in ("MWPM", "UF"):
            for m in ("uniform", "blueprint") if dec == "MWPM" else ("uniform",):
                for flags in ((), ("sanity_check",), ("draw",)):
                    ctx.scenario("correct(%s, %s, %s%s)" % (be, dec, m, "".join(", " + f for f in flags)), corr, ctx, be, dec, m, flags)
        for ec in ("primal", "dual"):
            for mb in ("networkx", "rustworkx", "lemon"):
                ctx.scenario("mwpm_decoder(%s code, %s, %s)" % (be, ec, mb), decoder, ctx, be, ec, "mwpm", mb)
            ctx.scenario("uf_decoder(%s code, %s)" % (be, ec), decoder, ctx, be, ec, "uf", None)
        ctx.scenario("check_correction(%s)" % be, check, ctx, be)


def judge(ctx, it, evs, code, label, allow):
    n = 0
    for e in evs:
        if e.kind not in WRITES or e.root is None or (e.kind == "aug" and e.extra == "rebind") or e.kind == "aug":
            continue
        if code not in bases(it, e.root):
            continue
        n += 1
        if e.kind == "write_attr" and e.name in CACHES:
            continue
        key = e.key.a[0] if e.kind == "write_item" and e.key is not None and isc(e.key) else None
        if e.kind == "write_item" and e.root.op in ("nattr", "eattr", "adjv", "item", "get", "load") and key in allow:
            ctx.ok("confined", "%s writes %s" % (loc(e), key))
            continue
        ctx.alarm("decoding-writes", "%s:%s" % (loc(e), what_written(e)), "%s: %s of %s is modified (line %s)" % (
            label, what_written(e), path_of(e.root), e.site[1]))
    ctx.ok("confined", label)


def corr(ctx, be, dec, m, flags):
    it = ctx.interp()
    code = sym_code(it, "code", backend=be)
    w = it.lib.mkdict()
    it.setitem(w, C("method"), C(m))
    if m == "blueprint":
        it.setitem(w, C("delta"), S("delta", "num"))
    kw = {f: C(True) for f in flags}
    i0 = len(it.events)
    call(it, DEC + "correct", code, C(dec), w, **kw)
    judge(ctx, it, it.events[i0:], code, "correct(%s, %s)" % (dec, m), {"weight", "bit_val"})


def decoder(ctx, be, ec, kind, mb):
    it = ctx.interp()
    code = sym_code(it, "code", backend=be)
    i0 = len(it.events)
    if kind == "mwpm":
        call(it, "flamingpy.decoders.mwpm.algos:mwpm_decoder", code, C(ec), C(mb))
    else:
        call(it, "flamingpy.decoders.unionfind.algos:uf_decoder", code, C(ec))
    judge(ctx, it, it.events[i0:], code, "%s_decoder(%s)" % (kind, mb or ec), set())


def check(ctx, be):
    it = ctx.interp()
    code = sym_code(it, "code", backend=be)
    i0 = len(it.events)
    call(it, DEC + "check_correction", code)
    st = S("sanity")
    call(it, DEC + "check_correction", code, st)
    judge(ctx, it, it.events[i0:], code, "check_correction", set())

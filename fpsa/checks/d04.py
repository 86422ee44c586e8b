"""Closed-form extraction of the verdict of check_correction (and its sanity report) over symbolic dimensions and
symbolic bit values, compared with the specified parities: even total parity of the corrected bits of the complex's
syndrome qubits on the first plane across every direction in which a logical operator can run."""
from ..scen import *
from ..terms import *
from ..forms import *
from .l02 import lst

RULE = "the verdict is the conjunction of the even parities of the specified correlation surfaces, with and without sanity_check"
ASSUMPTIONS = ["equality of forms is tested at sample dimensions and sample bit patterns (random interpretation)"]
TEXT = ("cat", "fmt", "str", "join", "star")
FN = "flamingpy/decoders/decoder.py:check_correction[%s, %s]"


def run(ctx):
    for (bd, ec), b in LT.BOUNDS.items():
        for sc in (False, True):
            ctx.scenario("check_correction(%s, %s, sanity_check=%s)" % (ec, bd, sc), verdict, ctx, bd, ec, b, sc)
            ctx.scenario("correct verdict(%s, %s, sanity_check=%s)" % (ec, bd, sc), whole, ctx, bd, ec, sc)


def text(x):
    return x.op in TEXT or x.op in ("ite", "tuple") and any(text(y) for y in x.a[x.op == "ite":])


def planes(ec, bounds):
    if "periodic" in bounds:
        return [i for i in range(3) if bounds[i] == "periodic"]
    return [list(bounds).index(ec)]


def bit(salt):
    return lambda p: int(hnum("bit", salt, p) * 997) % 2


def verdict(ctx, bd, ec, bounds, sc):
    it = ctx.interp()
    c = built_code(it, ec, bd)
    g = it.getattr(c, "graph")
    r = call(it, DEC + "check_correction", c, sanity_check=C(sc)) if sc else call(it, DEC + "check_correction", c)
    if sc:
        d = it.getitem(r, C(1))
        r = it.getitem(r, C(0))
    where = FN % (ec, bd) + (":sanity_check" if sc else "")
    res = it.lib.val(r)
    for dims in dims_of(ctx.tier):
        syn = LT.syndrome(ec, bounds, dims)
        lo = 0 if ec == "primal" else 1

        def check():
            for salt in range(10):
                b = bit(salt)
                w = all(sum(b(p) for p in syn if p[i] == lo) % 2 == 0 for i in planes(ec, bounds))
                f = Form(it, dsyms(dims), cell=lambda typ, a, k: b(k) if (typ, a) == ("n", "bit_val") else None)
                x = lst(f.val(res), "verdict")
                if len(x) != 1:
                    return "%d verdicts for one complex" % len(x)
                if isinstance(x[0], Tok):
                    raise Unsup("verdict value")
                if bool(x[0]) != w:
                    return "the verdict is %s where the parities call for %s" % (bool(x[0]), w)
        decide(ctx, "verdict", where, check, "with dimensions %s" % (dims,))
        if not sc:
            continue
        ds = it.lib.val(it.getitem(d, C(0)))

        def report():
            b = bit(3)
            f = Form(it, dsyms(dims), cell=lambda typ, a, k: b(k) if (typ, a) == ("n", "bit_val") else None)
            for i, nm in enumerate("xyz"):
                x = lst(f.val(it.getitem(ds, C(nm))), "report")
                w = [sum(b(p) for p in syn if p[i] == s) % 2 == 0 for s in range(lo, 2 * dims[i], 2)] if i in planes(ec, bounds) else []
                if any(isinstance(y, Tok) for y in x):
                    raise Unsup("report value")
                if [bool(y) for y in x] != w:
                    return "the planes along %s are reported as %s instead of %s" % (nm, [bool(y) for y in x], w)
        decide(ctx, "sanity-report", where, report, "with dimensions %s" % (dims,))


def whole(ctx, bd, ec, sc):
    """correct() flips exactly the qubits its decoder returns and reports the verdict of the corrected code."""
    for dec in ("MWPM", "UF"):
        it = ctx.interp()
        c = built_code(it, ec, bd)
        called, seen = [], []

        def stub(args, kw):
            called.append(args)
            seen.append(len(it.events))
            return S("R")
        it.stubs = {"mwpm_decoder": stub, "uf_decoder": stub}
        kw = {"sanity_check": C(True)} if sc else {}
        r = it.lib.val(call(it, DEC + "correct", c, decoder=C(dec), **kw))
        G = it.getattr(c, "graph")
        msgs = [e for e in it.events[min(seen or [0]):] if e.kind == "print"]
        shown = mk("collv", "list", *[mk("seg", "elem", and_(*e.guard) if e.guard else TRUE, mk("L", *e.loops), NONE, it.lib.val(e.val)) for e in msgs]) if msgs else None
        opaque = shown is not None and any(text(it.lib.val(x)) for e in msgs for x in e.val.a)
        stabs = it.lib.val(it.getattr(c, ec + "_stabilizers"))
        k = S("?node")
        bits = nattr_term(it, G, k, "bit_val")
        bounds = LT.BOUNDS[bd, ec]
        where = "flamingpy/decoders/decoder.py:correct[%s, %s, %s]" % (dec, ec, bd) + (":sanity_check" if sc else "")
        if not called:
            ctx.undecided("decoder-called", where, "no decoder function of the expected name is called")
            continue
        for dims in dims_of(ctx.tier)[:1]:
            syn = sorted(LT.syndrome(ec, bounds, dims))
            lo = 0 if ec == "primal" else 1

            def form(salt, n):
                b = bit(salt) if salt is not None else (lambda p: 0)
                R = tuple(syn[(7 * (salt or 0) + 5 * j) % len(syn)] for j in range(n))
                R = tuple(dict.fromkeys(R))
                f = Form(it, dict(dsyms(dims), R=R), cell=lambda typ, a, p: b(p) if (typ, a) == ("n", "bit_val") else None)
                return b, R, f

            def check():
                for salt in range(10):
                    b, R, f = form(salt, salt % 4)
                    w = all(sum(b(p) ^ (p in R) for p in syn if p[i] == lo) % 2 == 0 for i in planes(ec, bounds))
                    x = f.val(r)
                    if isinstance(x, Tok) or not isinstance(x, (bool, int)):
                        raise Unsup("verdict value")
                    if bool(x) != w:
                        return "correct() reports %s where the corrected code calls for %s" % (bool(x), w)

            def flips():
                b, R, f = form(4, 3)
                for p in syn:
                    x = f.r.ev(bits, {k: p})
                    if x != b(p) ^ (p in R):
                        return "the bit of %s is %s after a recovery set that %s it" % (p, x, "contains" if p in R else "does not contain")

            def leftover():
                if shown is None:
                    return "nothing is displayed about the stabilizers left unsatisfied"
                sup = dict(LT.supports(ec, bounds, dims))
                odd = 0
                for salt in range(10):
                    b, R, f = form(salt if salt < 5 else None, salt % 4 if salt < 5 else 0)
                    cube = {}
                    for x in lst(f.val(stabs), "stabilizers"):
                        ph = lst(f.r.field(x, "physical"), "physical")
                        cube[freeze(x)] = tuple(sum(p[i] for p in ph) / len(ph) for i in range(3))
                    want = {tuple(map(float, m)) for m, q in sup.items() if sum(b(p) ^ (p in R) for p in q) % 2}
                    got, told = set(), []

                    def take(x):
                        if isinstance(x, tuple) and x[:1] == ("obj",) and freeze(x) in cube:
                            got.add(cube[freeze(x)])
                        elif isinstance(x, (list, tuple, set, frozenset)):
                            for y in x:
                                take(y)
                        elif isinstance(x, dict):
                            told.append(x)
                        elif isinstance(x, Tok):
                            raise Unsup("message")

                    take(lst(f.val(shown), "messages"))
                    par = {nm: [sum(b(p) ^ (p in R) for p in syn if p[i] == s) % 2 == 0 for s in range(lo, 2 * dims[i], 2)]
                           if i in planes(ec, bounds) else [] for i, nm in enumerate("xyz")}
                    heard = any(set(map(str, x)) == set("xyz") and all([bool(v) for v in lst(x[nm], "report")] == par[nm] for nm in x) for x in told)
                    if not heard and not opaque:
                        return "the parities of the planes are not displayed"
                    if got != want and opaque:
                        raise Unsup("a message built as text")
                    if got != want:
                        return "the stabilizers displayed as unsatisfied are %d and not the %d odd ones" % (len(got), len(want))
                    odd += bool(want)
            if sc:
                decide(ctx, "leftover-report", where, leftover, "with dimensions %s" % (dims,))
            decide(ctx, "correct-verdict", where, check, "with dimensions %s" % (dims,))
            decide(ctx, "recovery-flips", where, flips, "with dimensions %s" % (dims,))

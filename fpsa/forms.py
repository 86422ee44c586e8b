"""Comparing extracted forms with specified forms (see rint.py)."""
from .rint import *
from .terms import *
from . import lattice as LT

DEBUG = __import__("os").environ.get("FPSA_DEBUG")


class Form:
    """Evaluator of the forms of one analysed scenario at one sample point."""
    def __init__(self, it, syms=None, **kw):
        self.it, self.r = it, Rint(it, syms, **kw)

    def val(self, t, env=None):
        return self.r.ev(self.it.lib.val(t), env or {})


def decide(ctx, rule, construct, fn, msg, undef=False):
    """fn() returns None when the forms agree, or a description of the difference."""
    try:
        d = fn()
    except Unsup as e:
        ctx.undecided(rule, construct, "form outside the decided fragment: %s" % e)
        if DEBUG:
            import traceback
            traceback.print_exc(limit=-4)
        return None
    except Undef as e:
        if undef or isinstance(e, NoAttr):
            ctx.alarm(rule, construct, "%s: %s" % (msg, e))
            return False
        ctx.undecided(rule, construct, "form undefined at a sample point: %s" % e)
        if DEBUG:
            import traceback
            traceback.print_exc(limit=-4)
        return None
    if d is None:
        ctx.ok(rule, construct)
        return True
    ctx.alarm(rule, construct, "%s: %s" % (msg, d))
    return False


def setdiff(got, want, what="element"):
    got, want = set(got), set(want)
    if got == want:
        return None
    ex, mi = got - want, want - got
    s = []
    if mi:
        s.append("%d missing, e.g. %s %r" % (len(mi), what, sorted(mi, key=repr)[0]))
    if ex:
        s.append("%d too many, e.g. %s %r" % (len(ex), what, sorted(ex, key=repr)[0]))
    return "; ".join(s)


def dims_of(tier):
    return LT.THOROUGH if tier == "thorough" else LT.QUICK


def dsyms(dims):
    return {"dx": dims[0], "dy": dims[1], "dz": dims[2]}


def nattr_term(it, G, node, attr):
    return it.lib.gload(mk("nattr", G, node), C(attr))


def eattr_term(it, G, u, v, attr):
    return it.lib.gload(it.lib.eattr(G, u, v), C(attr), miss=lambda: NONE)

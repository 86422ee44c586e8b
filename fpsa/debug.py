"""Development aid: pretty printing of terms, objects and events."""
from .terms import *


def pp(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(pp(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return repr(a[0])
    if o == "s":
        return "$" + str(a[0])
    if o == "ext":
        return a[0]
    if o == "ref":
        return "#%d" % a[0]
    d = depth - 1
    if o == "tuple":
        return "(" + ", ".join(pp(x, d) for x in a) + ")"
    if o == "attr":
        return pp(a[0], d) + "." + str(a[1])
    if o == "item":
        return pp(a[0], d) + "[" + pp(a[1], d) + "]"
    if o in ("add", "sub", "mul", "and", "or", "eq", "lt", "le"):
        return o + "(" + ", ".join(pp(x, d) for x in a) + ")"
    return o + "(" + ", ".join(pp(x, d) if isinstance(x, (T, tuple)) else repr(x) for x in a) + ")"


def po(it, t, depth=7):
    o = it.obj(t) if isinstance(t, T) else None
    if not o:
        return pp(t, depth)
    s = "#%d %s %s" % (o.id, o.kind, pp(o.cls) if o.cls is not None else "")
    for k, v in o.fields.items():
        if isinstance(v, tuple):
            s += "\n   %s:" % (k,)
            for x in v:
                s += "\n      " + ps(x, depth)
        else:
            s += "\n   .%s = %s" % (k, pp(v, depth))
    for x in o.segs:
        s += "\n   " + ps(x, depth)
    return s


def ps(x, depth=7):
    return "%s[%s] key=%s val=%s if %s" % (x.kind, ";".join(pp(l, 4) for l in x.loops), pp(x.key, depth), pp(x.val, depth),
                                            [pp(g, 5) for g in x.guard])


def pe(e, depth=6):
    return "%-11s root=%s name=%s key=%s val=%s guard=%s loops=%s @%s" % (
        e.kind, pp(e.root, depth), e.name, pp(e.key, depth), pp(e.val, depth), [pp(g, 4) for g in e.guard], len(e.loops), e.site)

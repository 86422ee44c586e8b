"""Shared effect-analysis helpers."""
from .terms import *

WRITES = ("write_attr", "write_item", "mutcall", "aug")
PATHOPS = ("attr", "item", "get", "nattr", "eattr", "adjv", "elem", "nview", "eview", "slice", "ndata", "edata", "view", "vals", "items",
           "dview", "idx", "load_view", "graphattr", "T", "combinations")


def bases(it, t, depth=0):
    """Root objects of an access path (through aliases the analysis knows)."""
    out = set()
    todo = [t]
    seen = set()
    while todo and len(seen) < 300:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            todo += [x.a[1], x.a[2]]
        elif x.op == "any":
            todo += list(x.a)
        elif x.op in PATHOPS and x.a and isinstance(x.a[0], T):
            todo.append(x.a[0])
        elif x.op == "idx":
            todo += [y for y in x.a if isinstance(y, T)]
        elif x.op == "phi":
            todo += list((getattr(it, "phidef", {}).get(x)) or ())
        elif x.op in ("lout", "last", "first"):
            todo += [y for y in x.a[1:] if isinstance(y, T)]
        else:
            out.add(x)
    return out


def path_of(t):
    """Readable access path."""
    if not isinstance(t, T):
        return str(t)
    if t.op == "s":
        return str(t.a[0])
    if t.op == "attr":
        return path_of(t.a[0]) + "." + str(t.a[1])
    if t.op in ("item", "get"):
        return path_of(t.a[0]) + "[…]"
    if t.op == "nattr":
        return path_of(t.a[0]) + ".nodes[…]"
    if t.op == "eattr":
        return path_of(t.a[0]) + ".edges[…]"
    return t.op


def loc(e):
    return "%s:%s" % (e.site[0], e.site[2])


def what_written(e):
    if e.kind == "write_item" and e.key is not None and isc(e.key):
        return repr(e.key.a[0])
    return str(e.name) if e.name else (e.kind)

"""The RHG lattice and surface code as the documentation defines them (closed forms, independent of the code).

Boundary letters per axis: primal (smooth), dual (rough), periodic.  Vertices are the integer points of a box whose
parity pattern is "one even coordinate" (primal) or "two even coordinates" (dual); edges join points one unit apart,
wrapping on periodic axes; stabilizer centres are the all-odd (primal complex) or all-even (dual complex) points.
"""
import itertools

BOUNDS = {
    ("open", "primal"): ("primal", "dual", "dual"), ("open", "dual"): ("primal", "dual", "primal"),
    ("toric", "primal"): ("periodic", "periodic", "dual"), ("toric", "dual"): ("periodic", "periodic", "primal"),
    ("periodic", "primal"): ("periodic",) * 3, ("periodic", "dual"): ("periodic",) * 3,
}
STR = {
    "open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"), "primal": ("primal",) * 3, "dual": ("dual",) * 3,
    "periodic": ("periodic",) * 3, "periodic_primal": ("periodic", "periodic", "primal"), "periodic_dual": ("periodic", "periodic", "dual"),
}


def axis(b, d):
    return {"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(0, 2 * d)}[b]


def evens(p):
    return sum(1 for c in p if c % 2 == 0)


def box(bounds, dims):
    return list(itertools.product(*[axis(b, d) for b, d in zip(bounds, dims)]))


def nodes(bounds, dims):
    return {p: ("primal" if evens(p) == 1 else "dual") for p in box(bounds, dims) if evens(p) in (1, 2)}


def steps(p, bounds, dims):
    """Unit steps from p: (neighbour, wrapped?, axis)."""
    for i in range(3):
        for s in (1, -1):
            q = list(p)
            q[i] += s
            w = False
            if bounds[i] == "periodic" and not 0 <= q[i] < 2 * dims[i]:
                q[i] %= 2 * dims[i]
                w = True
            yield tuple(q), w, i


def edges(bounds, dims):
    N = nodes(bounds, dims)
    out = {}
    for p, t in N.items():
        if t != "primal":
            continue
        for q, w, i in steps(p, bounds, dims):
            if N.get(q) == "dual":
                out[frozenset((p, q))] = w
    return out


def centres(ec, bounds, dims):
    return [p for p in box(bounds, dims) if evens(p) == (0 if ec == "primal" else 3)]


def supports(ec, bounds, dims):
    N = nodes(bounds, dims)
    return [(c, frozenset(q for q, w, i in steps(c, bounds, dims) if q in N)) for c in centres(ec, bounds, dims)]


def syndrome(ec, bounds, dims):
    return frozenset().union(*[s for _, s in supports(ec, bounds, dims)])


def boundary(ec, bounds, dims):
    """(low points, high points) of the open boundary of kind ec; empty without one."""
    if "periodic" in bounds:
        return frozenset(), frozenset()
    i = list(bounds).index(ec)
    syn = syndrome(ec, bounds, dims)
    lo, hi = (0, 2 * dims[i] - 2) if ec == "primal" else (1, 2 * dims[i] - 1)
    return frozenset(p for p in syn if p[i] == lo), frozenset(p for p in syn if p[i] == hi)


QUICK = [(2, 3, 4), (3, 2, 2)]
THOROUGH = QUICK + [(4, 3, 2), (2, 2, 2), (3, 3, 3), (2, 4, 3), (5, 2, 3), (3, 5, 4)]

"""The native matcher (lemonpy.cpp): clang's syntax tree of the bound function evaluated over models of lemon, pybind11 and
the standard library, at sample matrices; compared with the heaviest perfect matching of the whole matrix."""
import math
import os
import random

from ..scen import *
from ..forms import *
from ..rint import heaviest, Unsup
from ..harness import REPO
from .. import cxx

RULE = "the native matcher hands every weight above the diagonal to the solver unrounded, stays inside the matrix and returns all matched pairs"
ASSUMPTIONS = ["equality of forms is tested at sample matrices (random interpretation)",
               "lemon's matching classes solve the problem they are handed (a reference matcher stands for them)"]
FILE = "flamingpy/cpp/lemonpy.cpp"


def run(ctx):
    ctx.scenario("native matcher", native, ctx)


def matrices(tier):
    for k in range(16 if tier != "thorough" else 60):
        rng = random.Random("C01 %d" % k)
        n = (2, 4, 6, 8)[k % 4]
        W = (lambda: -rng.randrange(0, 1000), lambda: rng.random() * 10 - 6, lambda: -(2 ** 26 + rng.randrange(0, 5000)),
             lambda: -rng.choice((0, 0, 1, 2, rng.random())), lambda: -1e3 - rng.random() * 1e-4)[k % 5]
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i] = float(W())
        if k % 3 == 2 and n > 2:                                # a graph that is not complete
            for i in range(0, n - 2, 2):
                m[i][i + 2] = m[i + 2][i] = float(-(2 ** 64) + 1)
        yield n, m


def native(ctx):
    path = os.path.join(REPO, FILE)
    box = {}

    def load():
        if not os.path.exists(path):
            raise Unsup("no native matcher")
        box["u"] = cxx.Unit(path)
        if box["u"].entry not in box["u"].types:
            raise Unsup("function bound as mwpm")
    if not decide(ctx, "front-end", FILE, load, "clang"):
        return
    u = box["u"]
    ctx.functions |= {"%s:%s" % (FILE, o["name"]) for o in u.funcs.values()}
    fn = u.types[u.entry]
    name = "%s:%s" % (FILE, u.entry)
    p = next(c for c in fn["inner"] if c["kind"] == "ParmVarDecl")
    import re

    def arg(shape, data):
        t = cxx.qt(p)
        m = re.search(r"array_t<\s*([\w ]+?)\s*,\s*(?:\(int\))?(\d+)", t) or re.search(r"array_t<\s*([\w ]+?)\s*[,>]", t)
        if not m:
            raise Unsup("argument type " + t)
        if "const" not in t and m.lastindex == 2 and not int(m.group(2)) & 1:
            raise Unsup("argument layout")
        return cxx.Arr(m.group(1), list(shape), [cxx.conv(x, m.group(1)) for x in data])

    def call(shape, data):
        u.fuel = 600000
        r = u.call(fn, [arg(shape, data)])
        if not isinstance(r, cxx.Out):
            raise Unsup("result")
        return r.value

    def pairs():
        for n, m in matrices(ctx.tier):
            try:
                r = call((n, n), [x for row in m for x in row])
            except cxx.Bad as e:
                return "for %d rows %s" % (n, e)
            except cxx.Thrown:
                return "a square matrix of %d rows is rejected" % n
            if any(len(x) != 2 for x in r):
                return "a row of the result is no pair"
            ends = [x for q in r for x in q]
            if sorted(ends) != list(range(n)):
                return "the result %s does not match each of %d rows once" % (r, n)
            ref = heaviest(list(range(n)), {frozenset((i, j)): m[i][j] for i in range(n) for j in range(i)}, True)
            a, b = (math.fsum(m[i][j] for i, j in q) for q in (r, ref))
            if a != b and {frozenset(q) for q in r} != {frozenset(q) for q in ref}:
                return "for %d rows the returned pairs weigh %r, the heaviest perfect matching %r" % (n, a, b)

    def empty():
        try:
            r = call((0, 0), [])
        except cxx.Bad as e:
            return "for the empty matrix %s" % e
        except cxx.Thrown:
            return None
        return None if r == [] else "the empty matrix has the matching %s" % r

    def reject(shape):
        n = 1
        for x in shape:
            n *= x
        try:
            call(shape, [float(i) for i in range(n)])
        except cxx.Thrown:
            return None
        except cxx.Bad as e:
            return "an array of shape %s is taken: %s" % (shape, e)
        return "an array of shape %s is not rejected" % (shape,)
    decide(ctx, "native-matching", name, pairs, "native matcher")
    decide(ctx, "native-empty", name, empty, "native matcher")
    for s in ((4,), (2, 2, 2), (2, 4), (4, 2), (6, 5)):
        decide(ctx, "native-shape", name, lambda: reject(s), "native matcher")

"""Macronode noise: centres, entangled quadratures, and the reduction of the outcomes to one bit and one probability per qubit."""
import math

from ..noisekit import *
from .n05 import nearest, ROOT
from .v02 import want

RULE = ("the centre of a macronode is its first GKP mode, else its first mode; the reduced label is GKP iff a mode is; the measured quadratures are, in distribution, "
        "the four-splitter of the entangled states plus the measurement noise, momentum at centres and position elsewhere; bit and probability of the reduced qubit "
        "are the processing rules applied to these outcomes")
ASSUMPTIONS = ["the macronode graph handed to the layer has four modes per macronode and at most one edge per mode", "rounding of 32-bit floats is not modelled",
               "values are compared at sample points away from bin boundaries (random interpretation)", "draws of the generator are independent variables of the documented distribution"]
FN = "flamingpy/noise/cv.py:CVMacroLayer.apply_noise[%s]"
MACRO = '''
def f(cls, N, E, M, P):
    g = cls(macronodes=True)
    g.add_nodes_from(N)
    for u, v in E:
        g.add_edge(u, v)
    g.macro_to_micro = M
    if P is not None:
        g.graph["perfect_points"] = P
    return g
'''
CODE = '''
def f(cls, V, m, bd):
    class Can(cls):
        def macronize(self, *a, **k):
            return m
    class Code:
        pass
    c = Code()
    c.bound_str = bd
    c.graph = Can()
    c.graph.add_nodes_from(V)
    return c
'''
READ = '''
def f(lay, code, x, v):
    a = lay.egraph.nodes[x]
    b = code.graph.nodes[v]
    return (a.get("state", "none"), a.get("body_index", "none"), a.get("hom_val_p", "none"), a.get("hom_val_q", "none"),
            b.get("state", "none"), b.get("bit_val", "none"), b.get("p_phase_cond", "none"))
'''
NAMES = ("state", "body", "p", "q", "label", "bit", "prob")
V_, M_, v_, B_ = (S("?" + x) for x in ("V", "M", "v", "B"))
OPTS = {"states": 'states={"p": st}', "p_swap": "p_swap=ps", "none": "", "all-p": "p_swap=1", "states,network": 'states={"p": st}, bs_network=B'}
SPLIT = ((1, 1, 1, 1), (-1, 1, -1, 1), (-1, -1, 1, 1), (1, -1, -1, 1))


def run(ctx):
    for opt in ("states", "p_swap", "none", "all-p", "states,network"):
        for perfect in (False, True) if opt in ("states",) else (False,):
            ctx.scenario("CVMacroLayer(%s, perfect=%s)" % (opt, perfect), layer, ctx, opt, perfect)


class Macro:
    def __init__(self, it, opt, perfect):
        self.it, self.perfect = it, perfect
        self.g = snippet(it, MACRO, it.get(EG), N_, E_, M_, P_ if perfect else NONE)
        self.code = snippet(it, CODE, it.get(EG), V_, self.g, C("open"))
        src = "def f(cls, code, d, st, ps, B):\n    return cls(code, delta=d%s)\n" % (", " + OPTS[opt] if OPTS[opt] else "")
        self.lay = snippet(it, src, it.get("flamingpy.noise.cv:CVMacroLayer"), self.code, d_, st_, ps_, B_)
        self.after = []
        for _ in range(2):
            meth(it, self.lay, "apply_noise", rng_)
            self.after.append(dict(zip(NAMES, it.lib.val(snippet(it, READ, self.lay, self.code, n_, v_)).a)))


class Sample:
    def __init__(self, mc, opt, seed):
        rng = random.Random(seed)
        self.f = Form(mc.it, {}, cell=lambda typ, a, k: None)
        self.r = self.f.r = Nint(mc.it, {}, cell=lambda typ, a, k: None)
        self.V = rng.sample([(x, y, z) for x in range(3) for y in range(3) for z in range(3)], 4)
        self.M = {}
        ds = [(a * s, b) for b in range(3) for a, s in ((.1, 1), (.1, -1), (.05, 1))]
        for v in self.V:
            self.M[v] = []
            for s, k in rng.sample(ds, 4):
                x = list(v)
                x[k] = round(x[k] + s, 3)
                self.M[v].append(tuple(x))
        self.home = {x: v for v in self.V for x in self.M[v]}
        self.order = [x for v in sorted(self.V) for x in self.M[v]]
        free, self.E = list(self.order), []
        rng.shuffle(free)
        while len(free) > 3:
            a = free.pop()
            b = next((x for x in free if self.home[x] != self.home[a]), None)
            if b is not None:
                free.remove(b)
                self.E.append((a, b))
        self.nb = {}
        for a, b in self.E:
            self.nb[a], self.nb[b] = b, a
        self.N = list(self.order)
        rng.shuffle(self.N)
        n = len(self.N)
        # a macronode without GKP modes, one with a GKP mode in front, one with it further back
        full = rng.randrange(4)
        self.st = [i for i in range(n) if i // 4 == full or rng.random() < 0.45]
        rng.shuffle(self.st)
        self.P = tuple(rng.sample(self.N, 4)) if mc.perfect else ()
        self.d = rng.choice((0.05, 0.1, 0.3))
        self.B = [[0] * 8 for _ in range(8)]
        if opt.endswith("network"):
            m = [[rng.choice((-1, 1)) * rng.uniform(0.2, 1) for _ in range(4)] for _ in range(4)], [[rng.choice((-1, 1)) * rng.uniform(0.2, 1) for _ in range(4)] for _ in range(4)]
        else:
            m = [[[x / 2 for x in row] for row in SPLIT]] * 2
        self.mix = m
        for i in range(4):
            self.B[i][:4] = m[0][i]
            self.B[4 + i][4:] = m[1][i]
        self.env = {N_: tuple(self.N), E_: tuple(self.E), V_: tuple(rng.sample(self.V, 4)), M_: {v: list(x) for v, x in self.M.items()}, P_: self.P,
                    d_: self.d, st_: nd(self.st), ps_: 0.5, rng_: ("rng",), B_: nd([nd(x) for x in self.B]) if opt.endswith("network") else None}

    def at(self, t, x, v=None):
        return self.r.ev(t, {**self.env, n_: x, v_: v if v is not None else self.home[x]})

    def sample(self, s):
        self.r.sample = s
        self.r.memo.clear()
        self.r.six.clear()

    def read(self, a, name):
        return {x: self.at(a[name], x) for x in self.order}


def layer(ctx, opt, perfect):
    mc = Macro(ctx.interp(), opt, perfect)
    tag = opt + (",perfect" if perfect else "")
    for s in range(2 if ctx.tier == "quick" else 8):
        for i, a in enumerate(mc.after):
            w = FN % (tag + ",trial%d" % (i + 1))
            for rule, fn in (("centres", centres), ("measured-quadratures", lambda p, a: measured(p, a, mc.after[0])), ("reduction", reduction)):
                decide(ctx, rule, w, lambda: fn(Sample(mc, opt, "%s%d" % (tag, s)), a), "on a sample macronode graph", undef=True)
        if opt != "p_swap":
            decide(ctx, "outcome-distribution", FN % tag, lambda: distribution(Sample(mc, opt, "%s%d" % (tag, s)), mc.after, opt), "on a sample macronode graph", undef=True)
            if opt == "states":
                decide(ctx, "requested-states", FN % tag, lambda: requested(Sample(mc, opt, "%s%d" % (tag, s)), mc.after), "on a sample macronode graph", undef=True)


def requested(p, after):
    for a in after:
        got = [i for i, x in enumerate(p.order) if p.at(a["state"], x) == "p"]
        if got != sorted(p.st):
            return "the momentum-squeezed modes are %r instead of %r" % (got, sorted(p.st))
    return None


def perm(p, st):
    """Modes of each macronode, the centre first."""
    out = {}
    for v in p.V:
        ms = p.M[v]
        c = next((x for x in ms if st[x] == "GKP"), ms[0])
        out[v] = c, [x for x in ms if x != c]
    return out


def centres(p, a):
    for s in range(1, 4):
        p.sample(s)
        st, body = p.read(a, "state"), p.read(a, "body")
        for v, (c, rest) in perm(p, st).items():
            if any(st[x] not in ("p", "GKP") for x in p.M[v]):
                return "the modes of a macronode are labelled %r" % ([st[x] for x in p.M[v]],)
            if body[c] != 1:
                return "the modes %r of the macronode at %r have body indices %r: the first GKP mode (or the first mode) is not the centre" % (
                    [st[x] for x in p.M[v]], v, [body[x] for x in p.M[v]])
            if sorted(body[x] for x in p.M[v]) != [1, 2, 3, 4]:
                return "the body indices of a macronode are %r" % ([body[x] for x in p.M[v]],)
            got, w = p.at(a["label"], c, v), "GKP" if any(st[x] == "GKP" for x in p.M[v]) else "p"
            if got != w:
                return "a macronode with the modes %r is reduced to a qubit labelled %r" % ([st[x] for x in p.M[v]], got)
    return None


def measured(p, a, first):
    p.sample(1)
    st, ps, qs = p.read(a, "state"), p.read(a, "p"), p.read(a, "q")
    if a is not first:
        # the value of a quadrature that is not measured this time may be left over
        ps, qs = ({x: v if v != u[x] else "left over" for x, v in w.items()} for w, u in ((ps, p.read(first, "p")), (qs, p.read(first, "q"))))
    for v, (c, rest) in perm(p, st).items():
        for x in p.M[v]:
            if isinstance(ps[x], str) == (x == c):
                return "a mode that is %sthe centre of its macronode has %s momentum outcome" % ("" if x == c else "not ", "no" if x == c else "a")
            if isinstance(qs[x], str) != (x == c):
                return "a mode that is %sthe centre of its macronode has %s position outcome" % ("" if x == c else "not ", "a" if x == c else "no")
    return None


def bybody(p, a):
    body = p.read(a, "body")
    return {v: {body[x]: x for x in p.M[v]} for v in p.V}, body


def distribution(p, after, opt):
    got, exp, names = [], [], []
    for i, a in enumerate(after):
        st = p.read(a, "state")
        slots, body = bybody(p, a)
        q = {x: Lin(0, {("U", i, x): 2 * ROOT}) if st[x] == "p" else Lin(0, {("B", i, x): ROOT}) for x in p.order}
        pp = {x: q[p.nb[x]] if x in p.nb else Lin(0) for x in p.order}
        for x in p.order:
            row = body[x] - 1
            y = slots[p.home[x]]
            v = p.at(a["p" if row == 0 else "q"], x)
            if isinstance(v, str):
                return "mode %r has no outcome" % (x,)
            w = Lin(0, {("Z", i, x): 0 if x in p.P else math.sqrt(p.d / 2)})
            for k in range(4):
                w = w + (pp if row == 0 else q)[y[k + 1]] * p.mix[row == 0][row][k]
            got.append(lin(v))
            exp.append(w)
            names.append(x)
    return gramdiff(got, exp, names)


def reduction(p, a):
    for s in range(1, 5):
        p.sample(s)
        st, ps, qs = p.read(a, "state"), p.read(a, "p"), p.read(a, "q")
        slots, body = bybody(p, a)
        for v in p.V:
            c = slots[v][1]
            out, num, gk = 2 * ps[c], 0, []
            for x in p.M[v]:
                y = p.nb.get(x)
                if y is None:
                    continue
                m = {k: qs[z] for k, z in slots[p.home[y]].items()}
                z = {1: lambda: 0, 2: lambda: m[2] - m[4], 3: lambda: m[3] - m[4], 4: lambda: m[2] + m[3]}[body[y]]()
                if st[y] == "p":
                    out, num = out - z, num + 1
                else:
                    gk.append(z)
            if any(abs(abs(z / ROOT - math.floor(z / ROOT)) - 0.5) < 1e-6 for z in gk + [out]):
                continue
            bit = (nearest(out) + sum(nearest(z) for z in gk)) % 2
            got = un(nd(p.at(a["bit"], c, v))) if isarr(p.at(a["bit"], c, v)) else p.at(a["bit"], c, v)
            where = "for a qubit with %d squeezed and %d GKP neighbours" % (num, len(gk))
            if isinstance(got, str) or got is None:
                return "a reduced qubit has no bit value"
            if got != bit:
                return "%s the processed bit is %r instead of %d" % (where, got, bit)
            pr = sum(want(2 * p.d, z, 10, True)[0] or 0 for z in gk) + (want(2 * (2 + num) * p.d, out, 10, True)[0] or 0)
            pr = max(0, min(pr, 0.5))
            got = p.at(a["prob"], c, v)
            got = un(nd(got)) if isarr(got) else got
            if not isinstance(got, (int, float)) or abs(got - pr) > 1e-7:
                return "%s the phase error probability is %s instead of %.6g" % (where, "%.6g" % got if isinstance(got, (int, float)) else repr(got), pr)
    return None

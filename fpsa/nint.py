"""Random interpretation of forms over numeric arrays whose entries may be linear combinations of random variables.

A draw from the generator is a family of fresh variables (one per drawn entry), so a measured outcome evaluates to
   constant + sum of coefficient * variable
and its distribution (mean, covariances, per kind of variable) can be compared with the documented noise model
whatever the order in which the numbers were drawn.
"""
from .rint import *

INTS = ("builtins.int", "numpy.int8", "numpy.int16", "numpy.int32", "numpy.int64", "numpy.intp", "numpy.uint8", "numpy.int_")


class Lin:
    """Linear form over random variables."""
    __slots__ = ("c", "m", "h")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = {k: v for k, v in (m or {}).items() if v != 0}
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, frozenset(self.m.items())))
        return self.h

    def __eq__(self, o):
        if isinstance(o, Lin):
            return self.c == o.c and self.m == o.m
        return not self.m and self.c == o

    def __repr__(self):
        return "Lin(%r,%s)" % (self.c, sorted(self.m.items(), key=repr))

    def __add__(self, o):
        if isinstance(o, Lin):
            m = dict(self.m)
            for k, v in o.m.items():
                m[k] = m.get(k, 0) + v
            return Lin(self.c + o.c, m)
        return Lin(self.c + o, self.m)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, Lin):
            if not o.m:
                o = o.c
            elif not self.m:
                return o * self.c
            else:
                raise Unsup("product of random variables")
        return Lin(self.c * o, {k: v * o for k, v in self.m.items()})

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __truediv__(self, o):
        if isinstance(o, Lin):
            raise Unsup("division by a random variable")
        return self * (1 / o)

    def __pow__(self, e):
        if e == 1:
            return self
        if not self.m:
            return self.c ** e
        raise Unsup("power of a random variable")

    def _no(self, *a):
        raise Unsup("decision on a random variable")
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = __mod__ = __floordiv__ = __rtruediv__ = __abs__ = _no


class ND:
    """Immutable array."""
    __slots__ = ("sh", "d", "h", "sp")

    def __init__(self, sh, d, sp=None):
        self.sh, self.d, self.h = tuple(sh), tuple(d), None
        self.sp = sp      # stored as a scipy.sparse array (None: not known)
        n = 1
        for x in self.sh:
            n *= x
        if n != len(self.d):
            raise Undef("array of shape %r with %d entries" % (self.sh, len(self.d)))

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.sh, self.d))
        return self.h

    def __eq__(self, o):
        return isinstance(o, ND) and self.sh == o.sh and self.d == o.d

    def __repr__(self):
        return "ND(%r,%r)" % (self.sh, self.d)

    def __len__(self):
        return self.sh[0]

    def rows(self):
        if len(self.sh) == 1:
            return list(self.d)
        k = len(self.d) // self.sh[0] if self.sh[0] else 0
        return [ND(self.sh[1:], self.d[i * k:(i + 1) * k]) for i in range(self.sh[0])]

    def __bool__(self):
        if len(self.d) == 1:
            return bool(self.d[0])
        raise Unsup("truth of an array")


def isarr(v):
    return isinstance(v, (ND, list, tuple, range, set, frozenset))


def nd(v):
    """Array of a list-like (or a scalar as a 0-dimensional one)."""
    if isinstance(v, ND):
        return v
    if isinstance(v, (set, frozenset)):
        v = sorted(v)
    if isinstance(v, (list, tuple, range)):
        xs = [nd(x) for x in v]
        if not xs:
            return ND((0,), ())
        if any(x.sh != xs[0].sh for x in xs):
            raise Unsup("ragged array")
        return ND((len(xs),) + xs[0].sh, [y for x in xs for y in x.d])
    if isinstance(v, (bool, int, float, Fraction, Lin, str)) or v is None:
        return ND((), (v,))
    raise Unsup("array of " + type(v).__name__)


def un(a):
    return a.d[0] if isinstance(a, ND) and a.sh == () else a


def strides(sh):
    s, r = 1, []
    for n in reversed(sh):
        r.append(s)
        s *= n
    return r[::-1]


def bcast(f, *vs):
    """Element-wise f with broadcasting."""
    if not any(isarr(v) for v in vs):
        return f(*vs)
    vs = [nd(v) for v in vs]
    k = max(len(v.sh) for v in vs)
    shs = [(1,) * (k - len(v.sh)) + v.sh for v in vs]
    out = []
    for ds in zip(*shs):
        n = {d for d in ds if d != 1}
        if len(n) > 1:
            raise Undef("shapes %r cannot be combined" % ([v.sh for v in vs],))
        out.append(n.pop() if n else 1)
    sts = [strides(s) for s in shs]
    d = []
    for ix in itertools.product(*[range(n) for n in out]):
        d.append(f(*[v.d[sum(i * st for i, st, n in zip(ix, s, sh) if n != 1)] for v, s, sh in zip(vs, sts, shs)]))
    return ND(out, d)


def axis_sel(k, n):
    """(positions, keep the axis) selected by an index on an axis of length n."""
    if isinstance(k, slice):
        return list(range(*k.indices(n))), True
    if isarr(k):
        a = nd(k)
        if len(a.sh) != 1:
            raise Unsup("index array of dimension %d" % len(a.sh))
        ks = list(a.d)
        if ks and all(isinstance(x, bool) for x in ks):
            if len(ks) != n:
                raise Undef("mask of length %d on an axis of length %d" % (len(ks), n))
            return [i for i, x in enumerate(ks) if x], True
        return [axis_sel(x, n)[0][0] for x in ks], True
    if isinstance(k, (int, float, Fraction)) and not isinstance(k, bool) and float(k).is_integer():
        k = int(k)
        if not -n <= k < n:
            raise Undef("index %d out of bounds (%d)" % (k, n))
        return [k % n], False
    raise Unsup("array index %r" % (k,))


def positions(a, key):
    """(flat positions, resulting shape) of a[key]."""
    ks = list(key) if isinstance(key, tuple) else [key]
    if Ellipsis in [k for k in ks if not isarr(k)]:
        raise Unsup("ellipsis")
    if any(k is None for k in ks):          # new axes
        pos, sh = positions(a, tuple(k for k in ks if k is not None))
        sh, out, j = list(sh), [], 0
        if any(isarr(k) and len(nd(k).sh) != 1 for k in ks) or sum(isarr(k) for k in ks) > 1:
            raise Unsup("new axis among index arrays")
        for k in ks:
            if k is None:
                out.append(1)
            elif isarr(k) or isinstance(k, slice):
                out.append(sh[j])
                j += 1
        return pos, tuple(out + sh[j:])
    if len(ks) > len(a.sh):
        raise Undef("too many indices")
    if sum(isarr(k) for k in ks) > 1:
        if len(ks) != len(a.sh) or any(isinstance(k, slice) for k in ks):
            raise Unsup("several index arrays")
        bs = []
        for k, n in zip(ks, a.sh):
            k = nd(k)
            if k.d and all(isinstance(x, bool) for x in k.d):
                k = nd(axis_sel(k, n)[0])
            bs.append(ND(k.sh, [axis_sel(x, n)[0][0] for x in k.d]))
        st = strides(a.sh)
        r = nd(bcast(lambda *ix: sum(i * s for i, s in zip(ix, st)), *bs))
        return list(r.d), r.sh
    if len(ks) == 1 and isarr(ks[0]) and len(nd(ks[0]).sh) == 2 and len(a.sh) == 1:
        m = nd(ks[0])
        return [axis_sel(x, a.sh[0])[0][0] for x in m.d], m.sh
    ks += [slice(None)] * (len(a.sh) - len(ks))
    sel = [axis_sel(k, n) for k, n in zip(ks, a.sh)]
    st = strides(a.sh)
    pos = [sum(i * s for i, s in zip(ix, st)) for ix in itertools.product(*[s[0] for s in sel])]
    return pos, tuple(len(s[0]) for s in sel if s[1])


def getidx(a, key):
    pos, sh = positions(a, key)
    return un(ND(sh, [a.d[p] for p in pos]))


def setidx(a, key, v):
    pos, sh = positions(a, key)
    v = nd(v)
    while len(v.sh) > len(sh) and v.sh[0] == 1:
        v = ND(v.sh[1:], v.d)
    if v.sh == sh:
        vals = list(v.d)
    else:
        b = bcast(lambda x, y: y, ND(sh, [0] * len(pos)), v)
        if nd(b).sh != sh:
            raise Undef("value of shape %r written to %r" % (v.sh, sh))
        vals = list(nd(b).d)
    d = list(a.d)
    for p, x in zip(pos, vals):
        d[p] = x
    return ND(a.sh, d)


def matmul(a, b):
    a, b = nd(a), nd(b)
    if not a.sh or not b.sh or len(a.sh) > 2 or len(b.sh) > 2:
        raise Unsup("matrix product")
    A = [list(a.d)] if len(a.sh) == 1 else [list(r.d) for r in a.rows()]
    B = [[x] for x in b.d] if len(b.sh) == 1 else [list(r.d) for r in b.rows()]
    if (len(A[0]) if A else 0) != len(B):
        raise Undef("product of shapes %r and %r" % (a.sh, b.sh))
    cols = list(zip(*B)) if B else []
    sp = [[(j, x) for j, x in enumerate(r) if not (isinstance(x, (int, float)) and x == 0)] for r in A]
    d = []
    for r in sp:
        for c in cols:
            s = 0
            for j, x in r:
                y = c[j]
                if isinstance(y, (int, float)) and y == 0:
                    continue
                s = s + x * y
            d.append(s)
    sh = (() if len(a.sh) == 1 else (a.sh[0],)) + (() if len(b.sh) == 1 else (b.sh[1],))
    return un(ND(sh, d))


def transpose(a):
    a = nd(a)
    if len(a.sh) < 2:
        return a
    if len(a.sh) != 2:
        raise Unsup("transpose")
    n, m = a.sh
    return ND((m, n), [a.d[i * m + j] for j in range(m) for i in range(n)])


def hcat(xs):
    xs = [nd(x) for x in xs]
    if all(len(x.sh) == 1 for x in xs):
        return ND((sum(x.sh[0] for x in xs),), [y for x in xs for y in x.d])
    if any(x.sh[0] != xs[0].sh[0] for x in xs):
        raise Undef("blocks do not fit")
    return ND((xs[0].sh[0], sum(x.sh[1] for x in xs)), [y for i in range(xs[0].sh[0]) for x in xs for y in x.rows()[i].d])


def vcat(xs):
    xs = [nd(x) for x in xs]
    if all(len(x.sh) == 1 for x in xs):
        return hcat(xs)
    if any(x.sh[1:] != xs[0].sh[1:] for x in xs):
        raise Undef("blocks do not fit")
    return ND((sum(x.sh[0] for x in xs),) + xs[0].sh[1:], [y for x in xs for y in x.d])


def full(sh, v):
    if not isarr(sh):
        sh = (sh,)
    sh = tuple(int(x) for x in (nd(sh).d if isinstance(sh, ND) else sh))
    n = 1
    for x in sh:
        if x < 0:
            raise Undef("negative size")
        n *= x
    return ND(sh, [v] * n)


def eye(n):
    n = int(n)
    return ND((n, n), [1 if i == j else 0 for i in range(n) for j in range(n)])


def points(t):
    """Both operands are elements of a collection (points of a graph compare in lexicographic order)."""
    return all(x.op == "elem" or x.op == "item" and x.a[0].op == "elem" and x.a[0].a[0].op in ("eview", "nview") for x in t.a)


class Nint(Rint):
    """Rint with arrays and random variables. `sample` replaces variables by numbers."""
    sample = False
    over = {}        # sample mode: values of chosen variables in [0, 1)
    logs = None
    touch = set()

    def truthy(self, v):
        if callable(v):
            return True
        if isinstance(v, ND):
            if v.sh == ():
                return bool(v.d[0])
            if len(v.d) == 1:
                return bool(v.d[0])
            if not v.d:
                return False
            raise Undef("truth of an array with several entries")
        if isinstance(v, Lin):
            raise Unsup("decision on a random variable")
        return Rint.truthy(self, v)

    def o_ite(self, t, env):
        c = self.ev(t.a[0], env)
        if isinstance(c, ND) and c.sh and t.a[1] is C(1) and t.a[2] is C(0):
            return bcast(lambda x: int(self.truthy(x)), c)    # boolean array converted to integers
        return self.ev(t.a[1] if self.truthy(c) else t.a[2], env)

    def seq(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, ND):
            if not v.sh:
                raise Undef("iteration over a scalar")
            return v.rows()
        return Rint.seq(self, t, env)

    def num(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, ND) and len(v.d) == 1:
            return v.d[0]
        return Rint.num(self, v)

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, ND) or isinstance(b, ND):
            if isarr(a) != isarr(b):
                return bcast(lambda x, y: Rint.same(self, x, y), a, b)
            return nd(a) == nd(b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return False
            raise Unsup("decision on a random variable")
        return Rint.same(self, a, b)

    def item(self, b, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "rxi" and isinstance(b, list):
            return k[1]
        if isinstance(b, ND):
            return getidx(b, k)
        if isinstance(b, (list, tuple)) and isarr(k) or isinstance(b, range) and isarr(k):
            return getidx(nd(b), k)
        if isinstance(b, dict) and freeze(k) not in b:
            raise Undef("key %r" % (k,))
        if isinstance(b, (list, tuple)) and isinstance(k, tuple):
            return getidx(nd(b), k)
        return Rint.item(self, b, k)

    def el(self, f, *ts):
        return lambda env: bcast(f, *[self.ev(t, env) for t in ts])

    def o_poly(self, t, env):
        r = 0
        for m, c in t.a[0]:
            p = c
            for x, e in m:
                v = self.ev(x, env)
                if e != 1:
                    v = bcast(lambda y: self.powr(self.num(y), e), v)
                p = bcast(lambda y, z: self.num(y) * self.num(z), p, v)
            r = bcast(lambda y, z: y + z, r, p)
        return bcast(self.clean, r)

    def powr(self, y, e):
        if e < 0 and not isinstance(y, Lin) and y == 0:
            return float("nan")
        return y ** e

    def clean(self, y):
        if isinstance(y, Fraction):
            return int(y) if y.denominator == 1 else float(y)
        return y

    def o_inv(self, t, env):
        return bcast(lambda x: 1 / self.num(x) if x != 0 else float("nan"), self.ev(t.a[0], env))

    def o_mulbig(self, t, env):
        return bcast(lambda x, y: self.num(x) * self.num(y), *[self.ev(x, env) for x in t.a])

    def o_div(self, t, env):
        def f(x, y):
            x, y = self.num(x), self.num(y)
            return x / y if isinstance(y, Lin) or y != 0 else float("nan")
        return bcast(f, *[self.ev(x, env) for x in t.a])

    def o_mod(self, t, env):
        return bcast(lambda x, y: self.num(x) % self.num(y), *[self.ev(x, env) for x in t.a])

    def o_floordiv(self, t, env):
        return bcast(lambda x, y: self.num(x) // self.num(y), *[self.ev(x, env) for x in t.a])

    def o_pow(self, t, env):
        return bcast(lambda x, y: self.powr(self.num(x), self.num(y)), *[self.ev(x, env) for x in t.a])

    def o_abs(self, t, env):
        return bcast(lambda x: abs(self.num(x)), self.ev(t.a[0], env))

    def o_sqrt(self, t, env):
        return bcast(lambda x: math.sqrt(self.num(x)), self.ev(t.a[0], env))

    def o_floor(self, t, env):
        return bcast(lambda x: math.floor(self.num(x)), self.ev(t.a[0], env))

    def o_int(self, t, env):
        v = un(self.ev(t.a[0], env))
        if isinstance(v, (str, Lin)):
            raise Unsup("int()")
        return int(self.num(v))

    def o_astype(self, t, env):
        def f(x):
            x = self.num(x)
            if isinstance(x, Lin):
                raise Unsup("integer of a random variable")
            return int(x)
        return bcast(f, self.ev(t.a[0], env))

    def o_vmap(self, t, env):
        v, body, x = t.a
        return bcast(lambda e: self.ev(body, {**env, v: e}), self.ev(x, env))

    def o_lt(self, t, env):
        if points(t):
            return Rint.o_lt(self, t, env)
        return bcast(lambda x, y: x < y, *[self.ev(x, env) for x in t.a])

    def o_le(self, t, env):
        if points(t):
            return Rint.o_le(self, t, env)
        return bcast(lambda x, y: x <= y, *[self.ev(x, env) for x in t.a])

    def o_not(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, ND) and v.sh:
            return bcast(lambda x: not x, v)
        return not self.truthy(v)

    def o_eltcmp(self, t, env):
        op, a, b = t.a
        a, b = self.ev(a, env), self.ev(b, env)
        if op in ("in", "notin"):
            s = {freeze(x) for x in nd(b).d}
            return bcast(lambda x: (x in s) == (op == "in"), nd(a))
        f = {"eq": lambda x, y: bool(Rint.same(self, x, y)), "ne": lambda x, y: not Rint.same(self, x, y), "lt": lambda x, y: x < y,
             "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}.get(op)
        if f is None:
            raise Unsup("eltcmp " + str(op))
        return bcast(f, a, b)

    def o_array(self, t, env):
        v = self.ev(t.a[0], env)
        return nd(v) if isarr(v) else v

    def o_vec(self, t, env):
        xs = [self.ev(x, env) for x in t.a]
        try:
            return nd(xs)
        except Unsup:
            return xs

    def o_arange(self, t, env):
        return nd(list(self.o_range(t, env)))

    def o_nd(self, t, env):
        v = self.ev(t.a[0], env) if t.a[0] is not mk("s", "garbage", None) else "uninitialised"
        if isinstance(v, ND) and v.sh:
            z = full(self.ev(t.a[1], env), 0)
            b = bcast(lambda x, y: x, v, z)
            if b.sh != z.sh:
                raise Undef("array of shape %r filled with values of shape %r" % (z.sh, v.sh))
            return b
        return full(self.ev(t.a[1], env), v)

    def o_ndw(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, dict):
            return Rint.o_ndw(self, t, env)
        return self.writes(nd(b), t.a[1:], env)

    def writes(self, a, segs, env):
        """The array after its writes, in program order."""
        b = self.replay(a, segs[0], env) if segs and segs[0].a[0] == "phi" else None
        for s, e in self.ordered(segs, env, 1) if b is not None else self.ordered(segs, env):
            b = self.write(a if b is None else b, s, e)
        return a if b is None else b

    def write(self, a, s, e):
        if s.a[0] != "set":
            raise Unsup("ndw " + s.a[0])
        return setidx(a, self.ev(s.a[3], e), self.ev(s.a[4], e))

    def replay(self, a, phi, env):
        """The array at the start of the current iteration of the loop of a phi segment, kept from iteration to iteration (None: not in this way)."""
        lk = phi.a[3]
        reg = (self.it.phisegs or {}).get((lk,) + phi.a[4].a) if phi.a[4].op == "phiof" else None
        if reg is None or len(lk.a[0]) != 1 or ("pos", lk.a[0][0].a[0]) not in env:
            return None
        l0 = lk.a[0][0]
        todo = [(self.below(s, [l0.a[0]], env), s) for s in reg if s.a[0] != "phi"]
        if any(not l or l[0] is not l0 for l, s in todo):
            return None
        own = {l.a[0] for ls, s in todo for l in ls}
        key = (phi.id, a.sh, tuple(map(freeze, a.d)), tuple(sorted((v.id, freeze(env[v])) for v in self.fv(phi) if v in env and v not in own
                                                                   and not (v.op == "phi" and v.a[0] is lk))))
        try:
            st = self.memo.setdefault(("states", key), [a])
        except TypeError:
            return None
        n = env[("pos", l0.a[0])]
        if len(st) <= n:
            for p, e in enumerate(self.bind([l0], env)):
                if p >= n:
                    break
                if p + 1 < len(st):
                    continue
                b = st[p]
                for s, z in self.inorder([(l[1:], s) for l, s in todo], e):
                    b = self.write(b, s, z)
                st[p + 1:] = [b]
        return st[n]

    def o_load(self, t, env):
        base, key, h = t.a
        if base.op == "ndcell" and (base.a[0].op == "load" or base.a[0].op == "item" and base.a[0].a[1].op != "slc"):
            return self.item(self.writes(nd(self.ev(base.a[0], env)), h.a, env), self.ev(key, env))
        if base.op == "ndcell" and any(s.a[0] == "set" and (s.a[3].op == "slc" or s.a[3].op == "tuple" and any(x.op in ("slc", "listv", "collv") for x in s.a[3].a)
                                                              or not s.a[2].a and isinstance(self.ev(s.a[3], env), ND)) for s in self.known(h.a)):
            return self.item(self.ev(mk("ndw", base.a[0], *h.a), env), self.ev(key, env))
        return Rint.o_load(self, t, env)

    def known(self, segs):
        """Segments of a history, those of the earlier iterations of its loops included."""
        for s in segs:
            yield s
            if s.a[0] == "phi" and s.a[4].op == "phiof":
                yield from (self.it.phisegs or {}).get((s.a[3],) + s.a[4].a) or ()

    def ndbase(self, base, k, env):
        return self.item(self.ev(base.a[0], env), k)

    def o_concat(self, t, env):
        vs = [self.ev(x, env) for x in t.a]
        if any(isinstance(v, ND) for v in vs):
            return vcat(vs)
        return [y for x in t.a for y in self.seq(x, env)]

    def o_hconcat(self, t, env):
        return hcat([self.ev(x, env) for x in t.a])

    def o_len(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, ND):
            if not v.sh:
                raise Undef("length of a scalar")
            return v.sh[0]
        return Rint.o_len(self, t, env)

    def o_size(self, t, env):
        v = self.ev(t.a[0], env)
        return len(v.d) if isinstance(v, ND) else 1 if not isarr(v) else len(nd(v).d)

    def o_shape(self, t, env):
        return nd(self.ev(t.a[0], env)).sh

    def o_bmx(self, t, env):
        if t.a[1] in ("shape", "size", "T", "dtype", "ndim"):
            v = self.ev(t.a[0], env)
            if isinstance(v, (ND, list, tuple, Lin, float, int)):
                v = nd(v)
                return {"shape": v.sh, "size": len(v.d), "ndim": len(v.sh), "dtype": "dtype"}[t.a[1]] if t.a[1] != "T" else transpose(v)
        raise Unsup("bmx " + str(t.a[1]))

    def o_attr(self, t, env):
        if t.a[1] in ("dtype", "ndim"):
            try:
                v = self.ev(t.a[0], env)
            except Unsup:
                v = None
            if isinstance(v, (ND, list)):
                return "dtype" if t.a[1] == "dtype" else len(nd(v).sh)
        return Rint.o_attr(self, t, env)

    def o_matmul(self, t, env):
        return matmul(self.ev(t.a[0], env), self.ev(t.a[1], env))

    def o_transpose(self, t, env):
        return transpose(self.ev(t.a[0], env))

    def o_flat(self, t, env):
        v = nd(self.ev(t.a[0], env))
        return ND((len(v.d),), v.d)

    def o_nonzero(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, ND) and len(v.sh) == 1:
            return nd([i for i, x in enumerate(v.d) if self.num(x)])
        return Rint.o_nonzero(self, t, env)

    def o_sum(self, t, env):
        r = 0
        for e in self.bind(t.a[0], env):
            r = bcast(lambda x, y: self.num(x) + self.num(y), r, self.ev(t.a[1], e))
        return r

    def o_npsum(self, t, env):
        v = self.ev(t.a[0], env)
        return sum((self.num(x) for x in nd(v).d), 0)

    def o_min(self, t, env):
        vs = [un(x) for x in self.spread(t.a, env)]
        if len(vs) == 2 and any(isinstance(v, ND) for v in vs):
            return bcast(lambda x, y: min(self.num(x), self.num(y)), *vs)
        if len(t.a) == 1:
            vs = list(nd(vs[0]).d)
            if not vs:
                raise Undef("minimum of nothing")
        return min(self.num(x) for x in vs)

    def o_max(self, t, env):
        vs = [un(x) for x in self.spread(t.a, env)]
        if len(vs) == 2 and any(isinstance(v, ND) for v in vs):
            return bcast(lambda x, y: max(self.num(x), self.num(y)), *vs)
        if len(t.a) == 1:
            vs = list(nd(vs[0]).d)
            if not vs:
                raise Undef("maximum of nothing")
        return max(self.num(x) for x in vs)

    def o_sparse(self, t, env):
        return self.ev(t.a[0], env)

    def o_nxarr(self, t, env):
        m = Rint.o_nxarr(self, t, env)
        return nd(m) if m else ND((0, 0), ())

    def o_call(self, t, env):
        n = t.a[0]
        if n.op == "s" and callable(env.get(n)):
            return env[n](*self.spread(t.a[1:], env))
        if n.op != "ext":
            raise Unsup("call")
        f = CALLS.get(n.a[0])
        if f is None:
            if n.a[0].startswith(("numpy.", "scipy.", "networkx.", "thewalrus.")):
                if n.a[0] != "networkx.connected_components":
                    raise Unsup("call " + n.a[0])
            return Rint.o_call(self, t, env)
        a = self.spread(t.a[1:], env) if n.a[0] not in LAZY else [x for x in t.a[1:] if x.op != "kw"]
        k = {x.a[0]: x.a[1] for x in t.a[1:] if x.op == "kw"}
        r = f(self, a, k, env)
        if isinstance(r, ND):
            r = ND(r.sh, r.d, storage(n.a[0], a, r))
        return r

    def o_isinstance(self, t, env):
        v = self.ev(t.a[0], env)
        c = t.a[1]
        while c.op == "ite":
            q = c.a[0]
            if q.op == "hasattr" and "sparray" in repr(q.a):
                c = c.a[1]          # the installed scipy has sparse arrays
            else:
                c = c.a[1] if self.truthy(self.ev(q, env)) else c.a[2]
        if isinstance(v, ND) and v.sp is not None and c.op == "ext":
            c = c.a[0]
            if c == "numpy.ndarray":
                return v.sp is False
            if c == "scipy.sparse.sparray":
                return v.sp == "array"
            if c == "scipy.sparse.spmatrix":
                return v.sp == "matrix"
        return Rint.o_isinstance(self, t, env)

    def o_mcall(self, t, env):
        name = t.a[0]
        f = MCALLS.get(name)
        if f is None:
            raise Unsup("mcall " + str(name))
        v = self.ev(t.a[1], env)
        if not isinstance(v, ND):
            raise Unsup("mcall %s of %s" % (name, type(v).__name__))
        a = self.spread(t.a[2:], env)
        k = {x.a[0]: self.ev(x.a[1], env) for x in t.a[2:] if x.op == "kw"}
        r = f(v, a, k)
        if isinstance(r, ND) and name in ("toarray", "todense", "tocsr", "tocoo", "tocsc"):
            r = ND(r.sh, r.d, v.sp if name.startswith("toc") else False)
        return r

    # ------------------------------------------------------------- draws
    def o_draw(self, t, env):
        name, rng, args, ep, no = t.a[:5]
        a = [self.ev(x, env) for x in args.a if x.op != "kw"]
        k = {x.a[0]: self.ev(x.a[1], env) for x in args.a if x.op == "kw"}
        inst = (no,) + tuple(freeze(env[x]) if x in env else None for x in t.a[5:])
        if any(x not in env for x in t.a[5:]):
            raise Unsup("draw outside its loop")
        f = DRAW.get(name)
        if f is None:
            raise Unsup("draw " + name)
        r = f(self, inst, a, k)
        if self.logs is not None:
            self.logs[inst] = (name, a, k, r)
        return r

    def var(self, kind, inst, p):
        if self.sample:
            key = (kind, inst, p)
            self.touch.add(key)
            h = self.over[key] if key in self.over else hnum("draw", kind, inst, p, self.sample)
            return (h - 0.5) * 4 if kind == "Z" else h if kind == "U" else int(h < 0.5) if kind == "B" else int(h * int(kind[1:]))
        return Lin(0, {(kind, inst, p): 1})

    def draws(self, kind, inst, size):
        if size is None:
            return self.var(kind, inst, 0)
        z = full(size, 0)
        return ND(z.sh, [self.var(kind, inst, p) for p in range(len(z.d))])


def par(a, k, names, defaults):
    d = dict(zip(names, defaults))
    if len(a) > len(names) or set(k) - set(names):
        raise Unsup("arguments of a draw")
    d.update(zip(names, a))
    d.update(k)
    return [d[n] for n in names]


def d_normal(r, inst, a, k):
    loc, scale, size = par(a, k, ("loc", "scale", "size"), (0, 1, None))
    if size is None:
        b = bcast(lambda x, y: 0, loc, scale)
        size = b.sh if isinstance(b, ND) else None
    z = r.draws("Z", inst, size)
    return bcast(lambda m, s, y: m + s * y, loc, scale, z)


def d_stdnormal(r, inst, a, k):
    return r.draws("Z", inst, par(a, k, ("size", "dtype", "out"), (None,) * 3)[0])


def d_random(r, inst, a, k):
    return r.draws("U", inst, par(a, k, ("size", "dtype", "out"), (None,) * 3)[0])


def d_uniform(r, inst, a, k):
    lo, hi, size = par(a, k, ("low", "high", "size"), (0, 1, None))
    u = r.draws("U", inst, size)
    return bcast(lambda y: lo + (hi - lo) * y, u)


def d_integers(r, inst, a, k):
    lo, hi, size, end, _ = par(a, k, ("low", "high", "size", "endpoint", "dtype"), (0, None, None, False, None))
    if hi is None:
        lo, hi = 0, lo
    if isarr(lo) or isarr(hi):
        raise Unsup("integers with array bounds")
    if end:
        hi += 1
    if hi - lo == 2:
        return bcast(lambda y: lo + y, r.draws("B", inst, size))
    if hi - lo == 1:
        return full(size, lo) if size is not None else lo
    if r.sample:
        return bcast(lambda y: int(lo + (hi - lo) * y), r.draws("U", inst, size))
    return bcast(lambda y: lo + y, r.draws("I%d" % (hi - lo), inst, size))


def d_binomial(r, inst, a, k):
    n, p, size = par(a, k, ("n", "p", "size"), (1, 0.5, None))
    if isarr(n) or isarr(p):
        raise Unsup("binomial with arrays")
    if n == 1 and r.sample:
        return bcast(lambda y: int(y < p), r.draws("U", inst, size))
    if r.sample and n <= 60:
        def inv(u):
            t = 0
            for y in range(n):
                t += math.comb(n, y) * p ** y * (1 - p) ** (n - y)
                if u < t:
                    return y
            return n
        return bcast(inv, r.draws("U", inst, size))
    if size is not None:
        raise Unsup("binomial with size")
    return int(hnum("binomial", inst, r.sample) * (n + 1))


def d_choice(r, inst, a, k):
    x, size, rep, p, ax, sh = par(a, k, ("a", "size", "replace", "p", "axis", "shuffle"), (None, None, True, None, 0, True))
    xs = list(range(int(x))) if not isarr(x) else list(nd(x).d)
    n = 1 if size is None else int(size)
    if p is not None:
        ps = list(nd(p).d)
        if len(ps) != len(xs):
            raise Undef("probabilities do not fit")
        xs = [y for y, q in zip(xs, ps) if q != 0]
    if rep and len(xs) == 2 and all(isinstance(x, (int, float)) for x in xs) and (p is None or list(nd(p).d) == [0.5, 0.5]) and not isinstance(x, range):
        return bcast(lambda y: xs[0] + (xs[1] - xs[0]) * y, r.draws("B", inst, size))
    if rep and r.sample and len(xs) > 0:
        ws = [q for q in nd(p).d if q != 0] if p is not None else [1 / len(xs)] * len(xs)

        def inv(u):
            t = 0
            for y, q in zip(xs, ws):
                t += q
                if u < t:
                    return y
            return xs[-1]
        return bcast(inv, r.draws("U", inst, size))
    if not rep:
        if n > len(xs):
            raise Undef("a sample larger than the population")
        order = sorted(range(len(xs)), key=lambda i: hnum("choice", inst, i, r.sample))
        out = [xs[i] for i in order[:n]]
    else:
        out = [xs[int(hnum("choice", inst, i, r.sample) * len(xs))] for i in range(n)]
    return out[0] if size is None else nd(out)


def d_permutation(r, inst, a, k):
    x = a[0]
    xs = list(range(int(x))) if not isarr(x) else nd(x).rows() if isinstance(x, ND) else list(x)
    order = sorted(range(len(xs)), key=lambda i: hnum("perm", inst, i, r.sample))
    return nd([xs[i] for i in order])


DRAW = {"normal": d_normal, "standard_normal": d_stdnormal, "random": d_random, "uniform": d_uniform, "integers": d_integers,
        "binomial": d_binomial, "choice": d_choice, "permutation": d_permutation}


# ------------------------------------------------------------------ library functions over arrays
WE = mk("s", "?we", None)


def graph_matrix(self, a, k, env):
    """networkx.to_*_array / adjacency_matrix of a sample graph (unit weights)."""
    g = self.graph(a[0], env) if isinstance(a[0], T) else a[0]
    w = k.get("weight")
    nl = k.get("nodelist", a[1] if len(a) > 1 else None)
    ns = list(g.nodes) if nl is None or nl is NONE else [freeze(x) for x in self.seq(nl, env)]
    if len(set(ns)) != len(ns) or any(n not in g.adj for n in ns):
        raise Undef("nodelist has nodes that are not in the graph, or twice")
    pos = {n: i for i, n in enumerate(ns)}
    m = [[0] * len(ns) for _ in ns]
    w = "weight" if w is None else w.a[0] if isinstance(w, T) and w is not NONE else None
    wt = self.it.lib.getitem(mk("eattr", a[0], WE), C(w)) if w is not None and isinstance(a[0], T) and self.it is not None else None
    for u, v in g.edges:
        if u in pos and v in pos:
            x = 1
            if wt is not None:
                try:
                    x = self.num(self.ev(wt, {**env, WE: (u, v)}))
                except Undef as e:
                    if "never written" not in str(e):
                        raise
            m[pos[u]][pos[v]] = m[pos[v]][pos[u]] = x
    return nd(m) if ns else ND((0, 0), ())


def c_block(self, a, k, env):
    rows = a[0]
    if isinstance(rows, ND):
        return rows
    if not rows or not isarr(rows[0]):
        return hcat(rows)
    return vcat([hcat(r) for r in rows])


def c_bmat(self, a, k, env):
    rows = [list(r) for r in a[0]]
    hs = [next((nd(x).sh[0] for x in r if x is not None), None) for r in rows]
    ws = [next((nd(r[j]).sh[1] for r in rows if r[j] is not None), None) for j in range(len(rows[0]))]
    return vcat([hcat([nd(x) if x is not None else full((hs[i], ws[j]), 0) for j, x in enumerate(r)]) for i, r in enumerate(rows)])


def c_csr(self, a, k, env):
    x = a[0]
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) for y in x):
        return full(x, 0)
    return nd(x)


def c_eye(self, a, k, env):
    if len(a) > 1 and a[1] is not None and a[1] != a[0]:
        raise Unsup("rectangular identity")
    return eye(a[0])


def c_isscalar(self, a, k, env):
    return not isarr(a[0])


def c_delete(self, a, k, env):
    v, i = nd(a[0]), a[1]
    if len(v.sh) != 1:
        raise Unsup("delete")
    drop = set(axis_sel(nd(i) if isarr(i) else nd([i]), v.sh[0])[0])
    d = [x for j, x in enumerate(v.d) if j not in drop]
    return ND((len(d),), d)


def c_reshape(self, a, k, env):
    v = nd(a[0])
    sh = a[1] if isarr(a[1]) else (a[1],)
    return reshape(v, sh)


def reshape(v, sh):
    sh = [int(x) for x in (sh.d if isinstance(sh, ND) else sh)]
    if sh.count(-1) == 1:
        n = 1
        for x in sh:
            n *= x if x != -1 else 1
        sh[sh.index(-1)] = len(v.d) // n if n else 0
    return ND(sh, v.d)


def c_isclose(self, a, k, env):
    return bcast(lambda x, y: abs(x - y) <= 1e-8 + 1e-5 * abs(y), a[0], a[1])


def ew(f):
    def g(self, a, k, env):
        if k:
            raise Unsup("keyword arguments")
        try:
            return bcast(lambda *xs: f(*[self.num(x) for x in xs]), *a)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Undef("domain")
    return g


def noexp(x):
    if isinstance(x, Lin):
        raise Unsup("function of a random variable")
    return math.exp(x) if x > -745 else 0.0


def c_sum(self, a, k, env):
    v = nd(a[0])
    ax = a[1] if len(a) > 1 else self.ev(k["axis"], env) if "axis" in k else None
    if ax is None:
        return sum(v.d)
    if ax in (0, -len(v.sh)):
        r = v.rows()
        if not r:
            raise Unsup("empty sum")
        s = r[0]
        for x in r[1:]:
            s = bcast(lambda p, q: p + q, s, x)
        return s
    raise Unsup("sum over an axis")


def alike(f, n=None):
    """Function of whole arrays without keyword arguments."""
    def g(self, a, k, env):
        if k or n is not None and len(a) != n:
            raise Unsup("keyword arguments")
        return f(*[nd(x) for x in a])
    return g


def mat(f):
    """Matrix from a predicate-like rule over (i, j, entry)."""
    def g(self, a, k, env):
        v = nd(a[0])
        d = int(a[1]) if len(a) > 1 else int(self.ev(k["k"], env)) if "k" in k else 0
        if len(v.sh) != 2:
            raise Unsup("matrix operation on another shape")
        return ND(v.sh, [x if f(j - i, d) else 0 for i, r in enumerate(v.rows()) for j, x in enumerate(r.d)])
    return g


def kron(a, b):
    if len(a.sh) != 2 or len(b.sh) != 2:
        raise Unsup("kron")
    (n, m), (p, q) = a.sh, b.sh
    return ND((n * p, m * q), [a.d[i * m + j] * b.d[r * q + s] for i in range(n) for r in range(p) for j in range(m) for s in range(q)])


def diag(v, *_):
    if _:
        raise Unsup("diag")
    if len(v.sh) == 1:
        n = len(v.d)
        return ND((n, n), [v.d[i] if i == j else 0 for i in range(n) for j in range(n)])
    return ND((min(v.sh),), [v.d[i * v.sh[1] + i] for i in range(min(v.sh))])


def repeat(v, n):
    if len(n.d) != 1:
        raise Unsup("repeat")
    return ND((len(v.d) * int(n.d[0]),), [x for x in v.d for _ in range(int(n.d[0]))])


def tile(v, n):
    if len(n.d) != 1 or len(v.sh) > 1:
        raise Unsup("tile")
    return ND((len(v.d) * int(n.d[0]),), list(v.d) * int(n.d[0]))


def cumsum(v):
    s, out = 0, []
    for x in v.d:
        s = s + x
        out.append(s)
    return ND((len(out),), out)


def blockdiag(self, a, k, env):
    vs = [nd(x) for x in a]
    vs = [reshape(v, (1, -1)) if len(v.sh) < 2 else v for v in vs]
    w = sum(v.sh[1] for v in vs)
    d, off = [], 0
    for v in vs:
        for r in v.rows():
            d += [0] * off + list(r.d) + [0] * (w - off - v.sh[1])
        off += v.sh[1]
    return ND((sum(v.sh[0] for v in vs), w), d)


def c_where(self, a, k, env):
    if len(a) != 3:
        raise Unsup("where")
    return bcast(lambda c, x, y: x if self.truthy(c) else y, *a)


def c_expand(self, a, k, env):
    """thewalrus.symplectic.expand(S, modes, N): S acting on the given modes of N."""
    s, modes, n = par(a, {q: self.ev(x, env) for q, x in k.items()}, ("S", "modes", "N"), (None,) * 3)
    s, n = nd(s), int(n)
    modes = [int(m) for m in nd(modes).d] if isarr(modes) else [int(modes)]
    m = len(modes)
    if s.sh != (2 * m, 2 * m) or len(set(modes)) != m or any(not 0 <= x < n for x in modes):
        raise Undef("modes do not fit the matrix")
    pos = modes + [x + n for x in modes]
    d = list(eye(2 * n).d)
    for i, p in enumerate(pos):
        for j, q in enumerate(pos):
            d[p * 2 * n + q] = s.d[i * 2 * m + j]
    return ND((2 * n, 2 * n), d)


def c_beamsplitter(self, a, k, env):
    """thewalrus.symplectic.beam_splitter(theta, phi)."""
    th, ph = par(a, {q: self.ev(x, env) for q, x in k.items()}, ("theta", "phi"), (None,) * 2)
    ct, st, cp, sp = math.cos(th), math.sin(th), math.cos(ph), math.sin(ph)
    return nd([[ct, -cp * st, 0, -st * sp], [cp * st, ct, -st * sp, 0], [0, st * sp, ct, -cp * st], [st * sp, 0, cp * st, ct]])


def c_components(self, a, k, env):
    """scipy.sparse.csgraph.connected_components of an undirected graph (labels in order of the smallest member)."""
    k = {q: self.ev(x, env) for q, x in k.items()}
    m = nd(a[0])
    if len(a) > 1 or set(k) - {"directed", "return_labels", "connection"} or k.get("connection", "weak") != "weak":
        raise Unsup("keyword arguments")
    if len(m.sh) != 2 or m.sh[0] != m.sh[1]:
        raise Undef("components of a matrix that is not square")
    n, lab, c = m.sh[0], {}, 0
    for i in range(n):
        if i in lab:
            continue
        todo = [i]
        while todo:
            x = todo.pop()
            if x not in lab:
                lab[x] = c
                todo += [y for y in range(n) if m.d[x * n + y] or m.d[y * n + x]]
        c += 1
    return (c, ND((n,), [lab[i] for i in range(n)])) if k.get("return_labels", True) else c


def c_concatenate(self, a, k, env):
    xs, ax = par(a, {q: self.ev(x, env) for q, x in k.items()}, ("arrays", "axis"), (None, 0))
    xs = [nd(x) for x in xs]
    if ax is None:
        return hcat([reshape(x, (-1,)) for x in xs])
    d = {len(x.sh) for x in xs}
    if len(d) != 1 or not isinstance(ax, int) or not -max(d) <= ax < max(d):
        raise Undef("arrays of different dimension concatenated")
    d, ax = max(d), ax % max(d)
    if d == 1 or ax == 0:
        return vcat(xs)
    if d == 2:
        return hcat(xs)
    raise Unsup("concatenate")


def c_ix(self, a, k, env):
    r = []
    for i, x in enumerate(a):
        x = nd(x)
        d = list(x.d)
        if len(x.sh) != 1:
            raise Undef("index of the wrong shape")
        if d and all(isinstance(y, bool) for y in d):
            d = [j for j, y in enumerate(d) if y]
        r.append(ND((1,) * i + (len(d),) + (1,) * (len(a) - 1 - i), d))
    return tuple(r)


def c_outer(f):
    return alike(lambda x, y: ND(x.sh + y.sh, [f(p, q) for p in x.d for q in y.d]), 2)


CALLS = {
    "numpy.multiply.outer": c_outer(lambda p, q: p * q), "numpy.logical_and.outer": c_outer(lambda p, q: bool(p) and bool(q)),
    "numpy.bitwise_and.outer": c_outer(lambda p, q: p & q), "numpy.ix_": c_ix, "scipy.sparse.csgraph.connected_components": c_components,
    "builtins.any": lambda s, a, k, e: any(s.truthy(x) for x in (a[0].d if isinstance(a[0], ND) else list(a[0]))),
    "builtins.all": lambda s, a, k, e: all(s.truthy(x) for x in (a[0].d if isinstance(a[0], ND) else list(a[0]))),
    "numpy.bitwise_xor": ew(lambda x, y: x ^ y),
    "numpy.where": c_where, "numpy.triu": mat(lambda x, d: x >= d), "numpy.tril": mat(lambda x, d: x <= d), "scipy.sparse.triu": mat(lambda x, d: x >= d),
    "scipy.sparse.tril": mat(lambda x, d: x <= d), "numpy.kron": alike(kron, 2), "numpy.diag": alike(diag), "numpy.repeat": alike(repeat, 2),
    "numpy.tile": alike(tile, 2), "numpy.cumsum": alike(cumsum, 1), "scipy.linalg.block_diag": blockdiag,
    "numpy.outer": alike(lambda x, y: ND((len(x.d), len(y.d)), [p * q for p in x.d for q in y.d]), 2),
    "numpy.clip": lambda s, a, k, e: bcast(lambda x, l, h: min(max(x, l), h), *a[:3]),
    "numpy.square": ew(lambda x: x * x), "numpy.absolute": ew(abs), "numpy.fabs": ew(abs), "numpy.cos": ew(math.cos), "numpy.sin": ew(math.sin),
    "numpy.argsort": alike(lambda v: nd(sorted(range(len(v.d)), key=lambda i: v.d[i])), 1),
    "numpy.mean": alike(lambda v: sum(v.d) / len(v.d), 1), "numpy.roll": alike(lambda v, n: nd([v.d[(i - int(n.d[0])) % len(v.d)] for i in range(len(v.d))]), 2),
    "numpy.take": lambda s, a, k, e: getidx(nd(a[0]), a[1]), "numpy.column_stack": lambda s, a, k, e: transpose(vcat([reshape(nd(x), (1, -1)) for x in a[0]])),
    "numpy.stack": lambda s, a, k, e: nd(list(a[0])) if not k else full(-1, 0), "numpy.append": lambda s, a, k, e: hcat([nd(a[0]), reshape(nd(a[1]), (-1,))]),
    "numpy.true_divide": ew(lambda x, y: x / y), "numpy.squeeze": alike(lambda v: un(ND([n for n in v.sh if n != 1], v.d)), 1),
    "thewalrus.symplectic.expand": c_expand, "thewalrus.symplectic.beam_splitter": c_beamsplitter,
    "networkx.to_scipy_sparse_array": graph_matrix, "networkx.to_numpy_array": graph_matrix, "networkx.adjacency_matrix": graph_matrix,
    "networkx.to_scipy_sparse_matrix": graph_matrix,
    "scipy.sparse.identity": c_eye, "scipy.sparse.eye": c_eye, "numpy.eye": c_eye, "numpy.identity": c_eye, "scipy.sparse.eye_array": c_eye,
    "scipy.sparse.bmat": c_bmat, "scipy.sparse.block_array": c_bmat, "numpy.block": c_block,
    "scipy.sparse.csr_matrix": c_csr, "scipy.sparse.csr_array": c_csr, "scipy.sparse.coo_matrix": c_csr, "scipy.sparse.coo_array": c_csr,
    "numpy.isscalar": c_isscalar, "numpy.delete": c_delete, "numpy.reshape": c_reshape, "numpy.isclose": c_isclose,
    "numpy.exp": ew(noexp), "numpy.floor": ew(math.floor), "numpy.ceil": ew(math.ceil), "numpy.log": ew(math.log), "numpy.round": ew(lambda x, d=0: round(x, int(d)) if d else round(x)),
    "numpy.rint": ew(round), "numpy.log10": ew(math.log10), "scipy.special.erf": ew(math.erf), "numpy.fmod": ew(math.fmod), "math.fmod": ew(math.fmod),
    "numpy.trunc": ew(math.trunc), "numpy.fix": ew(math.trunc), "math.trunc": ew(math.trunc), "numpy.around": ew(lambda x, d=0: round(x, int(d))),
    "numpy.sign": ew(lambda x: (x > 0) - (x < 0)), "numpy.modf": lambda s, a, k, e: (ew(lambda x: math.modf(x)[0])(s, a, k, e), ew(lambda x: math.modf(x)[1])(s, a, k, e)),
    "math.modf": lambda s, a, k, e: math.modf(a[0]), "numpy.hypot": ew(math.hypot), "numpy.tan": ew(math.tan), "numpy.expm1": ew(math.expm1),
    "numpy.log1p": ew(math.log1p), "numpy.log2": ew(math.log2), "numpy.tanh": ew(math.tanh), "numpy.reciprocal": ew(lambda x: 1 / x),
    "numpy.float_power": ew(lambda x, y: float(x) ** y), "numpy.copysign": ew(math.copysign), "math.copysign": ew(math.copysign),
    "numpy.logical_and": ew(lambda x, y: bool(x) and bool(y)), "numpy.logical_or": ew(lambda x, y: bool(x) or bool(y)),
    "numpy.logical_xor": ew(lambda x, y: bool(x) != bool(y)), "numpy.bitwise_and": ew(lambda x, y: x & y), "numpy.bitwise_or": ew(lambda x, y: x | y),
    "numpy.heaviside": ew(lambda x, h: h if x == 0 else float(x > 0)), "numpy.real": ew(lambda x: x), "numpy.float64": ew(float),
    "numpy.count_nonzero": lambda s, a, k, e: sum(1 for x in nd(a[0]).d if x),
    "math.isclose": lambda s, a, k, e: math.isclose(*a, **{q: s.ev(x, e) for q, x in k.items()}), "math.sin": ew(math.sin), "math.cos": ew(math.cos),
    "math.erf": ew(math.erf), "math.erfc": ew(math.erfc), "scipy.special.erfc": ew(math.erfc), "math.hypot": ew(math.hypot), "math.log2": ew(math.log2),
    "numpy.sum": c_sum, "numpy.concatenate": c_concatenate, "numpy.hstack": lambda s, a, k, e: hcat(list(a[0])),
    "numpy.vstack": lambda s, a, k, e: vcat([nd(x) if len(nd(x).sh) > 1 else reshape(nd(x), (1, -1)) for x in a[0]]),
    "numpy.transpose": lambda s, a, k, e: transpose(a[0]), "numpy.shape": lambda s, a, k, e: nd(a[0]).sh,
    "numpy.ravel": lambda s, a, k, e: reshape(nd(a[0]), (-1,)), "numpy.amax": lambda s, a, k, e: max(nd(a[0]).d), "numpy.amin": lambda s, a, k, e: min(nd(a[0]).d), "numpy.ptp": lambda s, a, k, e: max(nd(a[0]).d) - min(nd(a[0]).d),
    "numpy.max": lambda s, a, k, e: max(nd(a[0]).d), "numpy.min": lambda s, a, k, e: min(nd(a[0]).d), "numpy.median": lambda s, a, k, e: sorted(nd(a[0]).d)[len(nd(a[0]).d) // 2] if len(nd(a[0]).d) % 2 else sum(sorted(nd(a[0]).d)[len(nd(a[0]).d) // 2 - 1:][:2]) / 2,
    "numpy.setdiff1d": lambda s, a, k, e: nd(sorted(set(nd(a[0]).d) - set(nd(a[1]).d))),
    "numpy.unique": lambda s, a, k, e: nd(sorted(set(nd(a[0]).d))),
    "numpy.union1d": lambda s, a, k, e: nd(sorted(set(nd(a[0]).d) | set(nd(a[1]).d))),
    "numpy.intersect1d": lambda s, a, k, e: nd(sorted(set(nd(a[0]).d) & set(nd(a[1]).d))),
    "numpy.sort": lambda s, a, k, e: nd(sorted(nd(a[0]).d)),
}
LAZY = ("networkx.to_scipy_sparse_array", "networkx.to_numpy_array", "networkx.adjacency_matrix", "networkx.to_scipy_sparse_matrix")

def storage(name, a, r):
    """How the result of a library call is stored: False (dense), "array", "matrix" or None (not known)."""
    if name in ("networkx.to_scipy_sparse_array", "networkx.adjacency_matrix"):
        return "array"
    if name == "networkx.to_scipy_sparse_matrix":
        return "matrix"
    if name.startswith("scipy.sparse."):
        if name in ("scipy.sparse.bmat", "scipy.sparse.block_array"):
            sp = {x.sp for row in a[0] for x in row if isinstance(x, ND)}
            return None if None in sp else "array" if "array" in sp or name.endswith("array") else "matrix"
        return "array" if name.endswith("_array") else "matrix" if name.endswith(("_matrix", "identity", ".eye")) else None
    if name in ("numpy.transpose", "numpy.dot", "numpy.copy", "numpy.squeeze"):
        return None
    return False


def c_issparse(self, a, k, env):
    if not isinstance(a[0], ND):
        return False
    if a[0].sp is None:
        raise Unsup("issparse")
    return a[0].sp is not False


CALLS["scipy.sparse.issparse"] = c_issparse


def c_broadcast_to(self, a, k, env):
    sh = tuple(int(x) for x in (lst_(a[1]) if isarr(a[1]) else [a[1]]))
    v = bcast(lambda x, y: x, a[0], full(sh, 0))
    if nd(v).sh != sh:
        raise Undef("broadcast of %r to %r" % (nd(a[0]).sh, sh))
    return v


def lst_(v):
    return list(nd(v).d)


def c_compress(self, a, k, env):
    c, v = nd(a[0]), nd(a[1])
    if len(v.sh) != 1 or k or len(a) > 2:
        raise Unsup("compress")
    return nd([x for b, x in zip(c.d, v.d) if b])


def c_searchsorted(self, a, k, env):
    import bisect
    if k or len(a) > 2:
        raise Unsup("searchsorted")
    v = list(nd(a[0]).d)
    return bcast(lambda x: bisect.bisect_left(v, x), a[1])


def c_select(self, a, k, env):
    r = a[2] if len(a) > 2 else self.ev(k["default"], env) if "default" in k else 0
    for c, v in reversed(list(zip(a[0], a[1]))):
        r = bcast(lambda p, q, d: q if p else d, c, v, r)
    return r


CALLS.update({
    "numpy.linalg.norm": alike(lambda v: math.sqrt(sum(x * x for x in v.d)), 1), "math.log10": ew(math.log10),
    "math.dist": alike(lambda v, w: math.sqrt(sum((x - y) ** 2 for x, y in zip(v.d, w.d))), 2),
    "numpy.broadcast_to": c_broadcast_to, "numpy.compress": c_compress, "numpy.extract": c_compress, "numpy.searchsorted": c_searchsorted,
    "numpy.select": c_select, "numpy.flip": alike(lambda v: nd(v.rows()[::-1]), 1), "numpy.flipud": alike(lambda v: nd(v.rows()[::-1]), 1),
    "numpy.prod": alike(lambda v: math.prod(v.d), 1), "numpy.bincount": alike(lambda v: nd([list(v.d).count(i) for i in range(int(max(v.d, default=-1)) + 1)]), 1),
    "numpy.isfinite": ew(lambda x: math.isfinite(x)), "numpy.isnan": ew(lambda x: x != x), "numpy.nan_to_num": ew(lambda x: 0.0 if x != x else x),
    "numpy.atleast_1d": alike(lambda v: v if v.sh else ND((1,), v.d), 1), "numpy.int64": ew(int), "numpy.int32": ew(int), "numpy.bool_": ew(bool),
    "numpy.diff": alike(lambda v: nd([y - x for x, y in zip(v.d, v.d[1:])]), 1), "numpy.mod": ew(lambda x, y: x % y), "numpy.remainder": ew(lambda x, y: x % y),
    "numpy.array_equal": lambda s, a, k, e: nd(a[0]).sh == nd(a[1]).sh and nd(a[0]).d == nd(a[1]).d, "numpy.ndim": lambda s, a, k, e: len(nd(a[0]).sh),
    "numpy.inner": lambda s, a, k, e: matmul(a[0], transpose(a[1])), "numpy.average": alike(lambda v: sum(v.d) / len(v.d), 1),
    "numpy.var": alike(lambda v: sum((x - sum(v.d) / len(v.d)) ** 2 for x in v.d) / len(v.d), 1), "numpy.cosh": ew(math.cosh), "numpy.sinh": ew(math.sinh),
    "numpy.arange": lambda s, a, k, e: nd(list(range(*[int(x) for x in a]))) if not k and all(float(x) == int(x) for x in a) else full(-1, 0),
})

MCALLS = {
    "toarray": lambda v, a, k: v, "todense": lambda v, a, k: v, "tocsr": lambda v, a, k: v, "tocoo": lambda v, a, k: v, "tocsc": lambda v, a, k: v, "tolist": lambda v, a, k: v,
    "flatten": lambda v, a, k: reshape(v, (-1,)), "ravel": lambda v, a, k: reshape(v, (-1,)),
    "reshape": lambda v, a, k: reshape(v, a[0] if len(a) == 1 and isarr(a[0]) else a), "transpose": lambda v, a, k: transpose(v),
    "dot": lambda v, a, k: matmul(v, a[0]), "copy": lambda v, a, k: v, "max": lambda v, a, k: max(v.d), "min": lambda v, a, k: min(v.d),
}

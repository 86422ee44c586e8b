"""Abstract models of the Python built-ins and of the libraries flamingpy uses.

Containers, numpy arrays, networkx / rustworkx graphs, random generators, files
and csv writers are modelled by their *effects* (which cell is written with
which value under which condition); everything else is an uninterpreted term.
"""
import ast
import math
from fractions import Fraction

from .terms import *
from . import terms as tm

ABSENT = Ext("absent")

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "popitem",
       "setdefault", "intersection_update", "difference_update", "symmetric_difference_update", "add_node", "add_edge",
       "add_nodes_from", "add_edges_from", "remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from",
       "add_weighted_edges_from", "fill", "resize", "put", "itemset", "setflags", "partition", "byteswap", "setdiag",
       "eliminate_zeros", "sum_duplicates", "__setitem__", "__delitem__", "appendleft", "popleft", "add_parent", "add_child"}
DRAWS = {"normal", "random", "integers", "choice", "binomial", "permutation", "shuffle", "uniform", "standard_normal",
         "exponential", "poisson", "permuted", "bytes", "multivariate_normal", "rand", "randn", "randint", "random_sample",
         "geometric", "beta", "gamma", "multinomial", "laplace", "sample", "gauss", "choices", "randrange", "random_integers",
         "logistic", "bernoulli", "rvs"}
GRAPHS = ("networkx.Graph", "networkx.DiGraph", "networkx.MultiGraph", "networkx.classes.graph.Graph")
RXG = ("rustworkx.PyGraph", "retworkx.PyGraph")
NPPURE = ("numpy.", "scipy.", "builtins.", "math.", "thewalrus.", "operator.", "functools.", "itertools.", "copy.", "collections.")


def iskey(t):
    """A dictionary key that is a constant or a tuple of constants."""
    return isc(t) or t.op == "tuple" and all(isc(x) for x in t.a)


def pykey(t):
    return t.a[0] if isc(t) else tuple(x.a[0] for x in t.a)


def keyt(k):
    return mk("tuple", *[C(x) for x in k]) if isinstance(k, tuple) else C(k)


FANCY = ("concat", "vec", "nd", "ndw", "arange")


class Lib:
    def __init__(self, it):
        self.it = it
        self.types = {}
        self.views = {}

    # ----------------------------------------------------------- shorthands
    @property
    def st(self):
        return self.it.st

    def obj(self, t):
        return self.it.obj(t) if isinstance(t, T) else None

    def kind(self, t):
        o = self.obj(t)
        return o.kind if o else None

    def rel(self, o):
        """Guard and loops of the current point relative to o's allocation."""
        g, a = self.st.guard, o.aguard
        i = 0
        while i < len(g) and i < len(a) and g[i] is a[i]:
            i += 1
        l, b = self.st.loops, o.aloops
        j = 0
        while j < len(l) and j < len(b) and l[j] is b[j]:
            j += 1
        return g[i:], l[j:]

    def addseg(self, t, kind, key, val, field=None):
        from .interp import Seg
        o = self.it.wobj(t)
        if field is None:
            self.unorder(t, o)
        g, l = self.rel(o)
        s = Seg(kind, g, l, key, val, self.it.epoch, self.it.site())
        if field in ("addn", "adde", "rm"):
            self.it.gclock += 1
            s.n = self.it.gclock
        if field is None:
            o.segs = o.segs + (s,)
        else:
            o.fields[field] = tuple(o.fields.get(field, ())) + (s,)
        return s

    def unorder(self, t, o):
        """Elements are added to a sorted or duplicate-free list: what it holds so far becomes one block."""
        if o.kind == "list" and (o.meta.get("order") or o.meta.get("distinct")):
            from .interp import Seg
            v = self.val(t)
            o.segs = (Seg("spread", (), (), None, v, self.it.epoch, self.it.site()),)
            o.meta = {k: x for k, x in o.meta.items() if k not in ("order", "distinct")}

    def addover(self, key, kind, k, v):
        from .interp import Seg
        # loops the object itself depends on select the object, they do not repeat the write
        loops = tuple(l for l in self.st.loops if not (l.op == "loop" and contains(key[0], lambda x: x is l.a[0])))
        s = Seg(kind, self.st.guard, loops, k, v, self.it.epoch, self.it.site())
        self.st.over = dict(self.st.over)
        self.st.over[key] = tuple(self.st.over.get(key, ())) + (s,)

    # ----------------------------------------------------------- allocation
    def mklist(self, items):
        t = self.it.new("list")
        for x in items:
            self.addseg(t, "elem", None, x)
        return t

    def mkset(self, items):
        t = self.it.new("set")
        for x in items:
            self.addseg(t, "elem", None, x)
        return t

    def mkdict(self):
        return self.it.new("dict")

    def mknd(self, base):
        t = self.it.new("nd")
        self.it.wobj(t).meta = {"base": base}
        return t

    def fromiter(self, kind, x, order=None):
        """list(x) / set(x) / sorted(x)."""
        t = self.it.new(kind)
        try:
            return self.fromiter_(kind, x, t)
        finally:
            if order:
                n = self.it.wobj(t)
                n.meta = {**n.meta, "order": order}

    def fromiter_(self, kind, x, t):
        o = self.obj(x)
        if o and o.kind in ("list", "set") and not o.meta.get("order") and not any(
                s.kind not in ("elem", "spread") for s in o.segs):
            n = self.it.wobj(t)
            n.segs = tuple(o.segs)
            if kind == "list" and (o.kind == "set" or o.meta.get("distinct")):
                n.meta = {**n.meta, "distinct": True}
            return t
        items = self.exact_items(x)
        if items is not None:
            for y in items:
                self.addseg(t, "elem", None, y)
            return t
        gd = self.guarded_dict(o) if o and o.kind == "dict" and any(s.kind == "del" for s in o.segs) else None
        if gd is not None:
            for y, c, _ in gd:
                self.addseg_at(t, "elem", None, keyt(y), (c,) if c is not TRUE else (), ())
        else:
            self.addseg(t, "spread", None, self.itval(x))
        return t

    def itval(self, x):
        """Value of an iterable, with list()/set()/iter() wrappers removed."""
        o = self.obj(x)
        if o and o.kind in ("list", "set") and len(o.segs) == 1 and o.segs[0].kind == "spread" \
                and not o.segs[0].guard and not o.segs[0].loops and not o.meta.get("order") and not o.meta.get("distinct"):
            return o.segs[0].val
        if o and o.kind in ("list", "set", "dict", "nd"):
            return self.val(x)
        if x.op in ("setof", "listof", "iter"):
            return x.a[0]
        return self.val(x) if x.op == "at" else x

    # ------------------------------------------------------- frozen values
    def segt(self, s):
        return mk("seg", s.kind, and_(*s.guard) if s.guard else TRUE, mk("L", *s.loops),
                  s.key if s.key is not None else NONE, self.val(s.val) if s.val is not None else NONE)

    def val(self, t, depth=0):
        """Immutable snapshot of a value (references to containers/arrays replaced by contents)."""
        if not isinstance(t, T):
            return t
        if t.op == "ref":
            if depth > 8:
                return t
            o = self.obj(t)
            if o is None:
                return t
            if o.kind in ("list", "set"):
                ex = self.exact_items(t)
                if ex is not None and not o.meta.get("order"):
                    vs = [self.val(x, depth + 1) for x in ex]
                    if o.kind == "set":
                        return mk("setv", *sorted(set(vs)))
                    return mk("listv", *vs)
                if len(o.segs) == 1 and o.segs[0].kind == "spread" and not o.segs[0].guard and not o.segs[0].loops:
                    v = self.val(o.segs[0].val, depth + 1)
                    if o.meta.get("distinct"):
                        v = mk("setof", v)
                    if o.meta.get("order"):
                        return self.ordered(v, o.meta["order"])
                    return mk("setof" if o.kind == "set" else "listof", v)
                ss = [self.segt_d(s, depth + 1) for s in o.segs]
                if o.meta.get("order"):
                    return self.ordered(mk("collv", "set" if o.meta.get("distinct") else "list", *ss), o.meta["order"])
                if o.meta.get("distinct"):
                    return mk("listof", mk("collv", "set", *ss))
                return mk("collv", o.kind, *ss)
            if o.kind == "dict":
                return mk("collv", "dict", *[self.segt_d(s, depth + 1) for s in o.segs])
            if o.kind == "nd":
                b = self.val(o.meta["base"], depth + 1)
                if not o.segs:
                    return b
                return mk("ndw", b, *[self.segt_d(s, depth + 1) for s in o.segs])
            return t
        if t.op == "ite":
            return ite(t.a[0], self.val(t.a[1], depth + 1), self.val(t.a[2], depth + 1))
        if t.op == "at":
            v = self.val(t.a[0], depth + 1)
            return mk("bindv", t.a[1], self.val(t.a[2]), v) if contains(v, lambda x: x is t.a[1]) else v
        if t.op in ("tuple", "vec") and any(x.op in ("ref", "ite", "tuple", "at") for x in t.a):
            return mk(t.op, *[self.val(x, depth + 1) for x in t.a])
        ov = self.st.over.get((t, "[]"))
        if ov:
            return mk("ndw", t, *[self.segt_d(s, depth + 1) for s in ov])
        return t

    def segt_d(self, s, depth):
        return mk("seg", s.kind, and_(*s.guard) if s.guard else TRUE, mk("L", *s.loops),
                  self.val(s.key, depth) if s.key is not None else NONE,
                  self.val(s.val, depth) if s.val is not None else NONE)

    def vals(self, xs):
        return [self.val(x) for x in xs]

    # -------------------------------------------------------- exactness
    def ordered(self, v, order):
        key, rev, kt, prev = order.a
        if prev is not NONE:
            v = self.ordered(v, prev)
        if key is C("reversed") and rev is NONE:
            return mk("reversed", v)
        if key is NONE and rev is FALSE:
            return mk("sorted", v)
        return mk("sortedby", v, kt, self.val(rev))

    def exact_items(self, t):
        if t.op == "tuple":
            return list(t.a)
        if t.op in ("vec", "listv"):
            return list(t.a)
        if t.op == "c" and isinstance(t.a[0], (str, tuple, list)) and len(t.a[0]) <= 16:
            return [C(x) for x in t.a[0]]
        if t.op == "range":
            a, b, s = (num(x) for x in t.a)
            if a is not None and b is not None and s and (b - a) / s <= 16:
                return [C(i) for i in range(a, b, s)]
            return None
        if t.op == "iter":
            return self.exact_items(t.a[0])
        if t.op == "zip":
            parts = [self.exact_items(x) for x in t.a]
            if all(p is not None for p in parts):
                return [mk("tuple", *x) for x in zip(*parts)]
            return None
        if t.op == "enumerate":
            p = self.exact_items(t.a[0])
            n0 = num(t.a[1])
            if p is not None and n0 is not None:
                return [mk("tuple", C(n0 + i), x) for i, x in enumerate(p)]
            return None
        if t.op == "product":
            parts = [self.exact_items(x) for x in t.a]
            if all(p is not None for p in parts):
                import itertools
                n = 1
                for p in parts:
                    n *= len(p)
                if n <= 16:
                    return [mk("tuple", *x) for x in itertools.product(*parts)]
            return None
        if t.op == "combinations":
            p = self.exact_items(t.a[0])
            n = num(t.a[1])
            if p is not None and n is not None and len(p) <= 6:
                import itertools
                return [mk("tuple", *x) for x in itertools.combinations(p, n)]
            return None
        if t.op == "chain":
            out = []
            for x in t.a:
                p = self.exact_items(x)
                if p is None:
                    return None
                out += p
            return out
        if t.op == "reversed":
            p = self.exact_items(t.a[0])
            return p[::-1] if p is not None else None
        if t.op == "dview":
            d = self.exact_dict(t.a[1])
            if d is None:
                return None
            return [keyt(k) if t.a[0] == "keys" else (v if t.a[0] == "values" else mk("tuple", keyt(k), v)) for k, v in d]
        o = self.obj(t)
        if o is None:
            return None
        if o.kind in ("list", "set"):
            if o.meta.get("order"):
                return None
            out = []
            for s in o.segs:
                if s.kind == "elem" and not s.guard and not s.loops:
                    if o.kind == "set" and s.val in out:
                        continue
                    out.append(s.val)
                elif s.kind == "spread" and not s.guard and not s.loops:
                    p = self.exact_items(s.val)
                    if p is None:
                        return None
                    out += p
                else:
                    return None
            if o.summary and not self.inloops(o):
                return None
            return out
        if o.kind == "nd" and not o.segs:
            return self.exact_items(o.meta["base"])
        if o.kind == "dict":
            d = self.exact_dict(t)
            return None if d is None else [keyt(k) for k, _ in d]
        return None

    def inloops(self, o):
        return self.st.loops[:len(o.aloops)] == o.aloops

    def exact_dict(self, t):
        """[(python key, value)] when all entries are known."""
        o = self.obj(t)
        if o is None or o.kind != "dict":
            return None
        out = {}
        for s in o.segs:
            if s.loops:
                return None
            if s.kind == "set" and iskey(s.key):
                if s.guard:
                    c = and_(*s.guard)
                    d = self.it.decide(c)
                    if d is False:
                        continue
                    if d is None:
                        if pykey(s.key) not in out:
                            return None
                        out[pykey(s.key)] = ite(c, s.val, out[pykey(s.key)])
                        continue
                out[pykey(s.key)] = s.val
            elif s.kind == "del" and iskey(s.key) and not s.guard:
                out.pop(pykey(s.key), None)
            elif s.kind == "spread" and not s.guard:
                d = self.exact_dict(s.val)
                if d is None:
                    return None
                out.update(d)
            else:
                return None
        return list(out.items())

    def const_entries(self, t):
        """Entries with constant keys that are certainly present."""
        o = self.obj(t)
        out = {}
        if o is None or o.kind != "dict":
            return out
        for s in o.segs:
            if s.kind == "set" and isc(s.key) and not s.guard and not s.loops:
                out[s.key.a[0]] = s.val
            elif s.kind == "spread":
                for k in list(out):
                    out[k] = self.dict_get(s.val, C(k), out[k])
        return out

    # ---------------------------------------------------------- mutation
    def list_append(self, l, v, quiet=False):
        o = self.obj(l)
        if not quiet:
            self.it.emit("mutcall", root=l, name="append", val=v)
        if o is not None:
            self.addseg(l, "elem", None, v)
        else:
            self.addover((l, "seq"), "elem", None, v)

    def list_extend(self, l, v, quiet=False):
        if not quiet:
            self.it.emit("mutcall", root=l, name="extend", val=v)
        o = self.obj(l)
        items = self.exact_items(v)
        vo = self.obj(v)
        if o is None:
            self.addover((l, "seq"), "spread", None, v)
            return
        if items is not None:
            for x in items:
                self.addseg(l, "elem", None, x)
        elif vo and vo.kind in ("list", "set") and all(s.kind in ("elem", "spread") for s in vo.segs) and not vo.meta.get("order") and not vo.meta.get("distinct"):
            from .interp import Seg
            n = self.it.wobj(l)
            self.unorder(l, n)
            g, lo = self.rel(n)
            for s in vo.segs:
                n.segs = n.segs + (Seg(s.kind, g + s.guard, lo + s.loops, s.key, s.val, self.it.epoch, self.it.site()),)
        else:
            self.addseg(l, "spread", None, self.itval(v))

    def dict_set(self, d, k, v, quiet=False):
        if not quiet:
            self.it.emit("write_item", root=d, key=k, val=v)
        o = self.obj(d)
        if o is None:
            self.addover((d, "[]"), "set", k, v)
            return
        s = self.addseg(d, "set", k, v)
        self.kill_segs(d, None, s)

    def kill_segs(self, t, field, s):
        """A write that covers the same key unconditionally kills older ones."""
        o = self.it.wobj(t)
        segs = o.segs if field is None else o.fields[field]
        if s.loops and not s.guard:
            keep = tuple(x for x in segs if x is s or not (x.kind == "set" and x.key is s.key and x.loops == s.loops))
        elif not s.guard:
            keep = tuple(x for x in segs if x is s or not (x.kind == "set" and x.key is s.key and not x.loops))
        else:
            return
        if field is None:
            o.segs = keep
        else:
            o.fields[field] = keep

    def dict_update(self, d, x, quiet=False):
        if not quiet:
            self.it.emit("mutcall", root=d, name="update", val=x)
        xo = self.obj(x)
        if self.obj(d) is None:
            self.addover((d, "[]"), "spread", None, x)
            return
        if xo is not None and xo.kind == "dict":
            from .interp import Seg
            n = self.it.wobj(d)
            g, lo = self.rel(n)
            for s in xo.segs:
                n.segs = n.segs + (Seg(s.kind, g + s.guard, lo + s.loops, s.key, s.val, self.it.epoch, self.it.site()),)
        elif x.op == "ite":
            c = x.a[0]
            self.it.branch(c, lambda: self.dict_update(d, x.a[1], True), lambda: self.dict_update(d, x.a[2], True))
        elif x.op == "zip":
            self.addseg(d, "spread", None, x)
        else:
            items = self.exact_items(x)
            if items is not None and all(self.exact_items(y) is not None and len(self.exact_items(y)) == 2 for y in items):
                for y in items:
                    k, v = self.exact_items(y)
                    self.dict_set(d, k, v, quiet=True)
            else:
                self.addseg(d, "spread", None, x)

    def delitem(self, b, k):
        if b.op == "at":
            self.under(self.memberc(b), lambda: self.delitem(b.a[0], k))
            return
        self.it.emit("mutcall", root=b, name="del", key=k)
        if self.kind(b) in ("dict", "list"):
            self.addseg(b, "del", k, None)
        else:
            self.addover((b, "[]"), "del", k, None)

    # ---------------------------------------------------------- dict reads
    def load(self, segs, key, init, base=None):
        """Value of cell key after the writes segs (oldest first), init() giving the earlier value."""
        it = self.it
        maybe = []

        def go(i):
            if i < 0:
                return init()
            s = segs[i]
            if s.kind == "phi":
                maybe.append(s)
                return None
            if s.kind == "spread":
                d = self.obj(s.val)
                cond = and_(*s.guard) if s.guard else TRUE
                if not s.loops and (cond is TRUE):
                    r = self.dict_get(s.val, key, None, miss=lambda: go(i - 1))
                    return r
                maybe.append(s)
                return None
            if s.kind == "del":
                e = eq(s.key, key)
                if e is FALSE:
                    return go(i - 1)
                maybe.append(s)
                return None
            if s.kind != "set":
                maybe.append(s)
                return None
            m = self.match(s, key)
            if m == "no":
                return go(i - 1)
            if m == "maybe":
                maybe.append(s)
                return None
            c, v = m
            d = it.decide(c)
            if d is True:
                return v
            if d is False:
                return go(i - 1)
            r = go(i - 1)
            if r is None:
                return None
            return ite(c, v, r)
        r = go(len(segs) - 1)
        if r is not None:
            return r
        h = mk("hist", *[self.segt(s) for s in segs])
        t = mk("load", base if base is not None else NONE, key, h)
        cs = [s.val for s in segs if s.kind == "set" and self.match(s, key) != "no"]
        for s in segs:
            if s.kind == "set" and s.val in cs and s.val.op == "ref":
                it.candcond[t, s.val] = and_(eq(s.key, key), *s.guard)
        for s in segs:
            if s.kind == "spread":
                o = self.obj(s.val)
                if o and o.kind == "dict":
                    cs += [x.val for x in o.segs if x.kind == "set"]
        self.addcands(t, cs)
        return t

    # ------------------------------------------------- members of a family of containers
    def at(self, r, var, key):
        """The container r allocated for the value key of the family variable var (loop element or key of a defaultdict)."""
        if key is var:
            return r
        t = mk("at", r, var, key)
        self.addcands(t, [r])
        return t

    def under(self, c, f):
        """Run f for its effects under the extra condition c."""
        if c is FALSE:
            return NONE
        st = self.st
        save = st.guard
        if c is not TRUE:
            st.guard = save + (c,)
        try:
            return f()
        finally:
            self.st.guard = save

    def famget(self, d, k, factory):
        """Member k of a dictionary that holds one container per key, created empty on first access."""
        o = self.obj(d)
        fam = o.meta.get("fam")
        if o.meta.get("fambad"):
            return None
        if fam is None:
            if any(s.kind != "phi" for s in o.segs):
                return None
            v = factory()
            vo = self.obj(v)
            if v.op != "ref" or vo.kind not in ("list", "set", "dict") or vo.segs or vo.meta.get("default"):
                return None
            n = self.it.wobj(v)
            n.aloops, n.aguard, n.summary = o.aloops, o.aguard, True
            fam = (S("?fam%d" % v.a[0]), v)
            n = self.it.wobj(d)
            n.meta = {**n.meta, "fam": fam}
        t = self.at(fam[1], fam[0], k)
        g, l = self.rel(o)
        if not any(s.kind == "set" and s.key is k and s.val is t and s.guard == tuple(g) and s.loops == tuple(l) for s in self.obj(d).segs):
            self.dict_set(d, k, t, quiet=True)
        return t

    def famset(self, d, o, k, v):
        """Store of a new empty container under a key found missing (or empty): d[k] = [] below `if k not in d`."""
        g = self.it.st.guard
        if not g or iskey(k) or k.op == "ite" or v.op != "ref":
            return False
        vo = self.obj(v)
        if vo.kind not in ("list", "set", "dict") or vo.segs or vo.meta:
            return False
        x = self.dict_get(d, k, NONE)
        if g[-1] not in (not_(self.truth(x)), not_(self.dict_has(d, o, k)), eq(x, NONE)):
            return False
        self.it.st.guard = g[:-1]
        try:
            return self.famget(d, k, lambda: v) is not None
        finally:
            self.it.st.guard = g

    def memberc(self, t):
        """Condition under which an effect on t.a[0] concerns the member t."""
        _, var, key = t.a
        if any(l.op == "loop" and l.a[0] is var for l in self.st.loops):
            return mk("truth", mk("unk", "alias"))
        return eq(var, key)

    def candc(self, t, r, rs):
        """Condition under which the unresolved container t is its candidate r."""
        c = self.it.candcond.get((t, r))
        if c is not None and len(rs) == 1 and not any(l.op == "loop" and contains(c, lambda x: x is l.a[0]) and l in self.obj(r).aloops for l in self.st.loops):
            return c
        o = self.obj(r)
        if len(rs) == 1 and c is None and (not o.summary or self.inloops(o)):
            return TRUE
        return mk("truth", mk("unk", "alias"))

    def isfam(self, v):
        o = self.obj(v)
        return v.op == "ref" and o is not None and o.kind in ("list", "set", "dict") and not self.inloops(o)

    def addcands(self, t, cs):
        old = list(self.it.cands.get(t, ()))
        for c in cs:
            if c is not None and c not in old and c is not t:
                old.append(c)
        if old:
            self.it.cands[t] = tuple(old)

    def match(self, s, key):
        """'no' | 'maybe' | (cond, value): does the write s define cell key?"""
        cond = and_(*s.guard) if s.guard else TRUE
        if s.key is key and (not s.loops or self.st.loops[-len(s.loops):] == s.loops or
                             all(l in self.st.loops for l in s.loops)):
            if not self.isummary(key):
                return cond, s.val
        if s.loops:
            # one generic write for every element of a domain
            if len(s.loops) == 1 and s.loops[0].op == "loop" and s.key is s.loops[0].a[0] and s.key.op == "elem" \
                    and key.op == "elem" and key.a[0] is s.key.a[0] and key is not s.key:
                old = s.key
                f = lambda x: key if x is old else None
                if s.val.op == "ref" and self.kind(s.val) in ("list", "set", "dict"):
                    return subst(cond, f), self.at(s.val, old, key)
                return subst(cond, f), subst(s.val, f)
            e = eq(s.key, key)
            if e is FALSE:
                return "no"
            return "maybe"
        e = eq(s.key, key)
        if e is FALSE:
            return "no"
        if e is TRUE and not self.isummary(key):
            return cond, s.val
        if isc(s.key) and not contains(key, lambda x: x.op == "ref"):
            return and_(e, cond), s.val
        return "maybe"

    def isummary(self, t):
        if t.op == "ref":
            o = self.obj(t)
            return bool(o and o.summary and not self.inloops(o))
        return False

    def dict_get(self, d, k, default, miss=None):
        """d.get(k, default); miss() overrides the missing-key value."""
        miss = miss or (lambda: default)
        d = self.it.simp(d)
        o = self.obj(d)
        if d.op == "ite":
            return ite(d.a[0], self.dict_get(d.a[1], k, default, miss), self.dict_get(d.a[2], k, default, miss))
        if o is not None and o.kind == "dict":
            if k.op == "ite":
                return ite(k.a[0], self.dict_get(d, k.a[1], default, miss), self.dict_get(d, k.a[2], default, miss))
            if "without" in o.meta and isc(k) and k.a[0] in o.meta["without"]:
                return miss()
            x = None if o.meta.get("filled") else miss()
            return self.load(o.segs, k, miss, base=None if x is None or x.op == "unk" else mk("dflt", x))
        if d is NONE:
            return miss()
        if d.op in ("nattr", "eattr", "rxedata"):
            return self.gload(d, k, miss)
        ov = self.st.over.get((d, "[]"), ())
        return self.load(ov, k, lambda: mk("get", d, k, self._m(miss)), base=d)

    def _m(self, miss):
        x = miss()
        return x if x is not None else NONE

    # -------------------------------------------------------- graph store
    def gsegs(self, G, field):
        o = self.obj(G)
        if o is not None:
            root = o.meta.get("view")
            if root is not None:
                return self.gsegs(root, field)
            return o.fields.get(field, ())
        return self.st.over.get((G, field), ())

    def eattr(self, G, u, v):
        """Attribute view of the undirected edge {u, v}."""
        return mk("eattr", G, mk("tuple", *sorted((u, v))))

    def groot(self, G):
        if G.op == "gv":
            G = G.a[0]
        o = self.obj(G)
        if o is not None and o.meta.get("view") is not None:
            return self.groot(o.meta["view"])
        return G

    def gaddseg(self, G, field, kind, key, val):
        G = self.groot(G)
        if self.obj(G) is not None:
            s = self.addseg(G, kind, key, val, field=field)
            if kind == "set":
                self.kill_segs(G, field, s)
        else:
            self.addover((G, field), kind, key, val)

    def gload(self, view, k, miss=None):
        """node/edge attribute read."""
        if view.op == "rxedata":
            return self.rxload(view, k, miss)
        G, x = self.groot(view.a[0]), view.a[1]
        typ = "n" if view.op == "nattr" else "e"
        self.it.emit("read_gattr", root=G, name=k.a[0] if isc(k) else None, key=x, extra=(typ, miss is not None))
        cs = []
        if G.op in ("ite", "any"):
            if G.op == "ite":
                return ite(G.a[0], self.gload(mk(view.op, G.a[1], x), k, miss), self.gload(mk(view.op, G.a[2], x), k, miss))
        if not isc(k):
            return mk("item", mk(view.op, G, x), k)
        segs = self.gsegs(G, (typ, k.a[0]))
        wild = self.gsegs(G, (typ, "*"))
        fresh = self.obj(G) is not None and not self.obj(G).meta.get("copied")

        past = self.wildhist(typ, wild, k) if fresh and wild else None

        def init():
            base = mk(view.op, G if not fresh else mk("fresh", G) if past is None else mk("fresh", G, past), x)
            for s in wild:
                m = self.match(s, x)
                if m == "no":
                    continue
                src = s.val
                if m != "maybe":
                    c, src = m
                    v = self.getitem_q(src, k)
                    if c is TRUE:
                        return v
                self.addcands(mk("item", base, k), [self.getitem_q(src, k)])
            if fresh and not wild and miss is not None:
                return miss()
            if miss is not None:
                return mk("get", base, k, self._m(miss))
            return mk("item", base, k)
        base = mk("gcell", typ, k.a[0], *(() if miss is None else (self._m(miss),)))
        return self.load(segs, x, init, base=base if past is None else mk("gwild", past, base))

    def wildhist(self, typ, wild, k):
        """History of one attribute as written through ** mappings (absent where the mapping has no such key)."""
        from .interp import Seg
        if any(s.kind != "set" for s in wild):
            return None
        qs = []
        self.it.quiet += 1
        try:
            for s in wild:
                v = self.gload(s.val, k, lambda: ABSENT) if s.val.op in ("nattr", "eattr") else \
                    self.dict_get(s.val, k, ABSENT, lambda: ABSENT) if self.obj(s.val) is not None and self.obj(s.val).kind == "dict" else None
                if v is None:
                    return None
                qs.append(Seg(s.kind, s.guard, s.loops, s.key, v, s.epoch, s.site))
        finally:
            self.it.quiet -= 1
        return mk("hist", *[self.segt(s) for s in qs])

    def rxload(self, view, k, miss=None):
        """Item of the payload of a rustworkx edge (payloads are mappings of the edge)."""
        init = lambda: self.mkitem(view, k) if miss is None else mk("get", view, k, self._m(miss))
        if not isc(k):
            return init()
        return self.load(self.gsegs(view.a[0], ("rx", k.a[0])), view.a[1], init, base=mk("rxcell", view.a[0], k, NONE if miss is None else self._m(miss)))

    def has_attr(self, view, k):
        """k in G.nodes[x] / G.edges[e] / payload."""
        from .interp import Seg
        typ = {"nattr": "n", "eattr": "e", "rxedata": "rx"}[view.op]
        G = self.groot(view.a[0]) if typ != "rx" else view.a[0]
        segs = [Seg(q.kind, q.guard, q.loops, q.key, TRUE if q.kind == "set" else q.val, q.epoch, q.site) for q in self.gsegs(G, (typ, k.a[0]))]
        fresh = typ != "rx" and self.obj(G) is not None and not self.obj(G).meta.get("copied") and not self.gsegs(G, (typ, "*"))
        t = self.load(segs, view.a[1], lambda: FALSE if fresh else mk("in", k, mk(view.op, G, view.a[1])), base=mk("hascell", view.op, G, k))
        return t if isbool(t) else mk("truth", t)

    def getitem_q(self, b, k):
        self.it.quiet += 1
        try:
            return self.getitem(b, k)
        finally:
            self.it.quiet -= 1

    # ------------------------------------------------------------- truth
    def truth(self, v):
        if v.op == "c":
            try:
                return C(bool(v.a[0]))
            except Exception:
                return TRUE
        if isbool(v):
            return v
        if v.op in ("fn", "bm", "bmx", "cls", "ext", "module", "newrng"):
            return TRUE
        if v.op in ("tuple", "vec", "listv"):
            return C(len(v.a) > 0)
        if v.op == "ite":
            return ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
        if v.op in ("poly", "mod", "sum", "xor", "xorsum", "len"):
            return not_(eq(C(0), v))
        o = self.obj(v)
        if o is not None:
            if o.kind in ("list", "set", "dict"):
                return self.nonempty(v, o)
            if o.kind == "inst":
                f, _ = self.it.find_method(o.cls, "__bool__") if o.cls.op == "cls" else (None, None)
                if f is None and o.cls.op == "cls":
                    f, _ = self.it.find_method(o.cls, "__len__")
                if f is not None:
                    return self.truth(self.it.call_func(f, v, [], {}))
                if self.isgraph(v):
                    return not_(eq(C(0), self.length(v)))
                return TRUE
            return mk("truth", self.val(v))
        if v.op in ("setof", "listof", "iter", "sorted", "sortedby", "reversed"):
            return self.truth(v.a[0])
        if v.op == "range":
            return lt(v.a[0], v.a[1])
        return mk("truth", v)

    def nonempty(self, v, o):
        if any(s.kind not in ("elem", "spread", "set") for s in o.segs) or (o.summary and not self.inloops(o)):
            return mk("truth", self.val(v))
        cs = []
        for s in o.segs:
            c = and_(*s.guard) if s.guard else TRUE
            if s.kind == "spread":
                c = and_(c, self.truth(s.val))
            if s.loops:
                c = mk("anyiter", mk("lk", s.loops, ()), c)
            cs.append(c)
        return or_(*cs) if cs else FALSE

    # ---------------------------------------------------------- comparison
    CMP = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}

    def cmp(self, op, a, b):
        a, b = self.it.simp(a), self.it.simp(b)
        if op in ("NotEq", "IsNot", "NotIn"):
            r = self.cmp({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op], a, b)
            if r.op == "vec":
                return mk("vec", *[not_(x) for x in r.a])
            if isbool(r):
                return not_(r)
            if r.op == "eltcmp" and r.a[0] in ("eq", "in"):
                return mk("eltcmp", {"eq": "ne", "in": "notin"}[r.a[0]], *r.a[1:])
            return mk("not", r)
        if op in ("Gt", "GtE"):
            return self.cmp("Lt" if op == "Gt" else "LtE", b, a)
        if op == "Is":
            if self.isummary(a) and a is b:
                return mk("eqsum", a, b)
            if a.op == "ref" and b.op == "ref":
                return C(a is b)
            if (a.op == "ref") != (b.op == "ref") and (isc(a) or isc(b)):
                return FALSE
            return eq(a, b)
        if op == "In":
            return self.isin(a, b)
        # numpy element-wise
        va, vb = a, b
        ka, kb = self.kind(a), self.kind(b)
        if ka == "nd" or a.op == "vec" or kb == "nd" or b.op == "vec":
            va, vb = self.val(a), self.val(b)
            xa, xb = self.exact_items(va) if va.op == "vec" else None, self.exact_items(vb) if vb.op == "vec" else None
            if xa is not None and xb is None and kb == "nd" and vb.op != "ndw":
                xb = [self.getitem_q(vb, C(i)) for i in range(len(xa))]
            if xb is not None and xa is None and ka == "nd" and va.op != "ndw":
                xa = [self.getitem_q(va, C(i)) for i in range(len(xb))]
            if xa is not None and (xb is None) and vb.op != "ndw":
                return mk("vec", *[self.cmp(op, x, vb) for x in xa])
            if xb is not None and (xa is None) and va.op != "ndw":
                return mk("vec", *[self.cmp(op, va, x) for x in xb])
            if xa is not None and xb is not None and len(xa) == len(xb):
                return mk("vec", *[self.cmp(op, x, y) for x, y in zip(xa, xb)])
            return mk("eltcmp", self.CMP[op], va, vb)
        if op == "Eq":
            if ka in ("list", "set", "dict") or kb in ("list", "set", "dict"):
                if a is b:
                    return TRUE
                va, vb = self.val(a), self.val(b)
                if va.op in ("listv", "setv") and vb.op == va.op and va.op == "listv":
                    if len(va.a) != len(vb.a):
                        return FALSE
                    return and_(*[self.cmp("Eq", x, y) for x, y in zip(va.a, vb.a)])
                if isc(va) or isc(vb):
                    return FALSE
                return eq(va, vb)
            if a is b and self.isummary(a):
                return mk("eqsum", a, b)
            if a.op == "ref" and b.op == "ref" and a is not b:
                oa = self.obj(a)
                if oa and oa.cls is not None and oa.cls.op == "cls" and self.it.find_method(oa.cls, "__eq__")[0] is None:
                    return FALSE
            if (a.op == "ref" and self.it.resolve(b) and b.op != "ref") or (b.op == "ref" and a.op != "ref" and not isc(a)):
                return mk("eq", *sorted((a, b)))
            if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
                return and_(*[self.cmp("Eq", x, y) for x, y in zip(a.a, b.a)])
            if a.op == "ite" and (isc(b)):
                return ite(a.a[0], self.cmp(op, a.a[1], b), self.cmp(op, a.a[2], b))
            if b.op == "ite" and (isc(a)):
                return ite(b.a[0], self.cmp(op, a, b.a[1]), self.cmp(op, a, b.a[2]))
            return eq(a, b)
        if a.op == "ite" and isc(b):
            return ite(a.a[0], self.cmp(op, a.a[1], b), self.cmp(op, a.a[2], b))
        if b.op == "ite" and isc(a):
            return ite(b.a[0], self.cmp(op, a, b.a[1]), self.cmp(op, a, b.a[2]))
        return lt(a, b) if op == "Lt" else le(a, b)

    def isin(self, x, b):
        if b.op == "at":
            b = self.val(b)
        if b.op == "c" and isinstance(b.a[0], str):
            if isc(x):
                try:
                    return C(x.a[0] in b.a[0])
                except TypeError:
                    return FALSE
            return mk("in", x, b)
        if b.op == "envd":
            if isc(x):
                return C(x.a[0] in self.it.modules.get(b.a[0], {}))
            return mk("in", x, b)
        if b.op == "ite":
            return ite(b.a[0], self.isin(x, b.a[1]), self.isin(x, b.a[2]))
        if b.op == "module":
            return mk("in", x, b)
        if x.op == "ite":
            items = self.exact_items(b)
            if items is not None:
                return ite(x.a[0], self.isin(x.a[1], b), self.isin(x.a[2], b))
        items = self.exact_items(b)
        if items is not None:
            return or_(*[self.cmp("Eq", x, y) for y in items]) if items else FALSE
        if self.isgraph(b):
            b = mk("nview", self.gnow(b))
        o = self.obj(b)
        if o is not None and o.kind == "dict":
            return self.dict_has(b, o, x)
        if o is not None and o.kind in ("list", "set"):
            if all(s.kind in ("elem", "spread") for s in o.segs) and not (o.summary and not self.inloops(o)):
                cs = []
                for s in o.segs:
                    c = and_(*s.guard) if s.guard else TRUE
                    if s.kind == "spread":
                        m = self.isin(x, s.val)
                        if s.loops:
                            m = mk("in", x, mk("collv", "set", self.segt(s)))
                            c = TRUE
                    elif s.loops:
                        if len(s.loops) == 1 and s.val is s.loops[0].a[0] and s.val.op == "elem" and x.op == "elem" and x.a[0] is s.val.a[0]:
                            old = s.val
                            c = subst(c, lambda y: x if y is old else None)
                            m = TRUE
                        elif len(s.loops) == 1 and s.val is s.loops[0].a[0] and s.val.op == "elem":
                            # {e in X if c(e)}  ->  x in X and c(x)
                            old = s.val
                            m = and_(self.isin(x, s.val.a[0]), subst(c, lambda y: x if y is old else None))
                            c = TRUE
                        else:
                            m = mk("in", x, mk("collv", "set", self.segt(s)))
                            c = TRUE
                    else:
                        m = self.cmp("Eq", x, s.val)
                    cs.append(and_(c, m))
                return or_(*cs) if cs else FALSE
            return mk("in", x, self.val(b))
        if b.op in ("setof", "listof", "iter", "sorted", "sortedby", "reversed"):
            return self.isin(x, b.a[0])
        if b.op == "inter":
            return and_(*[self.isin(x, y) for y in b.a])
        if b.op == "union":
            return or_(*[self.isin(x, y) for y in b.a])
        if b.op == "diff":
            return and_(self.isin(x, b.a[0]), not_(self.isin(x, b.a[1])))
        if b.op == "dview" and b.a[0] == "keys":
            return self.isin(x, b.a[1])
        if b.op == "product" and x.op == "tuple" and len(x.a) == len(b.a):
            return and_(*[self.isin(p, q) for p, q in zip(x.a, b.a)])
        if b.op == "product" and x.op != "tuple":
            return and_(*[self.isin(self.getitem(x, C(i)), q) for i, q in enumerate(b.a)])
        if x.op == "elem" and x.a[0] is b:
            return TRUE
        if b.op in ("nattr", "eattr", "rxedata") and isc(x):
            return self.has_attr(b, x)
        if b.op == "range" and x.op != "elem":
            return and_(le(b.a[0], x), lt(x, b.a[1])) if b.a[2] is C(1) else mk("in", x, b)
        return mk("in", self.val(x), self.val(b))

    def dict_has(self, d, o, k):
        cs = []
        for s in o.segs:
            if s.kind == "set":
                m = self.match(s, k)
                c = and_(*s.guard) if s.guard else TRUE
                if m == "no":
                    continue
                if m == "maybe":
                    if s.loops:
                        return mk("in", k, self.val(d))
                    cs.append(and_(c, self.cmp("Eq", s.key, k)))
                else:
                    cs.append(m[0])
            elif s.kind == "spread":
                c = and_(*s.guard) if s.guard else TRUE
                cs.append(and_(c, self.isin(k, s.val)))
            elif s.kind == "del":
                e = eq(s.key, k)
                if e is FALSE:
                    continue
                return mk("in", k, self.val(d))
            else:
                return mk("in", k, self.val(d))
        return or_(*cs) if cs else FALSE

    # ---------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        it = self.it
        a, b = it.simp(a), it.simp(b)
        ka, kb = self.kind(a), self.kind(b)
        if op == "Mod" and isc(a) and isinstance(a.a[0], str):
            return mk("fmt", a, self.val(b))
        if op == "Add":
            if ka == "list" and (kb == "list" or kb is None):
                l = self.fromiter("list", a)
                self.list_extend(l, b, quiet=True)
                return l
            if kb == "list" and ka is None and not isc(a):
                l = self.fromiter("list", a)
                self.list_extend(l, b, quiet=True)
                return l
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.a + b.a))
            if self.isstr(a) or self.isstr(b):
                return cat(a, b)
        if op == "Mult":
            for x, n in ((a, b), (b, a)):
                if isinstance(num(n), int) and (x.op == "tuple" or self.kind(x) == "list"):
                    items = self.exact_items(x)
                    if items is not None and num(n) * len(items) <= 16:
                        items = items * num(n)
                        return mk("tuple", *items) if x.op == "tuple" else self.mklist(items)
            if ka == "list" or kb == "list" or a.op == "tuple" or b.op == "tuple":
                l = self.it.new("list")
                self.addseg(l, "spread", None, mk("rep", self.val(a), self.val(b)))
                return l
        if op in ("BitAnd", "BitOr", "Sub", "BitXor") and (self.isset(a) or self.isset(b)):
            return self.setop({"BitAnd": "inter", "BitOr": "union", "Sub": "diff", "BitXor": "symdiff"}[op], a, b)
        if op == "BitOr" and (ka == "dict" or kb == "dict"):
            d = self.mkdict()
            self.dict_update(d, a, quiet=True)
            self.dict_update(d, b, quiet=True)
            return d
        va, vb = self.val(a), self.val(b)
        # vectors
        xa = list(va.a) if va.op == "vec" else None
        xb = list(vb.a) if vb.op == "vec" else None
        if xa is not None and xb is None and kb == "nd" and op != "MatMult":
            xb = [self.getitem_q(vb, C(i)) for i in range(len(xa))]
        if xb is not None and xa is None and ka == "nd" and op != "MatMult":
            xa = [self.getitem_q(va, C(i)) for i in range(len(xb))]
        if xa is not None and xb is None and self.scalar(vb):
            return mk("vec", *[self.binop(op, x, vb) for x in xa])
        if xa is None and xb is not None and (self.scalar(va)):
            return mk("vec", *[self.binop(op, va, x) for x in xb])
        if xb is not None and xa is None and va.op in ("tuple", "listv") and len(va.a) == len(xb):
            xa = list(va.a)
        if xa is not None and xb is None and vb.op in ("tuple", "listv") and len(vb.a) == len(xa):
            xb = list(vb.a)
        if xa is not None and xb is not None and len(xa) == len(xb):
            if op == "MatMult":
                r = C(0)
                for x, y in zip(xa, xb):
                    r = add(r, mul(x, y))
                return r
            return mk("vec", *[self.binop(op, x, y) for x, y in zip(xa, xb)])
        if xb is not None and xa is None and op != "MatMult" and va.op in ("attr", "s", "item"):
            # unknown shape broadcast against a known vector: element i of it
            return mk("vec", *[self.binop(op, self.getitem_q(va, C(i)), x) for i, x in enumerate(xb)])
        return self.arith(op, va, vb)

    def scalar(self, t):
        return isc(t) or t.op in ("poly", "draw", "elem", "item", "mod", "len", "idx", "pow", "call") or (t.op == "s" and t.a[1] in ("int", "num", "bool"))

    def arith(self, op, a, b):
        if a.op == "ite" and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], self.arith(op, a.a[1], b), self.arith(op, a.a[2], b))
        if b.op == "ite" and isc(a) and (isc(b.a[1]) or isc(b.a[2])):
            return ite(b.a[0], self.arith(op, a, b.a[1]), self.arith(op, a, b.a[2]))
        na, nb = num(a), num(b)
        try:
            if op == "Add":
                return add(self.numb(a), self.numb(b))
            if op == "Sub":
                return sub(self.numb(a), self.numb(b))
            if op == "Mult":
                return mul(self.numb(a), self.numb(b))
            if op == "Div":
                return div(a, b)
            if op == "FloorDiv":
                return floordiv(a, b)
            if op == "Mod":
                return mod(a, b)
            if op == "Pow":
                if isinstance(nb, float) and nb == 0.5:
                    return mk("sqrt", a)
                return power(a, b)
            if op == "MatMult":
                return mk("matmul", a, b)
            if op == "BitXor":
                if na is not None and nb is not None:
                    return C(na ^ nb)
                return xor(a, b)
            if op == "BitAnd":
                if na is not None and nb is not None:
                    return C(na & nb)
                if isbool(a) and isbool(b):
                    return and_(a, b)
                if nb == 1:
                    return mod(a, C(2))
                if na == 1:
                    return mod(b, C(2))
                return mk("bitand", *sorted((a, b)))
            if op == "BitOr":
                if na is not None and nb is not None:
                    return C(na | nb)
                if isbool(a) and isbool(b):
                    return or_(a, b)
                return mk("bitor", *sorted((a, b)))
            if op == "LShift" and na is not None and nb is not None:
                return C(na << nb)
            if op == "RShift" and na is not None and nb is not None:
                return C(na >> nb)
        except TypeError:
            pass
        return mk("bin", op, a, b)

    def numb(self, t):
        """Boolean as 0/1 in arithmetic (kept symbolic)."""
        return C(int(t.a[0])) if t.op == "c" and isinstance(t.a[0], bool) else t

    def isstr(self, t):
        return (t.op == "c" and isinstance(t.a[0], str)) or t.op in ("cat", "fmt", "str") or (t.op == "s" and t.a[1] == "str")

    def isset(self, t):
        return self.kind(t) == "set" or t.op in ("setof", "setv", "inter", "union", "diff", "symdiff")

    def setop(self, op, a, b):
        """Fresh set a op b."""
        ia, ib = self.exact_items(a), self.exact_items(b)
        if ia is not None and ib is not None:
            if all(isc(x) for x in ia + ib):
                if op == "inter":
                    r = [x for x in ia if x in ib]
                elif op == "union":
                    r = ia + [x for x in ib if x not in ia]
                elif op == "diff":
                    r = [x for x in ia if x not in ib]
                else:
                    r = [x for x in ia if x not in ib] + [x for x in ib if x not in ia]
                return self.mkset(r)
        if op == "union":
            t = self.fromiter("set", a)
            self.list_extend(t, b, quiet=True)
            return t
        # filtered copies for exact operands with guards
        if op in ("inter", "diff") and self.kind(a) in ("set", "list") and all(
                s.kind == "elem" and not s.loops for s in self.obj(a).segs):
            t = self.it.new("set")
            from .interp import Seg
            o = self.it.wobj(t)
            for s in self.obj(a).segs:
                c = self.isin(s.val, b)
                if op == "diff":
                    c = not_(c)
                if c is FALSE:
                    continue
                o.segs = o.segs + (Seg("elem", s.guard + ((c,) if c is not TRUE else ()), (), None, s.val, self.it.epoch, s.site),)
            return t
        if op == "inter" and self.kind(b) in ("set", "list") and all(
                s.kind == "elem" and not s.loops for s in self.obj(b).segs):
            return self.setop(op, b, a)
        va, vb = self.itval(a), self.itval(b)
        t = self.it.new("set")
        if op in ("inter", "symdiff"):
            xs = []
            for x in (va, vb):
                xs += list(x.a) if x.op == op else [x]
            v = mk(op, *sorted(set(xs)))
        else:
            v = mk(op, va, vb)
        self.addseg(t, "spread", None, v)
        return t

    def augop(self, op, cur, v):
        cur = self.it.simp(cur)
        if cur.op == "at":
            return self.under(self.memberc(cur), lambda: self.augop(op, cur.a[0], v))
        k = self.kind(cur)
        if k == "list" and op == "Add":
            self.list_extend(cur, v)
            return None
        if k == "set" and op in ("BitOr", "BitXor", "Sub", "BitAnd"):
            name = {"BitOr": "update", "BitXor": "symmetric_difference_update", "Sub": "difference_update", "BitAnd": "intersection_update"}[op]
            self.mut_set(cur, name, v)
            return None
        if k == "dict" and op == "BitOr":
            self.dict_update(cur, v)
            return None
        if k == "nd":
            o = self.obj(cur)
            nv = self.binop(op, cur, v)
            self.it.emit("write_item", root=cur, key=mk("slc", NONE, NONE, NONE), val=nv)
            if self.st.loops != o.aloops and self.st.loops[:len(o.aloops)] == o.aloops and not o.segs and cur not in self.views:
                return nv       # accumulates over the enclosing loop
            if not o.summary or self.inloops(o):
                o = self.it.wobj(cur)
                o.meta = {**o.meta, "base": nv}
                o.segs = ()
            return None
        if cur.op == "ite" and (self.kind(cur.a[1]) in ("list", "set") or self.kind(cur.a[2]) in ("list", "set")):
            a = self.it.branch(cur.a[0], lambda: self.augop(op, cur.a[1], v) or cur.a[1], lambda: self.augop(op, cur.a[2], v) or cur.a[2])
            return a
        if cur.op not in ("c", "poly", "draw", "tuple", "vec") and not isbool(cur):
            self.it.emit("aug", root=cur, name=op, val=v)
        rs = [r for r in self.it.resolve(cur) if self.kind(r) in ("list", "set")]
        if rs and cur.op != "ref" and op in ("Add", "BitOr", "BitXor", "Sub"):
            for r in rs:
                if op == "Add":
                    self.under(self.candc(cur, r, rs), lambda: self.list_extend(r, v))
                else:
                    self.under(self.candc(cur, r, rs), lambda: self.mut_set(r, {"BitOr": "update", "BitXor": "symmetric_difference_update", "Sub": "difference_update"}[op], v))
            return None
        return self.binop(op, cur, v)

    def mut_set(self, s, name, v):
        self.it.emit("mutcall", root=s, name=name, val=v)
        if self.obj(s) is None:
            self.addover((s, "seq"), "x", None, v)
            return
        if name in ("update",):
            self.list_extend(s, v, quiet=True)
        elif name == "symmetric_difference_update":
            items = self.exact_items(v)
            if items is not None:
                for x in items:
                    self.toggle(s, x)
            else:
                for g, loops, e in self.iterate(v):
                    self.addseg_at(s, "xor", None, e, g, loops)
        elif name in ("difference_update", "intersection_update"):
            o = self.obj(s)
            r = self.setop("diff" if name[0] == "d" else "inter", s, v)
            if not self.rel(o)[0] and not self.rel(o)[1]:
                n = self.it.wobj(s)
                n.segs = self.obj(r).segs
            else:
                self.addseg(s, "discardall", None, v)

    def toggle(self, s, x):
        o = self.obj(s)
        g, l = self.rel(o)
        if not g and not l:
            for q in o.segs:
                if q.kind == "elem" and q.val is x and not q.guard and not q.loops:
                    n = self.it.wobj(s)
                    n.segs = tuple(z for z in o.segs if z is not q)
                    return
            if all(q.kind == "elem" and not q.loops and eq(q.val, x) is FALSE for q in o.segs):
                self.addseg(s, "elem", None, x)
                return
        elif not l and all(q.kind == "elem" and not q.loops and (eq(q.val, x) is FALSE) for q in o.segs):
            self.addseg(s, "elem", None, x)
            return
        self.addseg(s, "xor", None, x)

    def addseg_at(self, t, kind, key, val, g, loops):
        from .interp import Seg
        o = self.it.wobj(t)
        self.unorder(t, o)
        rg, rl = self.rel(o)
        o.segs = o.segs + (Seg(kind, rg + tuple(g), rl + tuple(loops), key, val, self.it.epoch, self.it.site()),)

    def unary_neg(self, v):
        v = self.val(v)
        if v.op == "vec":
            return mk("vec", *[self.unary_neg(x) for x in v.a])
        return neg(v)

    def invert(self, v):
        v = self.val(v)
        if v.op == "vec":
            return mk("vec", *[not_(x) for x in v.a])
        if isbool(v):
            return not_(v)
        return mk("invert", v)

    def fmt(self, v, spec, conv):
        v = self.val(v)
        if isc(v) and spec is None and conv in (-1, 115) and isinstance(v.a[0], (str, int)):
            return C(str(v.a[0]))
        if spec is None and conv in (-1, 115):
            return v if self.isstr(v) else mk("str", v)
        return mk("fmt", v, spec if spec is not None else NONE, C(conv))

    # ---------------------------------------------------------- iteration
    def k(self, x):
        """Nesting index for a generic element of x."""
        n = 0
        while any(l.op == "loop" and l.a[0].op == "elem" and l.a[0].a[0] is x and l.a[0].a[1] == n for l in self.st.loops):
            n += 1
        return n

    def merging(self, o):
        """Whether equal elements of different segments (or iterations) of a duplicate-free container coincide."""
        if not (o.kind == "set" or o.meta.get("distinct")):
            return False
        ls = [tuple(l for l in s.loops if l not in self.st.loops) for s in o.segs]
        if not any(ls) and len(o.segs) <= 1:
            return False
        return any(l and not (len(l) == 1 and s.val is l[0].a[0]) for l, s in zip(ls, o.segs)) or any(ls)

    def keymerge(self, o):
        """Whether different segments or iterations may set the same key."""
        ls = [tuple(l for l in s.loops if l not in self.st.loops) for s in o.segs]
        return len(o.segs) > 1 or any(len(l) > 1 or l and s.key is not l[0].a[0] for l, s in zip(ls, o.segs))

    def iterate(self, t):
        """Alternatives [(guards, loops, element)] covering one iteration of t."""
        t = self.it.simp(t)
        if t.op == "at":
            t = self.val(t)
        items = self.exact_items(t)
        if items is not None:
            return [((), (), x) for x in items]
        if t.op == "ite":
            c = t.a[0]
            return [((c,) + g, l, e) for g, l, e in self.iterate(t.a[1])] + \
                   [((not_(c),) + g, l, e) for g, l, e in self.iterate(t.a[2])]
        if t.op == "iter" or t.op in ("listof", "setof", "tupleof"):
            return self.iterate(t.a[0])
        if t.op in ("sorted", "reversed"):
            return self.iterate(t.a[0])
        if t.op == "chain":
            out = []
            for x in t.a:
                out += self.iterate(x)
            return out
        if t.op == "product":
            out = [((), (), ())]
            base = self.st.loops
            try:
                for x in t.a:
                    new = []
                    for g, l, es in out:
                        self.st.loops = base + l
                        for g2, l2, e in self.iterate(x):
                            new.append((g + g2, l + l2, es + (e,)))
                    out = new
            finally:
                self.st.loops = base
            return [(g, l, mk("tuple", *es)) for g, l, es in out]
        if t.op == "filter":
            f, x = t.a
            out = []
            for g, l, e in self.iterate(x):
                # the predicate is evaluated in the loop context
                save = self.st.guard, self.st.loops
                self.st.guard, self.st.loops = save[0] + g, save[1] + l
                c = self.it.truth(self.it.call(f, [e], {})) if f is not NONE else self.it.truth(e)
                self.st.guard, self.st.loops = save
                if c is FALSE:
                    continue
                out.append((g + ((c,) if c is not TRUE else ()), l, e))
            return out
        if t.op == "map":
            out = []
            for g, l, e in self.iterate(t.a[1]):
                save = self.st.guard, self.st.loops
                self.st.guard, self.st.loops = save[0] + g, save[1] + l
                r = self.it.call(t.a[0], [e], {})
                self.st.guard, self.st.loops = save
                out.append((g, l, r))
            return out
        if t.op == "enumerate":
            x = self.itval(t.a[0])
            out = []
            for g, l, e in self.iterate(t.a[0]):
                out.append((g, l, mk("tuple", add(t.a[1], mk("idx", x, len(l), e)), e)))
            return out
        if t.op == "zip":
            # the shortest sequence drives the iteration: a tail of another one if there is any
            vs = [self.itval(y) for y in t.a]
            tail = [i for i, y in enumerate(vs) if y.op == "slice" and any(self.itval(y.a[0]) is z for z in vs) and (num(y.a[1]) or 0) > 0 and y.a[2] is NONE]
            d = tail[0] if tail else 0
            first = t.a[d]
            out = []
            alts = self.iterate(first)
            if len(alts) == 1:
                g, l, e = alts[0]
                ix = mk("idx", self.itval(first), len(l), e)
                es = []
                for i, y in enumerate(t.a):
                    if i == d:
                        es.append(e)
                        continue
                    ya = self.iterate(y) if self.exact_items(y) is None else []
                    es.append(mk("item", self.itval(y), ix))
                return [(g, l, mk("tuple", *es))]
            v = mk("zip", *[self.itval(x) for x in t.a])
            k = self.k(v)
            e = mk("elem", v, k)
            return [((), (mk("loop", e, v),), mk("tuple", *[mk("item", e, C(i)) for i in range(len(t.a))]))]
        if t.op == "combinations":
            x = self.itval(t.a[0])
            n = num(t.a[1]) or 2
            alts = self.iterate(t.a[0])
            out = []
            if len(alts) == 1 and alts[0][2].op == "ref":
                g, l, e = alts[0]
                es = [e] + [self.pick(e, i, x) for i in range(1, n)]
                v = mk("combinations", x, C(n))
                el = mk("elem", v, self.k(v))
                return [(g, (mk("loop", el, v),), mk("tuple", *es))]
            v = mk("combinations", x, C(n))
            el = mk("elem", v, self.k(v))
            es = [mk("item", el, C(i)) for i in range(n)]
            for e in es:
                self.elemcands(e, t.a[0])
            return [((), (mk("loop", el, v),), mk("tuple", *es))]
        if t.op == "dview":
            return self.iter_dict(t.a[1], t.a[0])
        if t.op == "nview":
            return self.generic(mk("nview", t.a[0]))
        if t.op == "ndata":
            G = t.a[0]
            g, l, e = self.generic(mk("nview", G))[0]
            return [(g, l, mk("tuple", e, mk("nattr", G, e)))]
        if t.op in ("eview", "edata"):
            G = t.a[0]
            g, l, e = self.generic(mk("eview", G))[0]
            u, v = mk("item", e, C(0)), mk("item", e, C(1))
            segs = self.gsegs(G, "adde")
            if segs:
                self.addcands(u, [s.key.a[0] for s in segs] + [s.key.a[1] for s in segs])
                self.addcands(v, [s.key.a[0] for s in segs] + [s.key.a[1] for s in segs])
            if t.op == "edata":
                return [(g, l, mk("tuple", u, v, self.eattr(G, u, v)))]
            return [(g, l, mk("tuple", u, v))]
        if t.op == "range":
            a, b, s = t.a
            if a is C(0) and s is C(1) and b.op == "len":
                x = b.a[0]
                alts = [z for z in self.generic(x)]
                g, l, e = alts[0]
                return [(g, l, mk("idx", x, 1, e))]
            return self.generic(t)
        if self.isgraph(t):
            return self.iterate(mk("nview", self.gnow(t)))
        o = self.obj(t)
        if o is not None:
            if o.kind in ("list", "set"):
                if all(s.kind in ("elem", "spread") for s in o.segs) and not (o.summary and not self.inloops(o)) and not self.merging(o):
                    out = []
                    for s in o.segs:
                        if s.kind == "spread":
                            g0, l0 = s.guard, s.loops
                            base = self.st.loops
                            self.st.loops = base + l0
                            out += [(g0 + g, l0 + l, e) for g, l, e in self.iterate(s.val)]
                            self.st.loops = base
                        else:
                            out.append(self.rename(s.guard, s.loops, s.val))
                    if not (o.meta.get("order") and len(out) > 1 and not any(l for _, l, _ in out)):
                        return self.inorder(out, o.meta.get("order"))
                v = self.val(t)
                k = self.k(v)
                e = mk("elem", v, k)
                self.addcands(e, [s.val for s in o.segs if s.kind in ("elem", "xor")])
                for s in o.segs:
                    if s.kind == "spread":
                        self.elemcands(e, s.val)
                g = ()
                return [(g, (mk("loop", e, v),), e)]
            if o.kind == "dict":
                return self.iter_dict(t, "keys")
            if o.kind == "nd":
                return self.generic(self.val(t))
            if o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                f, _ = self.it.find_method(o.cls, "__iter__")
                if f is not None:
                    return self.iterate(self.it.call_func(f, t, [], {}))
        rs = self.it.resolve(t)
        if rs and t.op != "ref":
            out = []
            r = self.generic(t)
            g, l, e = r[0]
            for x in rs:
                self.elemcands(e, x)
            return r
        return self.generic(t)

    def inorder(self, out, order):
        """The loop over a sorted collection visits its elements in that order."""
        if not order or not 1 <= len(out) <= 2 or order.a[0] is not NONE or order.a[1] is not FALSE:
            return out
        gs = [g for g, _, _ in out]
        if gs != [()] and not (len(gs) == 2 and len(gs[0]) == len(gs[1]) == 1 and gs[1][0] is not_(gs[0][0])):
            return out
        res = []
        for g, l, e in out:
            new = l[len([x for x in l if x in self.st.loops]):]
            if len(new) == 1 and e.op == "idx" and e.a[2] is new[0].a[0] and e.a[0] is new[0].a[1]:
                res.append((g, l, e))
                continue
            if len(new) != 1 or new[0].a[0] is not e or l[-1] is not new[0]:
                return out
            res.append((g, l if new[0].a[1].op in ("sorted", "sortedby", "reversed") else l[:-1] + (mk("loop", e, mk("sorted", new[0].a[1])),), e))
        return res

    def elemcands(self, e, coll, seen=None):
        seen = set() if seen is None else seen
        if coll in seen or len(seen) > 200:
            return
        seen.add(coll)
        for r in self.it.resolve(coll) or [coll]:
            o = self.obj(r)
            if o is None:
                continue
            if o.kind in ("list", "set"):
                self.addcands(e, [s.val for s in o.segs if s.kind in ("elem", "xor")])
                for s in o.segs:
                    if s.kind == "spread" and s.val is not coll:
                        self.elemcands(e, s.val, seen)
            elif o.kind == "dict":
                self.addcands(e, [s.key for s in o.segs if s.kind == "set"])

    def rename(self, guard, loops, val):
        """Instantiate a generic segment in the current loop context."""
        m = {}
        nl = []
        for l in loops:
            e = l.a[0]
            if l in self.st.loops and e.op == "elem":
                k = self.k(e.a[0])
                ne = mk("elem", e.a[0], k)
                m[e] = ne
        if not m:
            if val.op == "ref" and any(l in self.st.loops for l in loops):
                return tuple(guard), tuple(loops), self.pick(val, 1, mk("L", *loops))
            return tuple(guard), tuple(loops), val
        f = lambda x: m.get(x)
        v = subst(val, f)
        if val.op == "ref":
            v = self.pick(val, len(m), mk("L", *loops))
        return tuple(subst(g, f) for g in guard), tuple(subst(l, f) for l in loops), v

    def pick(self, ref, k, dom):
        t = mk("pick", ref, k)
        self.addcands(t, [ref])
        return t

    def generic(self, x):
        k = self.k(x)
        e = mk("elem", x, k)
        return [((), (mk("loop", e, x),), e)]

    def guarded_dict(self, o):
        """[(python key, condition of presence, value)] of a dictionary written at known keys only."""
        out = {}
        for s in o.segs:
            if s.loops or s.kind not in ("set", "del") or not iskey(s.key) or o.meta.get("default"):
                return None
            k, c = pykey(s.key), and_(*s.guard) if s.guard else TRUE
            if s.kind == "set":
                p, v = out.get(k, (FALSE, s.val))
                out[k] = (or_(p, c), s.val if c is TRUE else ite(c, s.val, v))
            elif k in out:
                out[k] = (and_(out[k][0], not_(c)), out[k][1])
        return [(k, c, v) for k, (c, v) in out.items() if c is not FALSE]

    def iter_dict(self, d, what):
        d = self.it.simp(d)
        if d.op == "ite":
            c = d.a[0]
            return [((c,) + g, l, e) for g, l, e in self.iter_dict(d.a[1], what)] + \
                   [((not_(c),) + g, l, e) for g, l, e in self.iter_dict(d.a[2], what)]
        o = self.obj(d)

        def shape(k, v):
            return k if what == "keys" else (v if what == "values" else mk("tuple", k, v))
        if o is not None and o.kind == "dict":
            ex = self.exact_dict(d)
            if ex is not None:
                return [((), (), shape(keyt(k), v)) for k, v in ex]
            if any(s.kind == "del" for s in o.segs):
                gd = self.guarded_dict(o)
                if gd is not None:
                    return [((c,) if c is not TRUE else (), (), shape(keyt(k), v)) for k, c, v in gd]
            if all(s.kind in ("set", "spread") for s in o.segs) and not ("fam" in o.meta and self.keymerge(o)):
                out = []
                seen = {}
                for i, s in enumerate(o.segs):
                    if s.kind == "spread":
                        later = [z for z in o.segs[i + 1:] if z.kind == "set" and isc(z.key)]
                        for g, l, e in self.iter_dict(s.val, "items"):
                            kk, vv = e.a
                            gg = tuple(not_(eq(z.key, kk)) for z in later if eq(z.key, kk) is not FALSE)
                            out.append((s.guard + g + gg, s.loops + l, shape(kk, vv)))
                        continue
                    later = [z for z in o.segs[i + 1:] if z.kind == "set" and z.key is s.key and z.loops == s.loops]
                    if later:
                        # value is overwritten when a later guard holds
                        if all(z.guard == s.guard or not z.guard for z in later):
                            continue
                        c = not_(or_(*[and_(*z.guard) if z.guard else TRUE for z in later]))
                        g, l, e = self.rename(s.guard, s.loops, shape(s.key, s.val))
                        out.append((g + ((c,) if c is not TRUE else ()), l, e))
                        continue
                    g, l, e = self.rename(s.guard, s.loops, mk("tuple", s.key, s.val)) if what == "items" else \
                        self.rename(s.guard, s.loops, s.key if what == "keys" else s.val)
                    out.append((g, l, e))
                return out
        v = self.val(d)
        g, l, e = self.generic(v)[0]
        if o is not None and o.kind == "dict":
            self.addcands(e, [s.key for s in o.segs if s.kind == "set"])
        if what == "keys":
            return [(g, l, e)]
        w = mk("item", v, e)
        if o is not None and o.kind == "dict":
            self.addcands(w, [s.val for s in o.segs if s.kind == "set"])
        return [(g, l, shape(e, w))]

    # -------------------------------------------------------- misc hooks
    def enter(self, v):
        for r in self.it.resolve(v):
            o = self.obj(r)
            if o and o.kind == "inst" and o.cls is not None and o.cls.op == "cls":
                f, _ = self.it.find_method(o.cls, "__enter__")
                if f is not None:
                    return self.it.call_func(f, r, [], {})
        self.it.emit("with_enter", root=v)
        return v

    def may_raise(self, body):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Call, ast.Subscript)):
                    return True
        return False

    def super_attr(self, name):
        fr = self.it.frames[-1]
        selfv = fr.selfv
        ct = self.clsof(selfv)
        if ct is not None and ct.op == "cls":
            m, _ = self.it.find_method(ct, name, after=fr.clsctx)
            if m is not None:
                return mk("bm", selfv, m)
        return mk("bmx", selfv, "super:" + name)

    def envdict(self, which):
        fr = self.it.frames[-1]
        if which == "globals":
            return mk("envd", self.it.modname(fr))
        d = self.mkdict()
        for k, v in list(self.st.loc.items()):
            if isinstance(v, T) and v is not UNDEF:
                self.dict_set(d, C(k), v, quiet=True)
        return d

    def dc_default(self, t):
        if t.op == "dcfield":
            d, f = t.a
            if f is not NONE:
                return self.it.call(f, [], {})
            return d
        return t

    # ------------------------------------------------------------- classes
    def clsof(self, t):
        if not isinstance(t, T):
            return None
        if t in self.types:
            return self.types[t]
        if t.op == "s" and isinstance(t.a[1], T):
            return t.a[1]
        o = self.obj(t)
        if o is not None:
            return o.cls if o.kind == "inst" else None
        if t.op == "attr" and t.a[1] == "graph":
            c = self.clsof(t.a[0])
            if c is not None and c.op == "cls" and self.it.classes[c.a[0]].name in ("SurfaceCode",):
                return self.it.get("flamingpy.codes.graphs.egraph:EGraph", required=False)
        cs = []
        for r in self.it.resolve(t):
            c = self.clsof(r) if r is not t else None
            if c is not None and c not in cs:
                cs.append(c)
        if len(cs) == 1:
            return cs[0]
        return None

    def gnow(self, G):
        """The graph as it is now (only where reads of its structure are versioned)."""
        if not self.it.gversions or G.op != "ref":
            return G
        o = self.obj(G)
        if o is None or o.kind != "inst" or o.meta.get("view") is not None:
            return G
        return mk("gv", G, C(max([s.n for f in ("addn", "adde", "rm") for s in o.fields.get(f) or ()] or [0])))

    def isgraph(self, t):
        if t.op == "gv":
            return True
        c = self.clsof(t)
        if c is None:
            return t.op in ("gcopy", "gsub")
        if c.op == "ext":
            return c.a[0] in GRAPHS
        if c.op != "cls":
            return False
        _, ext = self.it.mro(c)
        return any(e.op == "ext" and e.a[0] in GRAPHS for e in ext)

    def isrx(self, t):
        o = self.obj(t)
        return bool(o and o.kind == "rxg")

    def init_ext(self, t, e):
        if e.op == "ext" and e.a[0] in GRAPHS:
            o = self.it.wobj(t)
            d = self.mkdict()
            o = self.it.wobj(t)
            o.fields["graph"] = d

    def init_ext_call(self, t, e, args, kw):
        if e.op == "ext" and e.a[0] in GRAPHS:
            self.graph_init(t, args, kw)

    def graph_init(self, t, args, kw):
        o = self.obj(t)
        if o is None:
            return
        if "graph" not in o.fields:
            d = self.mkdict()
            self.it.wobj(t).fields["graph"] = d
        o = self.obj(t)
        kw = dict(kw)
        src = args[0] if args else kw.pop("incoming_graph_data", None)
        extra = kw.pop("**", None)
        if src is not None and src is not NONE:
            self.graph_copy_into(t, src)
        if extra is not None:
            self.dict_update(o.fields["graph"], extra, quiet=True)
        for k, v in kw.items():
            self.dict_set(o.fields["graph"], C(k), v, quiet=True)

    def graph_copy_into(self, t, src):
        so = self.obj(self.groot(src))
        o = self.it.wobj(t)
        o.meta = {**o.meta, "copied": True}
        if so is not None and so.kind == "inst":
            for f, v in so.fields.items():
                if isinstance(f, tuple) or f in ("addn", "adde", "rmn", "rme"):
                    o.fields[f] = v
            if "graph" in so.fields:
                self.dict_update(o.fields["graph"], so.fields["graph"], quiet=True)
            if not so.meta.get("copied"):
                o = self.it.wobj(t)
                o.meta = {k: v for k, v in o.meta.items() if k != "copied"}
            o = self.it.wobj(t)
            o.meta = {**o.meta, "from": src}
        else:
            self.gaddseg(t, ("n", "*"), "set", mk("elem", mk("nview", src), 0), mk("nattr", src, mk("elem", mk("nview", src), 0)))
            o = self.it.wobj(t)
            o.meta = {**o.meta, "from": src}

    # -------------------------------------------------------- attributes
    def getattr(self, b, name):
        it = self.it
        if b.op == "ite":
            c = b.a[0]
            r = it.branch(c, lambda: self.getattr(it.simp(b.a[1]), name), lambda: self.getattr(it.simp(b.a[2]), name)) \
                if (self.isprop(b.a[1], name) or self.isprop(b.a[2], name)) else \
                ite(c, self.getattr(b.a[1], name), self.getattr(b.a[2], name))
            return r
        if b.op == "module":
            env = it.load_module(b.a[0])
            if env is None:
                return Ext(b.a[0] + "." + name)
            key = (b.a[0], name)
            if key in self.st.glob:
                return self.st.glob[key]
            if name in env:
                return env[name]
            sub = b.a[0] + "." + name
            if it.module_path(sub)[0]:
                it.load_module(sub)
                return mk("module", sub)
            if name == "__name__":
                return C(b.a[0])
            return Ext(sub)
        if b.op == "ext":
            return Ext(b.a[0] + "." + name)
        if b.op == "cls":
            c = it.classes[b.a[0]]
            if name == "__name__":
                return C(c.name)
            g = self.st.glob.get((b, name))
            if g is not None:
                it.emit("read_global", root=b, name=name, val=g)
                return g
            m, o = it.find_method(b, name)
            if m is not None:
                if m.op == "fn" and it.funcs[m.a[0]].kind == "classmethod":
                    return mk("bm", b, m)
                return m
            return mk("attr", b, name)
        if b.op in ("fn", "bm"):
            if name == "__name__":
                f = b if b.op == "fn" else b.a[1]
                return C(it.funcs[f.a[0]].qual.split(".")[-1]) if f.op == "fn" else mk("attr", b, name)
            if name == "__self__" and b.op == "bm":
                return b.a[0]
            g = self.st.glob.get((b, name))
            return g if g is not None else mk("attr", b, name)
        o = self.obj(b)
        if o is not None:
            if o.kind == "inst":
                return self.getattr_inst(b, o, name)
            if o.kind == "nd":
                return self.nd_attr(b, self.val(b), name)
            if o.kind == "rxg" and name == "attrs":
                return mk("attr", b, name)
            return mk("bmx", b, name)
        if b.op == "vec":
            return self.nd_attr(b, b, name)
        if b.op == "super":
            return mk("bmx", b.a[0], "super:" + name)
        if b.op == "rxedata":
            segs = self.gsegs(b.a[0], ("rx", "." + name))
            if segs:
                return self.load(segs, b.a[1], lambda: mk("attr", b, name), base=mk("rxattr", b.a[0], name))
        # symbolic value of a known class
        ct = self.clsof(b)
        if ct is not None and ct.op == "cls":
            m, _ = it.find_method(ct, name)
            if m is not None and m.op == "fn":
                f = it.funcs[m.a[0]]
                if f.kind in ("property", "cached_property"):
                    return it.call_func(m, b, [], {})
                if f.kind == "staticmethod":
                    return m
                return mk("bm", b, m)
            if m is not None and not self.st.over.get((b, "." + name)):
                hasfield = any(self.obj(r) and name in self.obj(r).fields for r in it.resolve(b))
                if not hasfield:
                    return m
        if self.isgraph(b) or name in ("nodes", "edges") and b.op in ("s", "attr", "item", "call", "mcall", "elem", "get", "any", "gsub", "gcopy"):
            r = self.graph_attr(b, name)
            if r is not None:
                return r
        if b is NONE:
            it.emit("none_attr", name=name)
            return mk("unk", "none", name)
        segs = self.st.over.get((b, "." + name), ())
        cs = []
        for r in it.resolve(b):
            ro = self.obj(r)
            if ro is not None and name in ro.fields:
                cs.append(ro.fields[name])
        if cs and b.op != "ref":
            base = mk("attr", b, name)
            self.addcands(base, [c for c in cs if isinstance(c, T)])
        if segs:
            return self.load([s for s in segs], C(name), lambda: mk("attr", b, name), base=b)
        if cs:
            # the same immutable value in every candidate object
            if len(set(cs)) == 1 and isc(cs[0]):
                return cs[0]
            return mk("attr", b, name)
        if name in MUT or name in DRAWS or name in METHODS:
            return mk("bmx", b, name)
        if b.op in ("draw", "listof", "setof", "listv", "range", "dview", "cat", "fmt", "str", "nattr", "eattr", "nview", "eview", "rx", "newrng"):
            if b.op in ("nview", "eview") and name == "data":
                return mk("bmx", b, name)
            return mk("bmx", b, name)
        if b.op == "c":
            return mk("bmx", b, name)
        if name in ("T", "shape", "size", "dtype", "ndim"):
            return self.nd_attr(b, self.val(b), name)
        return mk("attr", b, name)

    def isprop(self, t, name):
        c = self.clsof(t)
        if c is not None and c.op == "cls":
            m, _ = self.it.find_method(c, name)
            return m is not None and m.op == "fn" and self.it.funcs[m.a[0]].kind in ("property", "cached_property")
        return False

    def nd_attr(self, b, v, name):
        if name == "size" and v.op == "vec":
            return C(len(v.a))
        if name == "shape":
            return self.shape(v)
        if name == "T":
            return mk("transpose", v) if v.op != "transpose" else v.a[0]
        if name == "size":
            return mk("size", v)
        if name in ("dtype", "ndim", "flat", "real", "imag"):
            return mk("attr", v, name)
        return mk("bmx", b, name)

    def shape(self, v):
        if v.op == "vec":
            return mk("tuple", C(len(v.a)))
        if v.op == "ndw":
            return self.shape(v.a[0])
        if v.op == "nd" and v.a[1].op in ("tuple",):
            return v.a[1]
        if v.op == "nd" and v.a[1].op in ("c", "poly", "len", "s", "item", "attr"):
            return mk("tuple", v.a[1])
        return mk("shape", v)

    def getattr_inst(self, b, o, name):
        it = self.it
        ct = o.cls
        m = owner = None
        if ct is not None and ct.op == "cls":
            m, owner = it.find_method(ct, name)
            if m is not None and m.op == "fn" and it.funcs[m.a[0]].kind in ("property", "cached_property"):
                f = it.funcs[m.a[0]]
                if f.kind == "cached_property":
                    if name in o.fields:
                        return o.fields[name]
                    v = it.call_func(m, b, [], {})
                    it.wobj(b).fields[name] = v
                    return v
                return it.call_func(m, b, [], {})
        if name in o.fields:
            v = it.simp(o.fields[name])
            if v is UNDEF or (v.op == "ite" and contains(v, lambda x: x is UNDEF)):
                v = it.undef_read("attribute", name, v)
            if self.isummary(b) and isinstance(v, T) and v.op != "ref" and not isc(v):
                return v
            return v
        if m is not None:
            if m.op == "fn":
                k = it.funcs[m.a[0]].kind
                if k == "staticmethod":
                    return m
                if k == "classmethod":
                    return mk("bm", ct, m)
                return mk("bm", b, m)
            g = self.st.glob.get((owner, name))
            return g if g is not None else m
        if name == "__class__":
            return ct
        if name == "__dict__":
            return mk("attr", b, name)
        if self.isgraph(b):
            r = self.graph_attr(b, name)
            if r is not None:
                return r
        ext = it.mro(ct)[1] if ct is not None and ct.op == "cls" else [ct]
        real = [e for e in ext if not (e.op == "ext" and e.a[0] in ("builtins.object", "abc.ABC", "typing.Generic"))]
        if not real:
            if not it.quiet:
                it.emit("attr_missing", root=b, name=name, val=ct)
            return mk("unk", "attr", name)
        return mk("bmx", b, name)

    def graph_attr(self, b, name):
        if name == "nodes":
            return mk("nview", self.gnow(b))
        if name == "edges":
            return mk("eview", self.gnow(b))
        if name in ("adj", "_adj") and not (self.obj(b) and name in self.obj(b).fields):
            return mk("adjall", self.gnow(b))
        if name == "degree":
            return mk("bmx", b, "degree")
        if name == "graph":
            o = self.obj(b)
            if o is not None and "graph" in o.fields:
                return o.fields["graph"]
            return mk("attr", b, "graph")
        if name in GMETHODS:
            return mk("bmx", b, name)
        return None

    def setattr(self, b, name, v):
        it = self.it
        if b.op == "ite":
            it.branch(b.a[0], lambda: self.setattr(it.simp(b.a[1]), name, v), lambda: self.setattr(it.simp(b.a[2]), name, v))
            return
        if b.op in ("cls", "fn", "module", "bm"):
            it.emit("write_global", root=b, name=name, val=v)
            if b.op == "module":
                self.st.glob[(b.a[0], name)] = v
            else:
                self.st.glob[(b, name)] = v
            return
        o = self.obj(b)
        ct = self.clsof(b)
        if ct is not None and ct.op == "cls":
            m, _ = it.find_method(ct, name + "@setter")
            if m is not None:
                it.call_func(m, b, [v], {})
                return
        it.emit("write_attr", root=b, name=name, val=v)
        if b.op == "rxedata":
            self.gaddseg(b.a[0], ("rx", "." + name), "set", b.a[1], self.val(v))
            return
        if o is not None:
            n = it.wobj(b)
            if self.isummary(b) and name in n.fields and n.fields[name] is not v:
                n.fields[name] = any_([n.fields[name], v])
            else:
                n.fields[name] = v
            return
        rs = it.resolve(b)
        for r in rs:
            n = it.wobj(r)
            if name in n.fields and isinstance(n.fields[name], T):
                n.fields[name] = any_([n.fields[name], v])
            else:
                n.fields[name] = v
        self.addover((b, "." + name), "set", C(name), v)

    # ------------------------------------------------------------- items
    def view(self, r, b, k):
        """The value r of b[k] (k a slice) shares the memory of the array object b."""
        c = self.views.setdefault(r, [])
        if (b, k) not in c:
            c.append((b, k))

    def viewset(self, b, f):
        """Write through a slice of an array: f writes to a scratch copy."""
        t = self.mknd(b)
        f(t)
        c = self.views[b]
        now = [(o, k) for o, k in c if self.getitem(o, k) is b] or c[-1:]
        for o, k in now:
            self.setitem(o, k, self.val(t) if len(now) == 1 else mk("unk", "view"))
        return now[0] if len(now) == 1 else None

    def getitem(self, b, k):
        it = self.it
        if b.op == "at":
            b = self.val(b)
        if b.op == "ite":
            if b.a[1].op != "unk" or True:
                return ite(b.a[0], self.getitem(it.simp(b.a[1]), k), self.getitem(it.simp(b.a[2]), k))
        o = self.obj(b)
        if k.op == "slc" and (b.op in ("tuple", "vec", "listv") or (o and o.kind in ("list", "nd"))):
            items = self.exact_items(b)
            lo, hi, stp = [num(x) if x is not NONE else None for x in k.a]
            if items is not None and all(x is NONE or isinstance(num(x), int) for x in k.a):
                r = items[slice(lo, hi, stp)]
                if b.op == "tuple":
                    return mk("tuple", *r)
                if o and o.kind == "list":
                    return self.mklist(r)
                return mk("vec", *r)
            if o and o.kind == "list":
                if all(x is NONE for x in k.a):
                    return self.fromiter("list", b)
                l = self.it.new("list")
                x = self.itval(b)
                self.addseg(l, "spread", None, mk("slice", x, *k.a))
                v = mk("slice", x, *k.a)
                self.addcands(mk("elem", v, 0), [s.val for s in o.segs if s.kind == "elem"])
                return l
        if b.op in ("tuple", "vec", "listv"):
            n = num(k)
            if isinstance(n, int) and not isinstance(n, bool):
                if -len(b.a) <= n < len(b.a):
                    return b.a[n]
                it.emit("index_error", root=b, key=k)
                return mk("unk", "index")
            if k.op == "ite":
                return ite(k.a[0], self.getitem(b, k.a[1]), self.getitem(b, k.a[2]))
            if b.op in ("vec",) and self.val(k).op == "vec":
                kv = self.val(k)
                if all(isinstance(num(x), int) and not isinstance(num(x), bool) for x in kv.a):
                    return mk("vec", *[b.a[num(x)] for x in kv.a])
            t = mk("item", b, self.val(k))
            self.addcands(t, list(b.a))
            return t
        if b.op == "c" and isc(k) and isinstance(b.a[0], (str, tuple, list)):
            try:
                return C(b.a[0][k.a[0]])
            except Exception:
                return mk("unk", "index")
        if b.op == "nview":
            return mk("nattr", b.a[0], k)
        if b.op == "eview":
            if k.op == "tuple" and len(k.a) >= 2:
                return self.eattr(b.a[0], k.a[0], k.a[1])
            return self.eattr(b.a[0], self.getitem(k, C(0)), self.getitem(k, C(1)))
        if b.op in ("nattr", "eattr", "rxedata"):
            return self.gload(b, k)
        if b.op == "adjall":
            return mk("adjv", b.a[0], k)
        if b.op == "adjv":
            return self.eattr(b.a[0], b.a[1], k)
        if b.op == "envd":
            env = it.modules.get(b.a[0], {})
            if isc(k) and k.a[0] in env:
                return env[k.a[0]]
            return mk("item", b, k)
        if self.isgraph(b):
            ct = self.clsof(b)
            m = it.find_method(ct, "__getitem__")[0] if ct.op == "cls" else None
            if m is not None:
                return it.call_func(m, b, [k], {})
            return mk("adjv", self.gnow(b), k)
        if o is not None:
            if o.kind == "dict":
                return self.dict_item(b, o, k)
            if o.kind == "list":
                items = self.exact_items(b)
                n = num(k)
                if items is not None:
                    if isinstance(n, int):
                        if -len(items) <= n < len(items):
                            return items[n]
                        it.emit("index_error", root=b, key=k)
                        return mk("unk", "index")
                    if k.op == "ite":
                        return ite(k.a[0], self.getitem(b, k.a[1]), self.getitem(b, k.a[2]))
                return self.list_item(b, o, k)
            if o.kind == "nd":
                r = self.nd_item(b, o, k)
                if k.op == "slc" or k.op == "tuple" and any(x.op == "slc" for x in k.a) and all(x.op == "slc" or num(x) is not None for x in k.a):
                    self.view(r, b, k)
                return r
            if o.kind == "inst":
                ct = o.cls
                f, _ = it.find_method(ct, "__getitem__") if ct.op == "cls" else (None, None)
                if f is not None:
                    return it.call_func(f, b, [k], {})
            if o.kind == "rxnodes":
                return self.rx_item(b, o, k)
        if b.op == "rxedge":
            return b.a[num(k)] if num(k) in (0, 1) else mk("item", b, k)
        if k.op == "idx" and k.a[0] is b:
            return k.a[2]
        if k.op == "idx" and b.op == "listof" and k.a[0] is b.a[0]:
            return k.a[2]
        if b.op == "range" and k.op == "idx":
            return add(b.a[0], mul(b.a[2], k))
        if b.op == "range" and num(k) is not None and num(k) >= 0:
            return add(b.a[0], mul(b.a[2], k))
        if b.op == "shape":
            return mk("item", b, k)
        if b.op == "nonzero1" and k is C(0):
            return b.a[0]
        if b.op in ("slice",) and k.op != "slc":
            pass
        if b.op == "rxnodes":
            return mk("item", b, k)
        ov = self.st.over.get((b, "[]"), ())
        kv = self.val(k)
        if ov:
            return self.load(ov, kv, lambda: self.mkitem(b, kv), base=b)
        if kv.op in FANCY:
            return self.mknd(self.mkitem(b, kv))     # picking several entries of an array makes a new array
        return self.mkitem(b, kv)

    def mkitem(self, b, k):
        t = mk("item", b, k)
        rs = self.it.resolve(b)
        if rs and b.op != "ref":
            cs = []
            for r in rs:
                o = self.obj(r)
                if o is None:
                    continue
                if o.kind in ("list", "set"):
                    cs += [s.val for s in o.segs if s.kind in ("elem",)]
                elif o.kind == "dict":
                    cs += [s.val for s in o.segs if s.kind == "set" and eq(s.key, k) is not FALSE]
            self.addcands(t, cs)
        return t

    def list_item(self, b, o, k):
        """Item of a partially known list."""
        if k.op == "idx" and k.a[0] is self.itval(b):
            return k.a[2]
        v = self.itval(b)
        if o.meta.get("order"):
            v = self.val(b)
        segs = [s for s in o.segs]
        n = num(k)
        # [ elem ] prefix known
        if isinstance(n, int) and n >= 0 and all(s.kind == "elem" and not s.guard and not s.loops for s in segs[:n + 1]) and len(segs) > n \
                and not o.meta.get("order"):
            return segs[n].val
        if len(segs) == 1 and segs[0].kind == "elem" and len(segs[0].loops) == 1 and not segs[0].guard and k.op != "slc":
            # a mapped list [f(e) for e in X][k] -> f(X[k])
            lp = segs[0].loops[0]
            e = lp.a[0]
            if e.op == "elem" and e is not segs[0].val and segs[0].val.op != "ref":
                x = e.a[0]
                nk = self.getitem_q(x, k) if x.op not in ("nview", "eview") else mk("item", x, k)
                if x.op == "range" and num(k) is None and k.op not in ("idx", "elem"):
                    nk = add(x.a[0], mul(x.a[2], k))
                return subst(segs[0].val, lambda y: nk if y is e else (k if y.op == "idx" and y.a[2] is e else None))
        t = mk("item", v, self.val(k))
        cs = [s.val for s in segs if s.kind == "elem"]
        for s in segs:
            if s.kind == "spread":
                for r in self.it.resolve(mk("elem", s.val, 0)):
                    cs.append(r)
        self.addcands(t, cs)
        return t

    def dict_item(self, b, o, k):
        it = self.it
        ex = self.exact_dict(b)
        if ex is not None:
            if iskey(k):
                d = dict(ex)
                try:
                    if pykey(k) in d:
                        return d[pykey(k)]
                except TypeError:
                    pass
                if not o.meta.get("default"):
                    it.raise_exc("KeyError")
                    return mk("unk", "key")
            elif k.op == "ite":
                return ite(k.a[0], self.getitem(b, k.a[1]), self.getitem(b, k.a[2]))
            elif ex and not o.meta.get("default"):
                if len(ex) > 12:
                    t = mk("item", self.val(b), k)
                    self.addcands(t, [v for _, v in ex])
                    return t
                r = None
                live = []
                for kk, v in ex:
                    d = it.decide(eq(keyt(kk), k))
                    if d is True:
                        return v
                    if d is False:
                        continue
                    live.append((kk, v))
                for kk, v in reversed(live):
                    r = v if r is None else ite(eq(keyt(kk), k), v, r)
                if r is None:
                    it.raise_exc("KeyError")
                    return mk("unk", "key")
                return r
        dflt = o.meta.get("default")
        if dflt is None and "fam" in o.meta and not o.meta.get("fambad") and not isc(k) and k.op != "ite":
            return self.at(o.meta["fam"][1], o.meta["fam"][0], k)
        if dflt is not None and not isc(k) and k.op != "ite":
            t = self.famget(b, k, lambda: it.call(dflt, [], {}))
            if t is not None:
                return t

        def miss():
            if dflt is not None:
                v = it.call(dflt, [], {})
                self.dict_set(b, k, v, quiet=True)
                return v
            return mk("item", mk("fresh", b), k)
        if k.op == "ite":
            return ite(k.a[0], self.getitem(b, k.a[1]), self.getitem(b, k.a[2]))
        return self.load(o.segs, k, miss, base=None)

    def nd_item(self, b, o, k):
        v = o.meta["base"]
        kv = self.val(k)
        if not o.segs:
            return self.getitem(v, kv)
        if kv.op == "slc":
            return mk("item", self.val(b), kv)
        r = self.load(o.segs, kv, lambda: self.getitem_q(v, kv), base=mk("ndcell", v))
        return self.mknd(r) if kv.op in FANCY and r.op == "load" else r

    def setitem(self, b, k, v):
        it = self.it
        if b.op == "at":
            self.under(self.memberc(b), lambda: self.setitem(b.a[0], k, v))
            return
        if b.op == "ite":
            it.branch(b.a[0], lambda: self.setitem(it.simp(b.a[1]), k, v), lambda: self.setitem(it.simp(b.a[2]), k, v))
            return
        o = self.obj(b)
        if b.op in ("nattr", "eattr"):
            G = self.groot(b.a[0])
            typ = "n" if b.op == "nattr" else "e"
            it.emit("write_item", root=mk(b.op, G, b.a[1]), key=k, val=v)
            if isc(k):
                self.gaddseg(G, (typ, k.a[0]), "set", b.a[1], v)
            else:
                self.gaddseg(G, (typ, "?"), "set", b.a[1], v)
            return
        if b.op == "rxedata" and isc(k):
            it.emit("write_item", root=b, key=k, val=v)
            self.gaddseg(b.a[0], ("rx", k.a[0]), "set", b.a[1], self.val(v))
            return
        if o is not None and o.kind == "inst" and o.cls.op == "cls":
            f, _ = it.find_method(o.cls, "__setitem__")
            if f is not None:
                it.call_func(f, b, [k, v], {})
                return
        it.emit("write_item", root=b, key=k, val=v)
        if o is not None and o.kind == "dict":
            if not self.famset(b, o, k, v):
                if "fam" in o.meta:                        # a member of a family is replaced
                    n = it.wobj(b)
                    n.meta = {**n.meta, "fambad": True}
                    if len(it.st.loops) > len(o.aloops) and it.st.loops[-1].a[0] is not k:
                        v = mk("unk", "family")
                self.dict_set(b, k, v, quiet=True)
        elif o is not None and o.kind == "list":
            items = self.exact_items(b)
            n = num(k)
            g, l = self.rel(o)
            if items is not None and isinstance(n, int) and -len(items) <= n < len(items):
                if not l:
                    nw = it.wobj(b)
                    i = n % len(items)
                    c = and_(*g) if g else TRUE
                    from .interp import Seg
                    segs = [Seg("elem", (), (), None, x, it.epoch, it.site()) for x in items]
                    segs[i] = Seg("elem", (), (), None, ite(c, v, items[i]), it.epoch, it.site())
                    nw.segs = tuple(segs)
                    return
            if items is not None and not l and n is None and k.op != "slc":
                nw = it.wobj(b)
                c = and_(*g) if g else TRUE
                from .interp import Seg
                nw.segs = tuple(Seg("elem", (), (), None, ite(and_(c, eq(C(i), k)), v, x), it.epoch, it.site()) for i, x in enumerate(items))
                return
            self.addseg(b, "set", k, v)
        elif o is not None and o.kind == "nd":
            kv = self.val(k)
            base = o.meta["base"]
            n = num(k)
            g, l = self.rel(o)
            if base.op == "vec" and isinstance(n, int) and not o.segs and not g and not l and -len(base.a) <= n < len(base.a):
                nw = it.wobj(b)
                xs = list(base.a)
                xs[n] = self.val(v)
                nw.meta = {**nw.meta, "base": mk("vec", *xs)}
                return
            s = self.addseg(b, "set", kv, self.val(v))
            self.kill_segs(b, None, s)
        elif o is not None:
            self.addseg(b, "set", k, v)
        elif b in self.views:
            return self.viewset(b, lambda t: self.setitem(t, k, v))
        else:
            rs = it.resolve(b)
            for r in rs:
                ro = self.obj(r)
                if ro.kind in ("dict", "list", "nd"):
                    self.under(self.candc(b, r, rs), lambda: self.addseg(r, "set", self.val(k) if ro.kind == "nd" else k, v))
            self.addover((b, "[]"), "set", self.val(k), self.val(v) if self.kind(v) == "nd" else v)

    # ------------------------------------------------------------- length
    def length(self, t):
        t = self.it.simp(t)
        if t.op == "at":
            t = self.val(t)
        items = self.exact_items(t)
        if items is not None and (self.kind(t) != "set" or len(items) <= 1 or all(isc(x) for x in items)):
            return C(len(items))
        if t.op == "ite":
            return ite(t.a[0], self.length(t.a[1]), self.length(t.a[2]))
        if self.isgraph(t):
            return mk("len", mk("nview", self.gnow(t)))
        if t.op == "nview":
            return mk("len", mk("nview", t.a[0]))
        if t.op in ("listof", "iter", "sorted", "sortedby", "reversed", "tupleof"):
            return self.length(t.a[0])
        if t.op == "dview":
            return self.length(t.a[1])
        if t.op == "range":
            a, b, s = t.a
            if a is C(0) and s is C(1):
                return b
            if s is C(1):
                return sub(b, a)
        o = self.obj(t)
        if o is not None:
            if o.kind == "inst" and o.cls.op == "cls":
                f, _ = self.it.find_method(o.cls, "__len__")
                if f is not None:
                    return self.it.call_func(f, t, [], {})
            if o.kind == "list" and all(s.kind in ("elem", "spread") for s in o.segs) and not (o.summary and not self.inloops(o)):
                r = C(0)
                for s in o.segs:
                    g = and_(*s.guard) if s.guard else TRUE
                    if s.kind == "spread":
                        x = self.length(s.val)
                        if s.loops:
                            x = self.it.red("sum", s.loops, x)
                        r = add(r, ite(g, x, C(0)))
                    elif s.loops:
                        if len(s.loops) == 1 and g is TRUE and s.loops[0].a[0].op == "elem":
                            r = add(r, self.length(s.loops[0].a[1]))
                        else:
                            r = add(r, self.it.red("sum", s.loops, ite(g, C(1), C(0))))
                    else:
                        r = add(r, ite(g, C(1), C(0)))
                return r
            if o.kind == "nd":
                v = self.val(t)
                return self.getitem(self.shape(v), C(0)) if self.shape(v).op == "tuple" else mk("len", v)
            return mk("len", self.val(t))
        return mk("len", self.val(t))

    def sum(self, t):
        """Sum of the elements of an iterable."""
        items = self.exact_items(t)
        if items is not None:
            r = C(0)
            for x in items:
                r = add(r, self.numb(x) if not isbool(x) or isc(x) else ite(x, C(1), C(0)))
            return r
        o = self.obj(t)
        if (o is not None and o.kind in ("list",) and all(s.kind in ("elem", "spread") for s in o.segs)) or t.op in ("map", "filter", "dview", "chain"):
            r = C(0)
            for g, l, e in self.iterate(t):
                e = self.val(e)
                if isbool(e) and not isc(e):
                    e = ite(e, C(1), C(0))
                x = ite(and_(*g) if g else TRUE, e, C(0))
                r = add(r, self.it.red("sum", l, x) if l else x)
            return r
        v = self.val(t)
        if v.op == "ite":
            return ite(v.a[0], self.sum(v.a[1]), self.sum(v.a[2]))
        return mk("npsum", v)

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw):
        from .calls import lib_call
        return lib_call(self, f, args, kw)


METHODS = {"get", "items", "keys", "values", "copy", "index", "count", "union", "intersection", "difference", "symmetric_difference",
           "issubset", "issuperset", "isdisjoint", "join", "split", "startswith", "endswith", "lower", "upper", "capitalize", "format",
           "replace", "strip", "lstrip", "rstrip", "dot", "sum", "astype", "flatten", "reshape", "nonzero", "any", "all", "tolist", "ravel", "min", "max",
           "mean", "transpose", "toarray", "todense", "tocsr", "tocoo", "prod", "argmin", "argmax", "clip", "round", "cumsum",
           "write", "writelines", "read", "readline", "close", "flush", "writerow", "writerows", "Reduce", "reduce", "Allreduce",
           "allreduce", "Get_rank", "Get_size", "Gather", "gather", "Bcast", "bcast", "Barrier"}
GMETHODS = {"add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node", "remove_nodes_from", "remove_edge",
            "remove_edges_from", "neighbors", "has_node", "has_edge", "subgraph", "copy", "order", "number_of_nodes",
            "number_of_edges", "size", "degree", "get_edge_data", "update", "clear", "edge_subgraph", "is_directed", "is_multigraph",
            "add_weighted_edges_from", "adjacency", "to_directed", "to_undirected"}

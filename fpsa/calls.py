"""Models of external calls (built-ins, numpy, networkx, rustworkx, itertools, csv)."""
from .terms import *
from . import terms as tm
from .lib import MUT, DRAWS, GRAPHS, RXG, METHODS, GMETHODS, iskey, pykey, keyt

EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "AttributeError", "NotImplementedError",
       "ImportError", "ModuleNotFoundError", "FileExistsError", "FileNotFoundError", "OSError", "AssertionError", "StopIteration",
       "ZeroDivisionError", "ArithmeticError", "LookupError", "UserWarning", "ImportWarning", "DeprecationWarning", "Warning",
       "RuntimeWarning", "SystemExit", "PermissionError", "NameError"}


def lib_call(L, f, args, kw):
    it = L.it
    if f.op == "bmx":
        return method(L, f.a[0], f.a[1], args, kw)
    if f.op == "ext":
        return ext_call(L, f.a[0], args, kw)
    if f.op == "partial":
        d = dict(f.a[2])
        d.update(kw)
        return it.call(f.a[0], list(f.a[1]) + list(args), d)
    if f.op in ("nview", "eview"):
        if f.op == "eview":
            nb = kw.get("nbunch", args[0] if args else None)
            if nb is not None and nb not in (NONE, TRUE, FALSE):
                return mk("oedges", f.a[0], nb)
            data = kw.get("data", args[1] if len(args) > 1 else args[0] if args and nb is not NONE else None)
        else:
            data = kw.get("data", args[0] if args else None)
        if data is not None and data is not FALSE:
            return mk("ndata" if f.op == "nview" else "edata", f.a[0])
        return f
    if f.op == "attr":
        # call of an attribute of a symbolic value
        return method(L, f.a[0], f.a[1], args, kw)
    if f.op == "attrgetter":
        return it.getattr(args[0], f.a[0])
    if f.op == "itemgetter":
        if len(f.a) == 1:
            return it.getitem(args[0], f.a[0])
        return mk("tuple", *[it.getitem(args[0], k) for k in f.a])
    if f.op == "ref":
        o = L.obj(f)
        if o is not None and o.cls is not None and o.cls.op == "cls":
            m, _ = it.find_method(o.cls, "__call__")
            if m is not None:
                return it.call_func(m, f, args, kw)
    if f.op == "none" or f is NONE:
        it.emit("none_call")
        return mk("unk", "nonecall")
    rs = [r for r in it.cands.get(f, ()) if r.op in ("fn", "bm", "cls", "ext")]
    if rs:
        outs = []
        for i, r in enumerate(rs):
            c = mk("eq", *sorted((f, r)))
            outs.append((c, r))
        res = None

        def go(i):
            if i == len(outs) - 1:
                return it.call(outs[i][1], list(args), dict(kw))
            return it.branch(outs[i][0], lambda: it.call(outs[i][1], list(args), dict(kw)), lambda: go(i + 1))
        return go(0)
    it.emit("callback", root=f, val=mk("tuple", *args), extra=dict(kw))
    return mk("call", f, *L.vals(args), *[mk("kw", k, L.val(v)) for k, v in sorted(kw.items())])


def generic_ext(L, name, args, kw, emit=True):
    if emit:
        L.it.emit("extcall", name=name, val=mk("tuple", *args), extra=dict(kw))
        d = L.it.stats["external"]
        if not L.it.quiet:
            d[name] = d.get(name, 0) + 1
    return mk("call", Ext(name), *L.vals(args), *[mk("kw", k, L.val(v)) for k, v in sorted(kw.items())])


def arr(L, x):
    """Array value of a list-like."""
    v = L.val(x)
    if v.op in ("tuple", "listv"):
        return mk("vec", *[arr(L, y) if y.op in ("tuple", "listv") else y for y in v.a])
    return v


def mapvec(L, f, v):
    if v.op == "vec":
        return mk("vec", *[mapvec(L, f, x) for x in v.a])
    return f(v)


def callf(L, f, args):
    return L.it.call(f, args, {})


# ------------------------------------------------------------------ builtins
def b_len(L, a, k):
    return L.length(a[0])


def b_range(L, a, k):
    a = L.vals(a)
    if len(a) == 1:
        return mk("range", C(0), a[0], C(1))
    if len(a) == 2:
        return mk("range", a[0], a[1], C(1))
    return mk("range", a[0], a[1], a[2])


def b_list(L, a, k):
    return L.fromiter("list", a[0]) if a else L.mklist([])


def b_set(L, a, k):
    return L.fromiter("set", a[0]) if a else L.mkset([])


def b_frozenset(L, a, k):
    if not a:
        return mk("setv")
    t = L.fromiter("set", a[0])
    return L.val(t)


def b_tuple(L, a, k):
    if not a:
        return mk("tuple")
    items = L.exact_items(a[0])
    if items is not None:
        return mk("tuple", *items)
    if a[0].op in ("elem", "item") or a[0].op == "tupleof":
        return a[0] if a[0].op != "tupleof" else a[0]
    o = L.obj(a[0])
    if o is not None and o.kind == "list" and len(o.segs) >= 1:
        base = [s for s in o.segs if s.kind == "spread"]
        sets = [s for s in o.segs if s.kind == "set"]
        if len(base) == 1 and len(base) + len(sets) == len(o.segs):
            # copy of a point with coordinates replaced
            return mk("tuplew", base[0].val, *[L.segt(s) for s in sets])
        if len(o.segs) == 1 and o.segs[0].kind == "elem" and len(o.segs[0].loops) == 1 and not o.segs[0].guard:
            e = o.segs[0].loops[0].a[0]
            v = L.val(o.segs[0].val)
            if v.op == "call" and v.a[0].op == "ext" and len(v.a) == 2 and v.a[1] is e:
                return mk("rounded", v.a[0], e.a[0])
    return mk("tupleof", L.val(a[0]))


def b_dict(L, a, k):
    d = L.mkdict()
    k = dict(k)
    extra = k.pop("**", None)
    if a:
        x = a[0]
        o = L.obj(x)
        if o is not None and o.kind == "dict":
            L.dict_update(d, x, quiet=True)
        elif o is not None and o.kind in ("list", "set") or x.op in ("zip", "map", "enumerate", "dview", "listof", "filter"):
            for g, l, e in L.iterate(x):
                kk, vv = L.getitem(e, C(0)), L.getitem(e, C(1))
                L.addseg_at(d, "set", kk, vv, g, l)
        else:
            L.dict_update(d, x, quiet=True)
    if extra is not None:
        L.dict_update(d, extra, quiet=True)
    for kk, v in k.items():
        L.dict_set(d, C(kk), v, quiet=True)
    return d


def b_sorted(L, a, k):
    key = k.get("key", NONE)
    rev = k.get("reverse", FALSE)
    x = a[0]
    items = L.exact_items(x)
    if items is not None and all(iskey(i) for i in items) and key is NONE and isc(rev):
        try:
            return L.mklist([keyt(v) for v in sorted([pykey(i) for i in items], reverse=bool(rev.a[0]))])
        except TypeError:
            pass
    o = L.obj(x)
    if items is None and o is not None and key is NONE and isc(rev):
        gs = None
        if o.kind == "dict":
            gs = L.guarded_dict(o)
        elif o.kind in ("list", "set") and all(s.kind == "elem" and not s.loops and iskey(s.val) for s in o.segs) and not o.summary:
            gs = [(pykey(s.val), and_(*s.guard) if s.guard else TRUE, None) for s in o.segs]
        if gs is not None:
            try:
                gs.sort(key=lambda z: z[0], reverse=bool(rev.a[0]))
                t = L.mklist([])
                for y, c, _ in gs:
                    L.addseg_at(t, "elem", None, keyt(y), (c,) if c is not TRUE else (), ())
                return t
            except TypeError:
                pass
    return L.fromiter("list", x, order=mkorder(L, key, rev, o.meta.get("order") if o is not None and o.kind == "list" else None))


def mkorder(L, key, rev, prev=None):
    """How a list is ordered: (key function, reversed, the key of a generic element, order before)."""
    it = L.it
    kt = NONE
    if key is not NONE:
        x = S("?sortkey")
        st = it.st
        it.st = st.fork()
        it.quiet += 1
        try:
            kt = L.val(it.call(key, [x], {}))
        finally:
            it.quiet -= 1
            it.st = st
    return mk("order", key, rev, kt, prev if prev is not None else NONE)


def b_minmax(which):
    def f(L, a, k):
        if len(a) == 1 and a[0].op == "star":
            a = [a[0].a[0]]
        if len(a) == 1:
            items = L.exact_items(a[0])
            if items is None or not items:
                v = L.val(a[0])
                if k.get("default") is not None:
                    return mk(which + "of", v, k["default"])
                return mk(which + "of", v)
            a = items
        if "key" in k:
            t = mk(which + "key", k["key"], *L.vals(a))
            L.addcands(t, list(a))
            return t
        vs = L.vals(a)
        nums = [num(v) for v in vs]
        if all(n is not None for n in nums):
            return C(min(nums) if which == "min" else max(nums))
        flat = []
        for v in vs:
            flat += list(v.a) if v.op == which else [v]
        flat = sorted(set(flat))
        return flat[0] if len(flat) == 1 else mk(which, *flat)
    return f


def b_sum(L, a, k):
    start = k.get("start", a[1] if len(a) > 1 else C(0))
    if L.kind(start) == "list":
        l = L.fromiter("list", start)
        for g, lo, e in L.iterate(a[0]):
            if not lo and not g:
                L.list_extend(l, e, quiet=True)
            else:
                L.addseg_at(l, "spread", None, L.itval(e), g, lo)
        return l
    return add(start, L.sum(a[0]))


def b_anyall(which):
    def f(L, a, k):
        items = L.exact_items(a[0])
        if items is not None:
            cs = [L.truth(x) for x in items]
            return (or_(*cs) if cs else FALSE) if which == "any" else (and_(*cs) if cs else TRUE)
        o = L.obj(a[0])
        if (o is not None and o.kind in ("list", "set")) or a[0].op in ("map", "filter", "dview"):
            cs = []
            for g, l, e in L.iterate(a[0]):
                c = L.truth(e)
                if which == "all":
                    c = not_(c)
                c = and_(*g, c)
                cs.append(mk("anyiter", mk("lk", l, ()), c) if l and c is not FALSE else c)
            r = or_(*cs) if cs else FALSE
            return r if which == "any" else not_(r)
        return mk("truth", mk("call", Ext("builtins." + which), L.val(a[0])))
    return f


def b_int(L, a, k):
    if not a:
        return C(0)
    v = L.val(a[0])
    if isc(v):
        try:
            return C(int(v.a[0]))
        except Exception:
            return mk("int", v)
    if isbool(v):
        return ite(v, C(1), C(0))
    if v.op == "ite":
        return ite(v.a[0], b_int(L, [v.a[1]], {}), b_int(L, [v.a[2]], {}))
    if v.op in ("len", "idx", "mod", "int", "npsum", "sum", "xorsum") or (v.op == "s" and v.a[1] == "int"):
        return v if v.op != "npsum" else mk("int", v)
    if v.op == "poly":
        # int(n/2) for integer n
        p = tm._topoly(v)
        from fractions import Fraction
        if len(p) == 1:
            (m, c), = p.items()
            if isinstance(c, Fraction) and c.numerator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("len", "idx", "sum"):
                return floordiv(m[0][0], C(c.denominator))
    return mk("int", v)


def b_bool(L, a, k):
    return L.truth(a[0]) if a else FALSE


def b_float(L, a, k):
    v = L.val(a[0])
    n = num(v)
    if n is not None:
        return C(float(n))
    return mk("float", v)


def b_abs(L, a, k):
    v = L.val(a[0])
    n = num(v)
    return C(abs(n)) if n is not None else mk("abs", v)


def b_round(L, a, k):
    v = L.val(a[0])
    n = num(v)
    if n is not None and len(a) == 1:
        return C(round(n))
    return mk("call", Ext("builtins.round"), *L.vals(a), *[mk("kw", q, x) for q, x in k.items()])


def b_isinstance(L, a, k):
    x, c = a[0], a[1]
    cs = L.exact_items(c) if c.op == "tuple" else [c]
    if c.op == "call" and c.a[0] is Ext("typing.Union"):
        cs = list(c.a[1:])
    rs = [isin1(L, x, ci) for ci in (cs or [c])]
    return or_(*rs)


TYPES = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.tuple": tuple}


def isin1(L, x, c):
    it = L.it
    x = it.simp(x)
    if x.op == "ite":
        return ite(x.a[0], isin1(L, x.a[1], c), isin1(L, x.a[2], c))
    name = c.a[0] if c.op == "ext" else None
    if c.op == "cls":
        ct = L.clsof(x)
        if ct is not None and ct.op == "cls":
            return C(it.isa(ct, it.classes[c.a[0]].name))
        if ct is not None or x.op in ("c", "tuple", "fn", "poly", "cls", "range"):
            return FALSE
        rs = it.resolve(x)
        if rs:
            oks = {it.isa(L.clsof(r), it.classes[c.a[0]].name) for r in rs if L.clsof(r) is not None and L.clsof(r).op == "cls"}
        return mk("isinstance", x, c)
    if name in TYPES:
        if isc(x):
            return C(isinstance(x.a[0], TYPES[name]))
        if x.op == "tuple":
            return C(name == "builtins.tuple")
        if x.op == "ref" or x.op in ("fn", "cls", "vec"):
            return FALSE
        if x.op == "s" and x.a[1] in ("int", "num", "str", "bool"):
            k = {"int": ("builtins.int",), "num": ("builtins.float",), "str": ("builtins.str",), "bool": ("builtins.bool", "builtins.int")}[x.a[1]]
            return C(name in k)
        if L.clsof(x) is not None:
            return FALSE
        if x.op == "poly":
            return C(name == "builtins.int") if name != "builtins.float" else mk("isinstance", x, c)
        return mk("isinstance", x, c)
    o = L.obj(x)
    if name in ("builtins.list", "builtins.dict", "builtins.set"):
        if o is not None:
            return C(o.kind == name.split(".")[1])
        if isc(x) or x.op in ("tuple", "vec", "poly", "fn", "cls"):
            return FALSE
        if x.op == "s" and x.a[1] in ("int", "num", "str", "bool"):
            return FALSE
        if L.clsof(x) is not None:
            return FALSE
        return mk("isinstance", x, c)
    if name == "numpy.ndarray":
        if o is not None:
            return C(o.kind == "nd")
        if isc(x) or x.op == "tuple":
            return FALSE
        if x.op in ("vec", "nxarr"):
            return TRUE
        if x.op == "sparse":
            return FALSE
        if L.clsof(x) is not None or (x.op == "s" and x.a[1] in ("int", "num", "str", "bool")):
            return FALSE
        if x.op == "call" and x.a[0].op == "ext":
            n = x.a[0].a[0]
            if n.startswith("scipy.sparse") or n.endswith("to_scipy_sparse_array"):
                return FALSE
            if n.endswith("to_numpy_array"):
                return TRUE
        return mk("isinstance", x, c)
    ct = L.clsof(x)
    if ct is not None and name is not None:
        if ct.op == "cls":
            if it.isa(ct, name):
                return TRUE
            if name in GRAPHS:
                return C(L.isgraph(x))
            return FALSE
        return C(ct.a[0] == name)
    if isc(x) and name is not None and name.split(".")[-1] in ("Integral", "integer", "Number", "Real"):
        return C(isinstance(x.a[0], int) and not isinstance(x.a[0], bool) and name != "numpy.integer" or (
            isinstance(x.a[0], (int, float)) and name.endswith(("Number", "Real"))))
    if name in ("typing.Iterable", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Sequence"):
        if x.op in ("tuple",) or (o is not None and o.kind in ("list", "set", "dict")):
            return TRUE
        if num(x) is not None or (x.op == "s" and x.a[1] in ("int", "num")):
            return FALSE
    return mk("isinstance", x, c)


def b_hasattr(L, a, k):
    x, n = a
    o = L.obj(x)
    if isc(n) and o is not None and o.kind == "inst" and o.cls.op == "cls":
        if n.a[0] in o.fields and o.fields[n.a[0]] is not UNDEF:
            v = o.fields[n.a[0]]
            if not (isinstance(v, T) and contains(v, lambda y: y is UNDEF)):
                return TRUE
        elif L.it.find_method(o.cls, n.a[0])[0] is not None:
            return TRUE
        elif not L.isgraph(x):
            return FALSE
    return mk("hasattr", x, n)


def b_getattr(L, a, k):
    n = L.it.simp(a[1])
    if isc(n) and isinstance(n.a[0], str):
        if len(a) > 2:
            h = b_hasattr(L, a[:2], {})
            if h is FALSE:
                return a[2]
            if h is not TRUE:
                return ite(h, L.it.getattr(a[0], n.a[0]), a[2])
        return L.it.getattr(a[0], n.a[0])
    if n.op == "ite":
        return ite(n.a[0], b_getattr(L, [a[0], n.a[1]] + a[2:], k), b_getattr(L, [a[0], n.a[2]] + a[2:], k))
    return mk("dynattr", a[0], n)


def b_setattr(L, a, k):
    n = L.it.simp(a[1])
    if isc(n) and isinstance(n.a[0], str):
        L.it.setattr(a[0], n.a[0], a[2])
    elif n.op == "ite":
        L.it.branch(n.a[0], lambda: b_setattr(L, [a[0], n.a[1], a[2]], k), lambda: b_setattr(L, [a[0], n.a[2], a[2]], k))
    else:
        L.it.emit("write_attr", root=a[0], name=None, key=n, val=a[2])
    return NONE


def b_zip(L, a, k):
    return mk("zip", *a)


def b_enumerate(L, a, k):
    return mk("enumerate", a[0], k.get("start", a[1] if len(a) > 1 else C(0)))


def b_map(L, a, k):
    if len(a) > 2:
        items = [L.exact_items(x) for x in a[1:]]
        if all(i is not None for i in items):
            return L.mklist([callf(L, a[0], list(xs)) for xs in zip(*items)])
        return mk("map", a[0], mk("zip", *a[1:]))
    items = L.exact_items(a[1])
    if items is not None:
        return L.mklist([callf(L, a[0], [x]) for x in items])
    # evaluate eagerly into a list
    out = L.mklist([])
    it = L.it
    for g, l, e in L.iterate(a[1]):
        sg, sl = it.st.guard, it.st.loops
        it.st.guard, it.st.loops = sg + g, sl + l
        r = callf(L, a[0], [e])
        L.list_append(out, r, quiet=True)
        it.st.guard, it.st.loops = sg, sl
    return out


def n_alongaxis(L, a, k):
    """apply_along_axis over the rows of a matrix."""
    if len(a) != 3 or k or a[1] not in (C(1), C(-1)):
        L.it.emit("callback", root=a[0], val=mk("tuple", *a[1:]), extra={})
        return mk("call", Ext("numpy.apply_along_axis"), *[L.val(x) for x in a], *[mk("kw", n, L.val(v)) for n, v in k.items()])
    return n_array(L, [b_map(L, [a[0], L.val(a[2])], {})], {})


def b_filter(L, a, k):
    items = L.exact_items(a[1])
    out = L.mklist([])
    it = L.it
    if items is not None:
        alts = [((), (), x) for x in items]
    else:
        alts = L.iterate(a[1])
    for g, l, e in alts:
        sg, sl = it.st.guard, it.st.loops
        it.st.guard, it.st.loops = sg + g, sl + l
        c = it.truth(callf(L, a[0], [e])) if a[0] is not NONE else it.truth(e)
        if c is not FALSE:
            it.st.guard = it.st.guard + ((c,) if c is not TRUE else ())
            L.list_append(out, e, quiet=True)
        it.st.guard, it.st.loops = sg, sl
    return out


def b_next(L, a, k):
    items = L.exact_items(a[0])
    if items:
        return items[0]
    t = mk("next", L.itval(a[0]), *a[1:])
    cs = []
    for g, l, e in L.iterate(a[0]):
        cs.append(e)
    L.addcands(t, cs + list(a[1:]))
    return t


def b_iter(L, a, k):
    return a[0]


def b_reversed(L, a, k):
    items = L.exact_items(a[0])
    if items is not None:
        return L.mklist(items[::-1])
    return mk("reversed", a[0])


def b_type(L, a, k):
    c = L.clsof(a[0])
    if c is not None:
        return c
    x = a[0]
    if isc(x):
        return Ext("builtins." + type(x.a[0]).__name__)
    if x.op == "tuple":
        return Ext("builtins.tuple")
    o = L.obj(x)
    if o is not None and o.kind in ("list", "dict", "set"):
        return Ext("builtins." + o.kind)
    if o is not None and o.kind == "nd":
        return Ext("numpy.ndarray")
    if x.op == "s" and x.a[1] in ("int", "str", "bool"):
        return Ext("builtins." + x.a[1])
    return mk("type", x)


def b_print(L, a, k):
    L.it.emit("print", val=mk("tuple", *a))
    return NONE


def b_str(L, a, k):
    if not a:
        return C("")
    return L.fmt(a[0], None, -1)


def b_vars(L, a, k):
    return mk("attr", a[0], "__dict__")


def b_open(L, a, k):
    it = L.it
    t = it.new("file")
    mode = k.get("mode", a[1] if len(a) > 1 else C("r"))
    it.emit("open", root=t, name=mode.a[0] if isc(mode) else None, key=L.val(a[0]), val=mode, extra=dict(k))
    return t


def b_callable(L, a, k):
    if a[0].op in ("fn", "bm", "cls", "ext"):
        return TRUE
    if a[0] is NONE or isc(a[0]):
        return FALSE
    return mk("truth", mk("callable", a[0]))


def b_divmod(L, a, k):
    x, y = L.vals(a)
    return mk("tuple", floordiv(x, y), mod(x, y))


def b_pow(L, a, k):
    return L.binop("Pow", a[0], a[1])


# ------------------------------------------------------------------- numpy
def n_array(L, a, k):
    v = arr(L, a[0])
    if a[0].op == "range" or v.op in ("vec",):
        return L.mknd(v)
    if v.op in ("nd", "ndw", "arange", "call", "item", "matmul", "s", "attr", "listof", "collv", "tupleof", "setof", "sorted", "ite", "elem", "tuplew"):
        return L.mknd(mk("array", v) if v.op in ("collv", "sorted") else (v.a[0] if v.op == "listof" else v))
    return L.mknd(mk("array", v))


def n_asarray(L, a, k):
    if L.kind(a[0]) == "nd" or a[0].op == "vec":
        return a[0]
    if a[0].op in ("s", "attr", "item", "call", "elem", "tupleof"):
        return a[0]
    return n_array(L, a, k)


def isbooltype(d):
    return d is not None and (d.op == "ext" and d.a[0] in ("builtins.bool", "numpy.bool_", "numpy.bool") or isc(d) and d.a[0] in ("bool", "?"))


def n_fill(val):
    def f(L, a, k):
        sh = L.val(a[0] if a else k.get("shape"))
        v = C(bool(val.a[0])) if isc(val) and isbooltype(a[1] if len(a) > 1 else k.get("dtype")) else val
        return L.mknd(mk("nd", v, sh))
    return f


def n_full(L, a, k):
    sh = L.val(a[0])
    v = L.val(a[1] if len(a) > 1 else k.get("fill_value"))
    if isc(v) and isbooltype(a[2] if len(a) > 2 else k.get("dtype")):
        v = C(bool(v.a[0]))
    return L.mknd(mk("nd", v, sh))


def n_like(val):
    def f(L, a, k):
        return L.mknd(mk("nd", val if val is not None else L.val(a[1]), L.shape(L.val(a[0]))))
    return f


def n_arange(L, a, k):
    r = b_range(L, a, k)
    items = L.exact_items(r)
    if items is not None and len(items) <= 8:
        return L.mknd(mk("vec", *items))
    return L.mknd(mk("arange", *r.a))


def n_sqrt(L, a, k):
    return mapvec(L, lambda x: mk("sqrt", x), L.val(a[0]))


def n_unary(name):
    def f(L, a, k):
        return mapvec(L, lambda x: mk("call", Ext("numpy." + name), x), L.val(a[0]))
    return f


def n_where(L, a, k):
    c = L.val(a[0])
    if len(a) == 3:
        x, y = L.val(a[1]), L.val(a[2])
        if c.op == "vec" and all(isbool(z) for z in c.a):
            return mk("vec", *[ite(z, L.getitem_q(x, C(i)) if x.op == "vec" else x, L.getitem_q(y, C(i)) if y.op == "vec" else y) for i, z in enumerate(c.a)])
        return mk("call", Ext("numpy.where"), c, x, y)
    return nonzero(L, c)


def nonzero(L, c):
    if c.op == "vec":
        bs = [L.truth(z) for z in c.a]
        if all(isc(b) for b in bs):
            return mk("tuple", mk("vec", *[C(i) for i, b in enumerate(bs) if b is TRUE]))
        # index set with conditions
        t = L.it.new("list")
        from .interp import Seg
        o = L.it.wobj(t)
        for i, b in enumerate(bs):
            if b is FALSE:
                continue
            o.segs = o.segs + (Seg("elem", (b,) if b is not TRUE else (), (), None, C(i), L.it.epoch, L.it.site()),)
        return mk("tuple", t)
    return mk("tuple", mk("nonzero", c))


def n_nonzero(L, a, k):
    return nonzero(L, L.val(a[0]))


def n_flatnonzero(L, a, k):
    return nonzero(L, L.val(a[0])).a[0]


def n_size(L, a, k):
    v = L.val(a[0])
    items = L.exact_items(a[0])
    if items is not None:
        return C(len(items))
    if num(v) is not None or (v.op == "s" and v.a[1] in ("int", "num")):
        return C(1)
    return mk("size", v)


def n_sum(L, a, k):
    v = L.val(a[0])
    if "axis" in k or len(a) > 1:
        return mk("call", Ext("numpy.sum"), v, *L.vals(a[1:]), *[mk("kw", q, x) for q, x in sorted(k.items())])
    if num(v) is not None:
        return v
    if v.op == "poly":
        return mk("npsum", v)
    return L.sum(a[0])


def n_all(which):
    def f(L, a, k):
        return b_anyall(which)(L, a, {})
    return f


def n_dot(L, a, k):
    return L.binop("MatMult", a[0], a[1])


def n_op(op):
    def f(L, a, k):
        if op in L.CMP or op in ("Gt", "GtE", "NotEq"):
            return L.cmp(op, a[0], a[1])
        return L.binop(op, a[0], a[1])
    return f


def n_argmin(which):
    def f(L, a, k):
        items = L.exact_items(a[0])
        v = L.val(a[0])
        if items is not None and len(items) == 2 and not k:
            x, y = L.vals(items)
            return ite(le(x, y), C(0), C(1)) if which == "min" else ite(le(y, x), C(0), C(1))
        return mk("arg" + which, v)
    return f


def n_hstack(L, a, k):
    items = L.exact_items(a[0])
    if items is None or k:
        return mk("call", Ext("numpy.hstack"), L.val(a[0]), *[mk("kw", n, L.val(v)) for n, v in k.items()])
    items = [L.val(x) for x in items]
    if all(v.op in ("vec", "listv") and all(x.op not in ("vec", "listv", "tuple") for x in v.a) or v.op == "nd" and v.a[1].op != "tuple" for v in items):
        return n_concat(L, a, {})
    return mk("hconcat", *items)


def n_concat(L, a, k):
    ax = L.val(a[1]) if len(a) > 1 else L.val(k["axis"]) if "axis" in k else C(0)
    if ax is not C(0) or set(k) - {"axis"}:
        return n_hstack(L, a, {}) if ax is C(1) and not set(k) - {"axis"} else \
            mk("call", Ext("numpy.concatenate"), *[L.val(x) for x in a], *[mk("kw", n, L.val(v)) for n, v in k.items()])
    items = L.exact_items(a[0])
    if items is not None:
        parts = []
        for x in items:
            v = L.val(x)
            parts += list(v.a) if v.op == "concat" else [v]
        parts = [p for p in parts if not (p.op == "nd" and p.a[1] is C(0)) and not (p.op in ("vec", "listv") and not p.a)]
        if len(parts) == 1:
            return parts[0]
        if not parts:
            return L.val(items[0])
        return mk("concat", *parts)
    return mk("call", Ext("numpy.concatenate"), L.val(a[0]))


def n_isin(L, a, k):
    v, s = L.val(a[0]), L.val(a[1])
    return mk("eltcmp", "in", v, s)


def n_copy(L, a, k):
    return L.mknd(L.val(a[0]))


def n_issubdtype(L, a, k):
    t = a[0]
    if t.op == "ext" and a[1].op == "ext" and a[1].a[0] == "numpy.integer":
        if t.a[0] in ("builtins.int",):
            return TRUE
        if t.a[0].startswith("builtins."):
            return FALSE
    return mk("truth", mk("call", Ext("numpy.issubdtype"), *L.vals(a)))


def n_default_rng(L, a, k):
    it = L.it
    s = L.val(a[0]) if a else L.val(k.get("seed", NONE))
    if getattr(it, "modloading", 0):
        t = mk("newrng", s, C("module:%s:%s" % (it.frames[-1].module, it.nid)))
        it.nid += 1
    else:
        it.nrng = getattr(it, "nrng", 0) + 1
        t = mk("newrng", s, C("run:%d" % it.nrng))
    it.emit("newrng", root=t, val=s)
    return t


def n_array_equal(L, a, k):
    return L.cmp("Eq", *[mk("frozen", x) for x in L.vals(a[:2])]) if False else mk("truth", mk("call", Ext("numpy.array_equal"), *L.vals(a)))


# -------------------------------------------------------- itertools & misc
def i_product(L, a, k):
    if "repeat" in k and num(k["repeat"]) is not None:
        a = list(a) * num(k["repeat"])
    return mk("product", *a)


def i_combinations(L, a, k):
    return mk("combinations", a[0], a[1])


def i_chain(L, a, k):
    return mk("chain", *a)


def i_chain_from(L, a, k):
    l = L.mklist([])
    for g, lo, e in L.iterate(a[0]):
        items = L.exact_items(e)
        if items is not None:
            for x in items:
                L.addseg_at(l, "elem", None, x, g, lo)
        else:
            L.addseg_at(l, "spread", None, L.itval(e), g, lo)
    return l


def f_partial(L, a, k):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))


def f_reduce(L, a, k):
    init = a[2] if len(a) > 2 else None
    items = L.exact_items(a[1])
    if items is not None:
        if init is None:
            init, items = items[0], items[1:]
        for x in items:
            init = callf(L, a[0], [init, x])
        return init
    it = L.it
    if init is None:
        init = C(0) if a[0].op == "ext" and a[0].a[0] in ("operator.xor", "operator.add") else None
        if init is None:
            return mk("reduce", a[0], L.val(a[1]))
    r = init
    for g, l, e in L.iterate(a[1]):
        lk = mk("lk", l, tuple(g))
        ph = mk("phi", lk, "reduce")
        upd = callf(L, a[0], [ph, e])
        r = it.lout(lk, r, ph, upd) if l else callf(L, a[0], [r, e])
    return r


def op2(op):
    def f(L, a, k):
        if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            return L.cmp(op, a[0], a[1])
        return L.binop(op, a[0], a[1])
    return f


def c_copy(L, a, k):
    x = a[0]
    o = L.obj(x)
    if o is None:
        if x.op in ("c", "tuple", "fn", "cls"):
            return x
        if L.isgraph(x):
            return method(L, x, "copy", [], {})
        return mk("copied", x)
    t = L.it.new(o.kind, o.cls)
    n = L.it.wobj(t)
    n.segs, n.fields, n.meta = o.segs, dict(o.fields), dict(o.meta)
    return t


def c_deepcopy(L, a, k):
    return c_copy(L, a, k)


def d_field(L, a, k):
    return mk("dcfield", k.get("default", NONE), k.get("default_factory", NONE))


def c_defaultdict(L, a, k):
    d = L.mkdict()
    o = L.it.wobj(d)
    o.meta = {**o.meta, "default": a[0] if a else None}
    return d


def c_counter(L, a, k):
    return mk("counter", L.val(a[0])) if a else L.mkdict()


def c_deque(L, a, k):
    return b_list(L, a, k)


def csv_writer(L, a, k):
    t = L.it.new("csvw")
    o = L.it.wobj(t)
    o.meta = {"file": a[0], "kw": dict(k)}
    return t


def nx_graph(L, a, k):
    t = L.it.new("inst", Ext("networkx.Graph"))
    L.graph_init(t, a, k)
    return t


def rx_graph(L, a, k):
    t = L.it.new("rxg")
    o = L.it.wobj(t)
    o.fields["nodes"] = ()
    o.fields["edges"] = ()
    m = a[0] if a else k.get("multigraph", TRUE)
    if isc(m) and not m.a[0]:
        o.meta["simple"] = True
    return t


GROW = {"add_path": "v = list(v)\n    for a, b in zip(v[:-1], v[1:]):\n        G.add_edge(a, b, **k)\n    G.add_nodes_from(v[:1])",
        "add_cycle": "v = list(v)\n    for i in range(len(v)):\n        G.add_edge(v[i], v[(i + 1) % len(v)], **k)",
        "add_star": "v = list(v)\n    G.add_nodes_from(v[:1])\n    for b in v[1:]:\n        G.add_edge(v[0], b, **k)"}


def nx_grow(name):
    """A function that adds edges to its argument."""
    def run(L, a, k):
        if L.isgraph(a[0]) and len(a) == 2:
            from .scen import snippet
            return snippet(L.it, "def f(G, v, **k):\n    %s\n" % GROW[name], a[0], a[1])
        return generic_ext(L, "networkx." + name, a, k)
    return run


def nx_set_attr(typ):
    def f(L, a, k):
        G, vals = a[0], a[1]
        name = a[2] if len(a) > 2 else k.get("name", NONE)
        it = L.it
        it.emit("mutcall", root=G, name="set_%s_attributes" % typ, val=vals)
        if isc(name) and name is not NONE:
            o = L.obj(vals)
            if o is not None and o.kind == "dict":
                for g, l, e in L.iter_dict(vals, "items"):
                    kk, vv = e.a
                    sg, sl = it.st.guard, it.st.loops
                    it.st.guard, it.st.loops = sg + g, sl + l
                    L.setitem(mk("nattr" if typ == "node" else "eattr", G, kk), name, vv)
                    it.st.guard, it.st.loops = sg, sl
            else:
                G0 = mk("nview", L.gnow(G))
                g, l, e = L.generic(G0)[0]
                sg, sl = it.st.guard, it.st.loops
                it.st.guard, it.st.loops = sg + g, sl + l
                L.setitem(mk("nattr", G, e), name, vals)
                it.st.guard, it.st.loops = sg, sl
        return NONE
    return f


def nx_get_attr(typ):
    def f(L, a, k):
        G, name = a[0], a[1]
        d = L.mkdict()
        g, l, e = L.generic(mk("nview" if typ == "node" else "eview", L.gnow(G)))[0]
        it = L.it
        sl = it.st.loops
        it.st.loops = sl + l
        v = L.gload(mk("nattr" if typ == "node" else "eattr", G, e), name) if isc(name) else mk("unk", "nxattr")
        L.dict_set(d, e, v, quiet=True)
        it.st.loops = sl
        return d
    return f


def gver(L, G):
    """Fingerprint of the structure of a graph at the time of a call (later structural changes void the evaluation)."""
    o = L.obj(L.groot(G))
    if o is None:
        return NONE
    if L.it.gversions:
        return mk("gver", L.gnow(L.groot(G)))
    return mk("gver", *[C(len(o.fields.get(f) or ())) for f in ("addn", "adde", "rm", "nodes", "edges")])


def argof(a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def nx_dijkstra(what):
    """networkx single source shortest paths with the weight of an edge as a term over the edge {?sp_u, ?sp_v}."""
    def f(L, a, k):
        G, src = argof(a, k, 0, "G"), argof(a, k, 1, "source")
        if len(a) > 2 or set(k) - {"G", "source", "weight"}:
            raise KeyError
        w = k.get("weight", C("weight"))
        u, v = S("?sp_u"), S("?sp_v")
        view = L.eattr(G, u, v)
        if w.op == "c" and isinstance(w.a[0], str):
            W = L.gload(view, w, lambda: C(1))
        elif w is NONE:
            W = C(1)
        elif w.op in ("fn", "bm", "bmx", "partial"):
            W = L.it.call(w, [u, v, view], {})
        else:
            raise KeyError
        t = mk("spaths", G, L.val(src), L.val(W), gver(L, G))
        return {"both": mk("tuple", mk("splen", t), mk("spnodes", t)), "len": mk("splen", t), "nodes": mk("spnodes", t)}[what]
    return f


def rx_dijkstra(what):
    def f(L, a, k):
        G, src = argof(a, k, 0, "graph"), argof(a, k, 1, "source", k.get("node"))
        w = k.get("weight_fn", k.get("edge_cost_fn", a[2] if what == "len" and len(a) > 2 else NONE))
        if set(k) - {"graph", "source", "node", "weight_fn", "edge_cost_fn", "default_weight"} or len(a) > (3 if what == "len" else 2):
            raise KeyError
        e = mk("rxedata", G, mk("tuple", *sorted((S("?sp_u"), S("?sp_v")))))
        W = L.it.call(w, [e], {}) if w is not NONE else k.get("default_weight", C(1.0))
        t = mk("rxsp", G, L.val(src), L.val(W), gver(L, G))
        return mk("splen" if what == "len" else "spnodes", t)
    return f


def edgeweight(L, G, w):
    """Weight of the generic edge {?sp_u, ?sp_v} of a networkx graph under an attribute name."""
    if w is NONE:
        return C(1)
    if w.op != "c" or not isinstance(w.a[0], str):
        raise KeyError
    return L.val(L.gload(L.eattr(G, S("?sp_u"), S("?sp_v")), w, lambda: C(1)))


def nx_matching(sign):
    """networkx.max_weight_matching / min_weight_matching."""
    def f(L, a, k):
        names = ("G", "maxcardinality", "weight") if sign > 0 else ("G", "weight")
        if len(a) > len(names) or set(k) - set(names):
            raise KeyError
        d = dict(zip(names, a))
        d.update(k)
        G, w = d["G"], d.get("weight", C("weight"))
        card = d.get("maxcardinality", C(False)) if sign > 0 else C(True)
        return mk("matching", "nx", sign, G, L.val(card), edgeweight(L, G, w), gver(L, G))
    return f


def rx_matching(L, a, k):
    names = ("graph", "max_cardinality", "weight_fn", "default_weight", "verify_optimum")
    if len(a) > len(names) or set(k) - set(names):
        raise KeyError
    d = dict(zip(names, a))
    d.update(k)
    G, w = d["graph"], d.get("weight_fn", NONE)
    e = mk("rxedata", G, mk("tuple", *sorted((S("?sp_u"), S("?sp_v")))))
    W = L.it.call(w, [e], {}) if w is not NONE else d.get("default_weight", C(1))
    return mk("matching", "rx", 1, G, L.val(d.get("max_cardinality", C(False))), L.val(W), gver(L, G))


def nx_toarray(L, a, k):
    if len(a) > 2 or set(k) - {"G", "nodelist", "weight", "nonedge", "dtype"}:
        raise KeyError
    G = argof(a, k, 0, "G")
    nl = argof(a, k, 1, "nodelist", NONE)
    return mk("nxarr", G, L.val(nl), edgeweight(L, G, k.get("weight", C("weight"))), L.val(k.get("nonedge", C(0))), gver(L, G))


def nx_tosparse(L, a, k):
    if len(a) > 2 or set(k) - {"G", "nodelist", "weight", "dtype", "format"}:
        raise KeyError
    return mk("sparse", nx_toarray(L, a, {x: v for x, v in k.items() if x != "format"}))


def lemon_mwpm(L, a, k):
    if len(a) != 1 or k:
        raise KeyError
    return mk("lemonmwpm", L.val(a[0]))


TABLE = {
    **{"networkx." + p + n: f for p in ("", "algorithms.", "algorithms.matching.")
       for n, f in (("max_weight_matching", nx_matching(1)), ("min_weight_matching", nx_matching(-1)))},
    "rustworkx.max_weight_matching": rx_matching, "networkx.to_numpy_array": nx_toarray, "networkx.to_scipy_sparse_array": nx_tosparse, "flamingpy.cpp.lemonpy.mwpm": lemon_mwpm,
    "builtins.len": b_len, "builtins.range": b_range, "builtins.list": b_list, "builtins.set": b_set, "builtins.frozenset": b_frozenset,
    "builtins.tuple": b_tuple, "builtins.dict": b_dict, "builtins.sorted": b_sorted, "builtins.min": b_minmax("min"),
    "builtins.max": b_minmax("max"), "builtins.sum": b_sum, "builtins.any": b_anyall("any"), "builtins.all": b_anyall("all"),
    "builtins.int": b_int, "builtins.bool": b_bool, "builtins.float": b_float, "builtins.abs": b_abs, "builtins.round": b_round,
    "builtins.isinstance": b_isinstance, "builtins.hasattr": b_hasattr, "builtins.getattr": b_getattr, "builtins.setattr": b_setattr,
    "builtins.zip": b_zip, "builtins.enumerate": b_enumerate, "builtins.map": b_map, "builtins.filter": b_filter,
    "builtins.next": b_next, "builtins.iter": b_iter, "builtins.reversed": b_reversed, "builtins.type": b_type, "builtins.print": b_print,
    "builtins.str": b_str, "builtins.vars": b_vars, "builtins.open": b_open, "io.open": b_open, "builtins.callable": b_callable,
    "builtins.divmod": b_divmod, "builtins.pow": b_pow,
    "numpy.array": n_array, "numpy.apply_along_axis": n_alongaxis, "numpy.asarray": n_asarray, "numpy.zeros": n_fill(C(0)), "numpy.ones": n_fill(C(1)),
    "numpy.empty": n_fill(mk("s", "garbage", None)), "numpy.full": n_full, "numpy.zeros_like": n_like(C(0)), "numpy.ones_like": n_like(C(1)),
    "numpy.empty_like": n_like(mk("s", "garbage", None)), "numpy.full_like": n_like(None),
    "numpy.arange": n_arange, "numpy.sqrt": n_sqrt, "math.sqrt": n_sqrt, "numpy.log": n_unary("log"), "math.log": n_unary("log"),
    "numpy.exp": n_unary("exp"), "math.exp": n_unary("exp"), "numpy.floor": n_unary("floor"), "math.floor": n_unary("floor"),
    "numpy.ceil": n_unary("ceil"), "numpy.abs": b_abs, "numpy.where": n_where, "numpy.nonzero": n_nonzero, "numpy.flatnonzero": n_flatnonzero,
    "numpy.size": n_size, "numpy.sum": n_sum, "numpy.all": n_all("all"), "numpy.any": n_all("any"), "numpy.dot": n_dot, "numpy.matmul": n_dot,
    "numpy.argmin": n_argmin("min"), "numpy.argmax": n_argmin("max"), "numpy.concatenate": n_concat, "numpy.hstack": n_hstack,
    "numpy.isin": n_isin, "numpy.in1d": n_isin, "numpy.copy": n_copy, "numpy.issubdtype": n_issubdtype,
    "numpy.add": op2("Add"), "numpy.subtract": op2("Sub"), "numpy.multiply": op2("Mult"), "numpy.divide": op2("Div"), "numpy.mod": op2("Mod"),
    "numpy.remainder": op2("Mod"), "numpy.greater": op2("Gt"), "numpy.less": op2("Lt"), "numpy.equal": op2("Eq"), "numpy.negative": lambda L, a, k: L.unary_neg(a[0]),
    "numpy.greater_equal": op2("GtE"), "numpy.less_equal": op2("LtE"), "numpy.not_equal": op2("NotEq"), "numpy.power": op2("Pow"),
    "numpy.floor_divide": op2("FloorDiv"), "numpy.divmod": b_divmod, "numpy.minimum": lambda L, a, k: b_minmax("min")(L, a[:2], {}),
    "numpy.maximum": lambda L, a, k: b_minmax("max")(L, a[:2], {}), "numpy.bitwise_xor": op2("BitXor"), "numpy.logical_not": lambda L, a, k: L.invert(a[0]),
    "numpy.random.default_rng": n_default_rng,
    "itertools.product": i_product, "itertools.combinations": i_combinations, "itertools.chain": i_chain,
    "itertools.chain.from_iterable": i_chain_from, "functools.partial": f_partial, "functools.reduce": f_reduce,
    "operator.add": op2("Add"), "operator.xor": op2("BitXor"), "operator.mul": op2("Mult"), "operator.sub": op2("Sub"), "operator.eq": op2("Eq"),
    "operator.itemgetter": lambda L, a, k: mk("itemgetter", *a), "operator.attrgetter": lambda L, a, k: mk("attrgetter", a[0].a[0]),
    "copy.copy": c_copy, "copy.deepcopy": c_deepcopy, "dataclasses.field": d_field, "collections.defaultdict": c_defaultdict,
    "collections.deque": c_deque, "csv.writer": csv_writer,
    "networkx.add_path": nx_grow("add_path"), "networkx.add_cycle": nx_grow("add_cycle"), "networkx.add_star": nx_grow("add_star"),
    "networkx.set_node_attributes": nx_set_attr("node"), "networkx.set_edge_attributes": nx_set_attr("edge"),
    "networkx.get_node_attributes": nx_get_attr("node"), "networkx.get_edge_attributes": nx_get_attr("edge"),
    **{"networkx." + p + n: nx_dijkstra(w) for p in ("", "algorithms.shortest_paths.", "algorithms.shortest_paths.weighted.", "algorithms.")
       for n, w in (("single_source_dijkstra", "both"), ("single_source_dijkstra_path_length", "len"), ("single_source_dijkstra_path", "nodes"),
                    ("single_source_bellman_ford", "both"), ("single_source_bellman_ford_path_length", "len"), ("single_source_bellman_ford_path", "nodes"))},
    **{"rustworkx." + n: rx_dijkstra(w) for n, w in (("graph_dijkstra_shortest_paths", "nodes"), ("dijkstra_shortest_paths", "nodes"),
                                                      ("graph_dijkstra_shortest_path_lengths", "len"), ("dijkstra_shortest_path_lengths", "len"))},
    "contextlib.nullcontext": lambda L, a, k: a[0] if a else NONE,
}

SILENT_PREFIX = ("numpy.", "math.", "typing.", "abc.", "operator.", "dataclasses.", "functools.", "builtins.")


def ext_call(L, name, args, kw):
    it = L.it
    short = name.split(".")[-1]
    if name in it.stubs:
        return it.stubs[name](args, kw)
    if name.startswith("builtins.") and short in EXC:
        return mk("excval", short)
    if name in GRAPHS:
        return nx_graph(L, args, kw)
    if name in RXG:
        return rx_graph(L, args, kw)
    f = TABLE.get(name)
    if f is not None and (name in ("builtins.min", "builtins.max", "builtins.print") or not any(a.op == "star" for a in args)):
        try:
            return f(L, list(args), dict(kw))
        except (IndexError, KeyError):
            return generic_ext(L, name, args, kw)
    if name.startswith(("numpy.random.", "random.")) and short in DRAWS | {"seed", "set_state", "seed_all"}:
        return draw(L, Ext(name.rsplit(".", 1)[0]), short, args, kw)
    if name.startswith("numpy.random.") or name in ("random.Random",):
        # constructors of generators
        t = mk("newrng", mk("tuple", *L.vals(args)), C("run:" + short))
        it.emit("newrng", root=t, val=mk("tuple", *L.vals(args)), name=short)
        return t
    if short in EXC:
        return mk("excval", short)
    return generic_ext(L, name, args, kw)


def draw(L, rng, name, args, kw):
    it = L.it
    it.ndraw += 1
    v = mk("tuple", *L.vals(args), *[mk("kw", k, L.val(x)) for k, x in sorted(kw.items())])
    it.emit("draw", root=rng, name=name, val=v)
    return mk("draw", name, rng, v, it.epoch, it.ndraw, *[l.a[0] for l in it.st.loops])


def isrng(t):
    if t.op == "newrng" or (t.op == "s" and t.a[1] == "rng"):
        return True
    if t.op == "ite":
        return isrng(t.a[1]) or isrng(t.a[2])
    return False


# ------------------------------------------------------------------- methods
def method(L, r, name, args, kw):
    it = L.it
    r = it.simp(r)
    if name.startswith("super:"):
        name = name[6:]
        if name == "__init__":
            if L.isgraph(r):
                L.graph_init(r, args, kw)
            return NONE
        if name == "__setattr__" and isc(args[0]):
            L.setattr(r, args[0].a[0], args[1])
            return NONE
        if name == "__iter__" and L.isgraph(r):
            return mk("nview", L.gnow(r))
        if name == "__len__" and L.isgraph(r):
            return mk("len", mk("nview", L.gnow(r)))
    if r.op == "at" and name in MUT:
        x = L.under(L.memberc(r), lambda: method(L, r.a[0], name, args, kw))
        return x if x is NONE else mk("mcall", name, r, *L.vals(args))
    if r.op == "ite":
        return it.branch(r.a[0], lambda: it.call(it.getattr(it.simp(r.a[1]), name), list(args), dict(kw)),
                         lambda: it.call(it.getattr(it.simp(r.a[2]), name), list(args), dict(kw)))
    if isrng(r) and (name in DRAWS):
        return draw(L, r, name, args, kw)
    o = L.obj(r)
    if o is not None:
        m = {"list": m_list, "set": m_set, "dict": m_dict, "nd": m_nd, "rxg": m_rx, "file": m_file, "csvw": m_csv}.get(o.kind)
        if m is not None:
            x = m(L, r, o, name, list(args), dict(kw))
            if x is not None:
                return x
        if o.kind == "rxg":
            return generic_method(L, r, name, args, kw)
    if L.isgraph(r) or (name in ("add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node", "neighbors", "subgraph", "order", "number_of_nodes")
                        and not it.resolve(r)):
        x = m_graph(L, r, name, list(args), dict(kw))
        if x is not None:
            return x
    if r.op in ("nview", "eview"):
        if name == "data":
            a0 = args[0] if args else kw.get("data", TRUE)
            if a0 is TRUE:
                return mk("ndata" if r.op == "nview" else "edata", r.a[0])
            if isc(a0) and isinstance(a0.a[0], str) and r.op == "nview":
                l = L.mklist([])
                g, lo, e = L.generic(mk("nview", r.a[0]))[0]
                v = L.gload(mk("nattr", r.a[0], e), a0, (lambda: kw.get("default", NONE)))
                L.addseg_at(l, "elem", None, mk("tuple", e, v), g, lo)
                return l
            return mk("ndata" if r.op == "nview" else "edata", r.a[0])
        if name == "keys":
            return r
        if name == "items" and r.op == "nview":
            return mk("ndata", r.a[0])
        if name == "get":
            return L.getitem(r, args[0])
    if r.op in ("nattr", "eattr", "rxedata"):
        if name == "get":
            return L.gload(r, args[0], (lambda: args[1] if len(args) > 1 else NONE))
        if name == "update":
            src = args[0] if args else None
            if src is not None:
                ex = L.exact_dict(src)
                if ex is not None:
                    for k, v in ex:
                        L.setitem(r, C(k), v)
                else:
                    it.emit("write_item", root=mk(r.op, L.groot(r.a[0]), r.a[1]), key=mk("s", "*", None), val=src)
            for k, v in kw.items():
                L.setitem(r, C(k), v)
            return NONE
        if name == "pop" and args:
            v = L.gload(r, args[0], (lambda: args[1] if len(args) > 1 else NONE))
            it.emit("mutcall", root=mk(r.op, L.groot(r.a[0]), r.a[1]), name="pop", key=args[0])
            return v
        if name == "setdefault":
            v = L.gload(r, args[0], lambda: args[1] if len(args) > 1 else NONE)
            L.setitem(r, args[0], v)
            return v
        if name in ("clear", "popitem"):
            it.emit("mutcall", root=mk(r.op, L.groot(r.a[0]), r.a[1]), name=name)
            return NONE
        if name in ("copy", "items", "keys", "values"):
            return mk("dview", name, r) if name != "copy" else mk("copied", r)
    if r.op in ("splen", "spnodes") and name == "pop" and args:
        v = L.getitem(r, args[0])
        L.delitem(r, args[0])
        return v
    if r.op == "attr" and r.a[1] == "__dict__" and args and isc(args[0]) and isinstance(args[0].a[0], str) and name in ("get", "setdefault"):
        h, d = b_hasattr(L, [r.a[0], args[0]], {}), args[1] if len(args) > 1 else NONE
        if name == "get":
            return b_getattr(L, [r.a[0], args[0], d], {})
        it.branch(not_(h), lambda: b_setattr(L, [r.a[0], args[0], d], {}), lambda: NONE)
        return b_getattr(L, [r.a[0], args[0]], {})
    if r.op == "c" and isinstance(r.a[0], str) or L.isstr(r):
        x = m_str(L, r, name, list(args), dict(kw))
        if x is not None:
            return x
    if r.op == "adjv" and name == "keys":
        return r
    if r.op == "ext":
        return ext_call(L, r.a[0] + "." + name, args, kw)
    if name == "has_key":
        return L.isin(args[0], r)
    # dispatch on candidate objects
    if r.op != "ref":
        rs = [x for x in it.resolve(r) if L.obj(x) is not None]
        if rs:
            outs = []
            for x in rs:
                xo = L.obj(x)
                if xo.kind in ("list", "set", "dict") and name in MUT:
                    it.emit("mutcall", root=r, name=name, val=mk("tuple", *args))
                    it.quiet += 1
                    try:
                        y = L.under(L.candc(r, x, rs), lambda: method(L, x, name, args, kw))
                    finally:
                        it.quiet -= 1
                    outs.append(y if y is not NONE else NONE)
                elif xo.kind == "inst" and xo.cls.op == "cls" and it.find_method(xo.cls, name)[0] is not None:
                    m, _ = it.find_method(xo.cls, name)
                    outs.append(it.call_func(m, r, list(args), dict(kw)))
                elif xo.kind == "rxg":
                    outs.append(method(L, x, name, args, kw))
            if outs:
                if name in ("get", "pop", "index", "copy") and len(outs) >= 1 and not all(isc(o2) for o2 in outs):
                    t = mk("mcall", name, r, *L.vals(args))
                    L.addcands(t, outs)
                    return t
                return outs[0] if len(set(outs)) == 1 else any_(outs)
    v = L.val(r)
    x = m_value(L, v, name, list(args), dict(kw), r)
    if x is not None:
        return x
    return generic_method(L, r, name, args, kw)


def generic_method(L, r, name, args, kw):
    it = L.it
    if name in MUT:
        it.emit("mutcall", root=r, name=name, val=mk("tuple", *args), extra=dict(kw))
        if r.op != "ref":
            L.addover((r, "seq"), name, None, mk("tuple", *L.vals(args)))
        if name in ("pop", "popitem", "setdefault"):
            t = mk("mcall", name, r, *L.vals(args))
            return t
        return NONE
    if name in DRAWS and not it.resolve(r) and r.op in ("s", "attr", "item", "newrng", "draw", "call", "get", "phi", "lout"):
        return draw(L, r, name, args, kw)
    if (r, name) in it.mhooks:
        return it.mhooks[r, name](args, kw)
    it.emit("mcall", root=r, name=name, val=mk("tuple", *args), extra=dict(kw))
    return mk("mcall", name, r if r.op == "ref" else L.val(r), *L.vals(args), *[mk("kw", k, L.val(v)) for k, v in sorted(kw.items())])


def m_str(L, r, name, a, k):
    if isc(r):
        s = r.a[0]
        if all(isc(x) for x in a) and not k:
            try:
                if name in ("lower", "upper", "capitalize", "strip", "startswith", "endswith", "replace", "title", "index", "find", "count", "lstrip", "rstrip"):
                    return C(getattr(s, name)(*[x.a[0] for x in a]))
                if name == "split":
                    return L.mklist([C(x) for x in s.split(*[x.a[0] for x in a])])
            except Exception:
                return mk("unk", "str")
        if name in ("startswith", "endswith") and a and a[0].op == "tuple" and all(isc(x) for x in a[0].a):
            return C(getattr(s, name)(tuple(x.a[0] for x in a[0].a)))
        if name == "join":
            items = L.exact_items(a[0])
            if items is not None:
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(r)
                    out.append(x)
                return cat(*out) if out else C("")
            return mk("join", r, L.val(a[0]))
        if name == "format":
            if not k and s.count("{}") == len(a) and s.count("{") == len(a):
                parts = s.split("{}")
                out = [C(parts[0])]
                for x, p in zip(a, parts[1:]):
                    out += [L.fmt(x, None, -1), C(p)]
                return cat(*out)
            return mk("fmt", r, mk("tuple", *L.vals(a)), *[mk("kw", q, L.val(v)) for q, v in sorted(k.items())])
        return None
    if name in ("startswith", "endswith"):
        return mk("truth", mk("mcall", name, r, *L.vals(a)))
    return None


def m_list(L, r, o, name, a, k):
    it = L.it
    if name == "append":
        L.list_append(r, a[0])
        return NONE
    if name in ("extend", "extendleft"):
        L.list_extend(r, a[0])
        return NONE
    if name == "insert":
        it.emit("mutcall", root=r, name="insert", key=a[0], val=a[1])
        items = L.exact_items(r)
        g, l = L.rel(o)
        if items is not None and not g and not l and isinstance(num(a[0]), int):
            items = list(items)
            items.insert(num(a[0]), a[1])
            n = it.wobj(r)
            n.segs = ()
            for x in items:
                L.addseg(r, "elem", None, x)
        else:
            L.addseg(r, "elem", None, a[1])
        return NONE
    if name in ("pop", "popleft"):
        it.emit("mutcall", root=r, name=name, key=a[0] if a else NONE)
        items = L.exact_items(r)
        g, l = L.rel(o)
        if items and not g and not l and (not a or isinstance(num(a[0]), int)) and name == "pop":
            i = num(a[0]) if a else -1
            if -len(items) <= i < len(items):
                items = list(items)
                v = items.pop(i)
                n = it.wobj(r)
                n.segs = ()
                for x in items:
                    L.addseg(r, "elem", None, x)
                return v
        t = mk("popped", L.val(r), *(L.vals(a)))
        L.addcands(t, [s.val for s in o.segs if s.kind == "elem"])
        L.addseg(r, "pop", a[0] if a else NONE, None)
        return t
    if name == "remove":
        it.emit("mutcall", root=r, name="remove", val=a[0])
        L.addseg(r, "discard", None, a[0])
        return NONE
    if name == "clear":
        it.emit("mutcall", root=r, name="clear")
        g, l = L.rel(o)
        if not g and not l:
            it.wobj(r).segs = ()
        else:
            L.addseg(r, "clear", None, None)
        return NONE
    if name == "sort":
        it.emit("mutcall", root=r, name="sort")
        n = it.wobj(r)
        n.meta = {**n.meta, "order": mkorder(L, k.get("key", NONE), k.get("reverse", FALSE), n.meta.get("order"))}
        return NONE
    if name == "reverse":
        it.emit("mutcall", root=r, name="reverse")
        items = L.exact_items(r)
        n = it.wobj(r)
        if items is not None:
            n.segs = ()
            for x in items[::-1]:
                L.addseg(r, "elem", None, x)
        else:
            n.meta = {**n.meta, "order": mk("order", C("reversed"), NONE, NONE, n.meta.get("order") or NONE)}
        return NONE
    if name == "copy":
        return L.fromiter("list", r)
    if name == "index":
        x = a[0]
        v = L.itval(r)
        return mk("idx", v, 1, x)
    if name == "count":
        return mk("count", L.val(r), L.val(a[0]))
    return None


def m_set(L, r, o, name, a, k):
    it = L.it
    if name == "add":
        it.emit("mutcall", root=r, name="add", val=a[0])
        L.addseg(r, "elem", None, a[0])
        return NONE
    if name in ("remove", "discard"):
        it.emit("mutcall", root=r, name=name, val=a[0])
        L.addseg(r, "discard", None, a[0])
        return NONE
    if name == "pop":
        it.emit("mutcall", root=r, name="pop")
        t = mk("popped", L.val(r))
        cs = [s.val for s in o.segs if s.kind == "elem"]
        for g, l, e in (L.iterate(r) if any(s.kind == "spread" for s in o.segs) else []):
            cs.append(e)
        L.addcands(t, cs)
        items = L.exact_items(r)
        if items is not None and len(items) == 1:
            t = items[0]
        L.addseg(r, "pop", None, t)
        return t
    if name == "clear":
        it.emit("mutcall", root=r, name="clear")
        it.wobj(r).segs = ()
        return NONE
    if name in ("update", "symmetric_difference_update", "difference_update", "intersection_update"):
        for x in a:
            L.mut_set(r, name, x)
        return NONE
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        res = r
        for x in a:
            res = L.setop({"union": "union", "intersection": "inter", "difference": "diff", "symmetric_difference": "symdiff"}[name], res, x)
        return res if a else L.fromiter("set", r)
    if name == "copy":
        return L.fromiter("set", r)
    if name == "issubset":
        return mk("truth", mk("subset", L.val(r), L.val(a[0])))
    if name == "issuperset":
        return mk("truth", mk("subset", L.val(a[0]), L.val(r)))
    if name == "isdisjoint":
        return not_(L.truth(L.setop("inter", r, a[0])))
    return None


def m_dict(L, r, o, name, a, k):
    it = L.it
    if name == "get":
        return L.dict_get(r, a[0], a[1] if len(a) > 1 else k.get("default", NONE))
    if name in ("items", "keys", "values"):
        return mk("dview", name, r)
    if name == "update":
        it.emit("mutcall", root=r, name="update", val=mk("tuple", *a))
        for x in a:
            L.dict_update(r, x, quiet=True)
        extra = k.pop("**", None)
        if extra is not None:
            L.dict_update(r, extra, quiet=True)
        for kk, v in k.items():
            L.dict_set(r, C(kk), v, quiet=True)
        return NONE
    if name == "copy":
        d = L.mkdict()
        L.dict_update(d, r, quiet=True)
        return d
    if name == "pop":
        it.emit("mutcall", root=r, name="pop", key=a[0])
        v = L.dict_get(r, a[0], a[1] if len(a) > 1 else mk("unk", "pop"))
        L.addseg(r, "del", a[0], None)
        return v
    if name == "setdefault":
        if len(a) > 1 and not isc(a[0]) and a[0].op != "ite":
            t = L.famget(r, a[0], lambda: a[1])
            if t is not None:
                return t
        c = L.dict_has(r, L.obj(r), a[0])
        v = L.dict_get(r, a[0], a[1] if len(a) > 1 else NONE)
        d = it.decide(c)
        if d is not True:
            it.branch(not_(c), lambda: L.dict_set(r, a[0], a[1] if len(a) > 1 else NONE) or NONE, lambda: NONE)
        return v
    if name == "clear":
        it.emit("mutcall", root=r, name="clear")
        it.wobj(r).segs = ()
        return NONE
    if name == "popitem":
        it.emit("mutcall", root=r, name="popitem")
        cs = [mk("tuple", s.key, s.val) for s in o.segs if s.kind == "set"]
        t = mk("popped", mk("dictid", r))
        k0, v0 = mk("item", t, C(0)), mk("item", t, C(1))
        L.addcands(k0, [s.key for s in o.segs if s.kind == "set"])
        L.addcands(v0, [s.val for s in o.segs if s.kind == "set"])
        return mk("tuple", k0, v0)
    return None


def m_nd(L, r, o, name, a, k):
    it = L.it
    if name == "fill":
        it.emit("write_item", root=r, key=mk("slc", NONE, NONE, NONE), val=a[0])
        n = it.wobj(r)
        n.meta = {**n.meta, "base": mk("nd", L.val(a[0]), L.shape(o.meta["base"]))}
        n.segs = ()
        return NONE
    if name in MUT - {"add", "append"}:
        it.emit("mutcall", root=r, name=name, val=mk("tuple", *a))
        return NONE
    if name == "copy":
        return L.mknd(L.val(r))
    return m_value(L, L.val(r), name, a, k, r)


def m_value(L, v, name, a, k, r):
    """Methods of immutable array values."""
    if name == "dot":
        return L.binop("MatMult", v, a[0])
    if name == "sum" and not a and not k:
        return L.sum(v)
    if name == "astype":
        d = a[0] if a else k.get("dtype", NONE)
        if isbooltype(d) and (isbool(v) or v.op in ("eltcmp", "not", "eltnot")):
            return v
        if isbooltype(d) and v.op in ("s", "attr", "nd", "ndw", "item", "poly", "call", "mod"):
            return L.cmp("NotEq", v, C(0))
        if v.op == "vec":
            return v
        if isbool(v):
            return ite(v, C(1), C(0))
        if d.op == "ext" and ".float" in d.a[0] or d.op == "ext" and d.a[0] in ("numpy.single", "numpy.double") or isc(d) and str(d.a[0]).startswith("float"):
            return v
        return mk("astype", v) if v.op not in ("s", "attr") else v
    if name in ("flatten", "ravel"):
        return v if v.op in ("vec", "range", "arange") else mk("flat", v)
    if name == "nonzero":
        return nonzero(L, v)
    if name in ("any", "all") and not a and not k:
        return b_anyall(name)(L, [v], {})
    if name == "tolist":
        return L.fromiter("list", v)
    if name == "item" and not a:
        return v
    if name == "copy":
        return L.mknd(v)
    if name in ("argmin", "argmax"):
        return n_argmin(name[3:])(L, [v], {})
    if name in ("min", "max") and not a:
        return b_minmax(name)(L, [v], {})
    if name == "transpose" and not a:
        return v.a[0] if v.op == "transpose" else mk("transpose", v)
    if name == "get" and r.op not in ("ref",):
        return L.dict_get(r, a[0], a[1] if len(a) > 1 else NONE)
    if name in ("items", "keys", "values") and not a:
        return mk("dview", name, r)
    if name in ("union", "intersection", "difference", "symmetric_difference") and a:
        return L.setop({"union": "union", "intersection": "inter", "difference": "diff", "symmetric_difference": "symdiff"}[name], r, a[0])
    if name in ("toarray", "todense", "reshape", "mean", "prod", "round", "clip", "cumsum", "lower", "upper", "capitalize"):
        return mk("mcall", name, v, *L.vals(a), *[mk("kw", q, L.val(x)) for q, x in sorted(k.items())])
    return None


def m_file(L, r, o, name, a, k):
    it = L.it
    it.emit("file", root=r, name=name, val=mk("tuple", *a))
    return NONE if name != "read" else mk("unk", "read")


def m_csv(L, r, o, name, a, k):
    it = L.it

    def snap(x, depth=0):
        xo = L.obj(x)
        if xo is not None and xo.kind == "list" and depth < 2:
            return [(s, snap(s.val, depth + 1) if s.val is not None else None) for s in xo.segs]
        e = L.exact_items(x) if xo is None and x.op in ("tuple", "vec", "listv") else None
        return [(None, y) for y in e] if e is not None else x
    it.emit("csv", root=r, name=name, val=a[0] if a else NONE, extra=dict(o.meta, rows=snap(a[0]) if a else None))
    return NONE


def m_graph(L, G, name, a, k):
    it = L.it
    G = L.groot(G)
    if name == "add_node":
        it.emit("mutcall", root=G, name="add_node", key=a[0], extra=dict(k))
        L.gaddseg(G, "addn", "add", a[0], NONE)
        star = k.pop("**", None)
        if star is not None:
            gwild(L, G, "n", a[0], star)
        for q, v in k.items():
            L.gaddseg(G, ("n", q), "set", a[0], v)
        return NONE
    if name == "add_edge":
        it.emit("mutcall", root=G, name="add_edge", key=mk("tuple", a[0], a[1]), extra=dict(k))
        L.gaddseg(G, "adde", "add", mk("tuple", a[0], a[1]), NONE)
        L.gaddseg(G, "addn", "add", a[0], NONE)
        L.gaddseg(G, "addn", "add", a[1], NONE)
        ek = mk("tuple", *sorted((a[0], a[1])))
        star = k.pop("**", None)
        if star is not None:
            gwild(L, G, "e", ek, star)
        for q, v in k.items():
            L.gaddseg(G, ("e", q), "set", ek, v)
        return NONE
    if name in ("add_nodes_from", "add_edges_from", "add_weighted_edges_from"):
        it.emit("mutcall", root=G, name=name, val=a[0], extra=dict(k))
        it.quiet += 1
        try:
            for g, l, e in L.iterate(a[0]):
                sg, sl = it.st.guard, it.st.loops
                it.st.guard, it.st.loops = sg + g, sl + l
                if name == "add_nodes_from":
                    m_graph(L, G, "add_node", [e], dict(k))
                else:
                    items = L.exact_items(e)
                    kk = dict(k)
                    if items is not None and len(items) == 3:
                        if name == "add_weighted_edges_from":
                            kk["weight"] = items[2]
                        else:
                            for q, v in (L.exact_dict(items[2]) or []):
                                kk[q] = v
                    m_graph(L, G, "add_edge", [L.getitem(e, C(0)), L.getitem(e, C(1))], kk)
                it.st.guard, it.st.loops = sg, sl
        finally:
            it.quiet -= 1
        return NONE
    if name in ("remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from", "clear"):
        it.emit("mutcall", root=G, name=name, key=a[0] if a else NONE, val=mk("tuple", *a))
        L.gaddseg(G, "rm", name, L.val(a[0]) if a else NONE, NONE)
        return NONE
    if name in ("neighbors", "adj"):
        return mk("adjv", L.gnow(G), a[0])
    if name == "nodes":
        return lib_call(L, mk("nview", L.gnow(G)), a, k)
    if name == "edges":
        if a and a[0] is not TRUE and a[0] is not FALSE:
            return mk("oedges", L.gnow(G), a[0])
        return lib_call(L, mk("eview", L.gnow(G)), a, k)
    if name == "has_node":
        return L.isin(a[0], mk("nview", L.gnow(G)))
    if name == "has_edge":
        return mk("in", mk("tuple", *sorted(a[:2])), mk("eview", L.gnow(G)))
    if name in ("order", "number_of_nodes"):
        return mk("len", mk("nview", L.gnow(G)))
    if name in ("number_of_edges", "size"):
        return mk("len", mk("eview", L.gnow(G)))
    if name == "degree":
        return mk("len", mk("adjv", L.gnow(G), a[0])) if a else mk("degrees", G)
    if name == "get_edge_data":
        return L.eattr(G, a[0], a[1])
    if name in ("subgraph", "edge_subgraph"):
        t = it.new("inst", L.clsof(G) or Ext("networkx.Graph"))
        o = it.wobj(t)
        o.meta = {"view": G, "nodes": L.val(a[0]), "nodesref": a[0], "by": name}
        c = L.clsof(G)
        o.fields["graph"] = it.getattr(G, "graph")
        return t
    if name == "copy":
        t = it.new("inst", L.clsof(G) or Ext("networkx.Graph"))
        d = L.mkdict()
        it.wobj(t).fields["graph"] = d
        L.graph_copy_into(t, G)
        o = it.wobj(t)
        return t
    if name == "update":
        it.emit("mutcall", root=G, name="update", val=mk("tuple", *a))
        k = dict(k)
        for q, x in zip(("edges", "nodes"), a):
            k[q] = x
        for q in ("nodes", "edges"):
            x = k.get(q, NONE)
            if x is NONE:
                continue
            if L.isgraph(x) or q == "edges" and x.op == "eview" or q == "nodes" and x.op == "nview":
                L.gaddseg(G, "rm", "update", L.val(x), NONE)
            else:
                m_graph(L, G, "add_%s_from" % q, [x], {})
        return NONE
    if name == "clear_edges":
        L.gaddseg(G, "rm", name, mk("tuple", *L.vals(a)), NONE)
        return NONE
    return None


def gwild(L, G, typ, key, src):
    """Attributes supplied as **mapping."""
    if src.op in ("nattr", "eattr"):
        g2 = L.groot(src.a[0])
        L.gaddseg(G, (typ, "*"), "set", key, src)
        return
    ex = L.exact_dict(src)
    if ex is not None:
        for q, v in ex:
            L.gaddseg(G, (typ, q), "set", key, v)
        return
    L.gaddseg(G, (typ, "*"), "set", key, src)
    for q, v in L.const_entries(src).items():
        L.gaddseg(G, (typ, q), "set", key, v)


def m_rx(L, r, o, name, a, k):
    it = L.it
    if name == "add_node":
        it.emit("mutcall", root=r, name=name, val=a[0])
        L.addseg(r, "add", a[0], NONE, field="nodes")
        return mk("rxidx", r, a[0])
    if name in ("add_nodes_from",):
        it.emit("mutcall", root=r, name=name, val=a[0])
        for g, l, e in L.iterate(a[0]):
            sg, sl = it.st.guard, it.st.loops
            it.st.guard, it.st.loops = sg + g, sl + l
            L.addseg(r, "add", e, NONE, field="nodes")
            it.st.guard, it.st.loops = sg, sl
        return mk("rxidxs", r, L.val(a[0]))
    if name == "add_edge":
        it.emit("mutcall", root=r, name=name, key=mk("tuple", a[0], a[1]), val=a[2] if len(a) > 2 else NONE)
        L.addseg(r, "set", mk("tuple", a[0], a[1]), a[2] if len(a) > 2 else NONE, field="edges")
        return mk("unk", "edgeidx")
    if name in ("get_edge_data",):
        key = mk("tuple", a[0], a[1])
        segs = o.fields.get("edges", ())
        t = mk("rxedata", r, mk("tuple", *sorted((a[0], a[1]))))
        L.addcands(t, [s.val for s in segs])
        return t
    if name in ("get_node_data", "__getitem__"):
        return rx_node(L, r, a[0])
    if name == "nodes":
        t = mk("rxnodes", r)
        e = mk("elem", t, 0)
        L.addcands(e, [s.key for s in it.obj(r).fields.get("nodes", ())])
        return t
    if name == "node_indices" or name == "node_indexes":
        return mk("rxnodeidx", r)
    if name == "edge_list":
        t = mk("rxedges", r)
        return t
    if name == "out_edges" or name == "in_edges":
        return mk("rxoute", r, a[0])
    if name == "neighbors":
        return mk("rxnbrs", r, a[0])
    if name == "degree":
        return mk("rxdeg", r, a[0], mk("rxver", *[L.segt(s) for s in o.fields.get("rm", ())]))
    if name == "copy":
        t = it.new("rxg")
        n = it.wobj(t)
        n.fields = dict(o.fields)
        n.meta = {**o.meta, "copyof": r}
        return t
    if name in ("remove_node", "remove_nodes_from", "remove_edge", "remove_edge_from_index", "clear", "remove_edges_from", "remove_node_retain_edges"):
        it.emit("mutcall", root=r, name=name, val=mk("tuple", *a))
        L.addseg(r, name, mk("tuple", *L.vals(a)), NONE, field="rm")
        return NONE
    if name in ("add_edges_from", "add_edges_from_no_data", "extend_from_edge_list", "extend_from_weighted_edge_list") and len(a) == 1:
        it.emit("mutcall", root=r, name=name, val=a[0])
        for g, l, e in L.iterate(a[0]):
            sg, sl = it.st.guard, it.st.loops
            it.st.guard, it.st.loops = sg + g, sl + l
            data = name in ("add_edges_from", "extend_from_weighted_edge_list")
            L.addseg(r, "set", mk("tuple", L.getitem(e, C(0)), L.getitem(e, C(1))), L.getitem(e, C(2)) if data else NONE, field="edges")
            it.st.guard, it.st.loops = sg, sl
        return mk("unk", "edgeidx")
    if name in ("update_edge", "update_edge_by_index", "compose", "substitute_node_with_subgraph", "clear_edges", "remove_edges", "contract_nodes"):
        it.emit("mutcall", root=r, name=name, val=mk("tuple", *a))
        L.addseg(r, name, mk("tuple", *L.vals(a)), NONE, field="rm")
        return mk("unk", name) if name != "clear_edges" else NONE
    if name in ("num_nodes",):
        return mk("len", mk("rxnodes", r))
    if name == "edges":
        t = mk("rxpay", r)
        L.addcands(mk("elem", t, 0), [s.val for s in o.fields.get("edges", ())])
        return t
    if name == "weighted_edge_list":
        return mk("rxwedges", r)
    if name == "has_edge":
        u, v = sorted((a[0], a[1]))
        return or_(mk("in", mk("tuple", u, v), mk("rxedges", r)), mk("in", mk("tuple", v, u), mk("rxedges", r)))
    return None


def rx_node(L, r, ix):
    it = L.it
    if ix.op == "rxidx" and ix.a[0] is r:
        return ix.a[1]
    o = it.obj(r)
    t = mk("rxnode", r, ix)
    if o is not None:
        L.addcands(t, [s.key for s in o.fields.get("nodes", ())])
        if o.meta.get("copyof"):
            pass
    return t

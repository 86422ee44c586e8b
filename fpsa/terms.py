"""Hash-consed value terms and their normal forms (no execution, no solver).

A term is the *abstract value* of an expression: syntax is normalised away, so
that a helper extraction, a renamed variable, a reordered statement or a loop
rewritten as a comprehension yields the same term.
"""
import itertools
from fractions import Fraction

_INTERN = {}
_CNT = itertools.count()


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _k(x):
    if isinstance(x, T):
        return x
    if isinstance(x, tuple):
        return ("t",) + tuple(_k(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *a):
    key = (op,) + tuple(_k(x) for x in a)
    try:
        t = _INTERN.get(key)
    except TypeError:
        key = (op, repr(a))
        t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_CNT)
        _INTERN[key] = t
    return t


def C(v):
    return mk("c", v)


TRUE, FALSE, NONE = C(True), C(False), C(None)
UNDEF = mk("undef")


def isc(t):
    return t.op == "c"


def num(t):
    """Numeric python value of a constant term, or None."""
    if t.op == "c" and isinstance(t.a[0], (int, float, Fraction)):
        return t.a[0]
    return None


def S(name, kind=None):
    return mk("s", name, kind)


def Ext(name):
    return mk("ext", name)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return repr(t)
    if d > 7:
        return "…"
    o = t.op
    if o == "c":
        return repr(t.a[0])
    if o == "s":
        return t.a[0]
    if o == "ext":
        return t.a[0]
    if o == "ref":
        return "#%s" % t.a[0]
    if o == "attr":
        return "%s.%s" % (show(t.a[0], d + 1), t.a[1])
    if o == "item":
        return "%s[%s]" % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if o == "poly":
        out = []
        for mono, c in t.a[0]:
            m = "*".join(show(x, d + 1) + ("" if e == 1 else "^%s" % e) for x, e in mono)
            out.append(("%s" % c if not m else (m if c == 1 else "%s*%s" % (c, m))))
        return "(" + " + ".join(out) + ")"
    if o == "tuple":
        return "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in t.a))


# ------------------------------------------------------------- polynomials
def _topoly(t):
    if t.op == "poly":
        return dict(t.a[0])
    n = num(t)
    if n is not None:
        if isinstance(n, bool):
            n = int(n)
        return {(): n} if n != 0 else {}
    return {((t, 1),): 1}


def _frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))))


def add(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return C(na + nb)
    p = _topoly(a)
    for m, c in _topoly(b).items():
        p[m] = p.get(m, 0) + c
    return _frompoly(p)


def _mulmono(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))


def mul(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return C(na * nb)
    pa, pb = _topoly(a), _topoly(b)
    if len(pa) * len(pb) > 64:
        return mk("mulbig", *sorted((a, b)))
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return _frompoly(p)


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    na, nb = num(a), num(b)
    if nb == 0:
        return mk("div", a, b)
    if na is not None and nb is not None:
        return C(na / nb)
    if nb is not None:
        f = Fraction(1, nb) if isinstance(nb, int) else 1 / nb
        return mul(a, C(f))
    pb = _topoly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = _frompoly({tuple((x, -e) for x, e in m): Fraction(1, c) if isinstance(c, int) else 1 / c})
        return mul(a, inv)
    return mul(a, mk("inv", b))


def floordiv(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb:
        return C(na // nb)
    if nb == 1:
        return mk("floor", a)
    if isinstance(nb, int) and nb > 1:
        p = _topoly(a)
        if p and all(isinstance(c, int) and c % nb == 0 for c in p.values()):
            return _frompoly({m: c // nb for m, c in p.items()})
    return mk("floordiv", a, b)


def mod(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb:
        return C(na % nb)
    if isinstance(nb, int) and not isinstance(nb, bool) and nb >= 2:
        p = _topoly(a)
        if all(isinstance(c, int) for c in p.values()):
            p2 = {m: c % nb for m, c in p.items()}
            a = _frompoly(p2)
            if num(a) is not None:
                return C(num(a) % nb)
        if a.op == "mod" and a.a[1] is b:
            return a
    return mk("mod", a, b)


def power(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        try:
            return C(na ** nb)
        except Exception:
            return mk("pow", a, b)
    if isinstance(nb, int) and 0 < nb <= 6:
        r = a
        for _ in range(nb - 1):
            r = mul(r, a)
        return r
    if isinstance(nb, int) and nb < 0 and nb >= -6:
        return div(C(1), power(a, C(-nb)))
    if na == -1:
        return mk("pow", a, mod(b, C(2)))
    return mk("pow", a, b)


def linear(t):
    """(dict atom->coef, const) for a degree-1 polynomial, else None."""
    p = _topoly(t)
    d, c0 = {}, 0
    for m, c in p.items():
        if m == ():
            c0 = c
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0]] = c
        else:
            return None
    return d, c0


# ----------------------------------------------------------------- booleans
BOOLOPS = {"and", "or", "not", "eq", "lt", "le", "in", "truth", "isinstance", "anyiter", "exc",
           "hasattr", "is"}


def isbool(t):
    return t.op in BOOLOPS or (t.op == "c" and isinstance(t.a[0], bool)) or (
        t.op == "s" and t.a[1] == "bool") or (t.op == "ite" and isbool(t.a[1]) and isbool(t.a[2]))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    if a.op == "lt":
        return le(a.a[1], a.a[0])
    if a.op == "le":
        return lt(a.a[1], a.a[0])
    if a.op == "and":
        return or_(*[not_(x) for x in a.a])
    if a.op == "or":
        return and_(*[not_(x) for x in a.a])
    if a.op == "ite":
        return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return mk("not", a)


def and_(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is not TRUE and y not in s:
                s.append(y)
    for y in s:
        if not_(y) in s:
            return FALSE
    if not s:
        return TRUE
    # unit propagation into disjunctions: a and (not a or b) -> a and b
    ch = True
    while ch:
        ch = False
        for i, y in enumerate(s):
            if y.op == "or":
                if any(z in s for z in y.a):
                    s.pop(i)
                    ch = True
                    break
                rest = [z for z in y.a if not_(z) not in s]
                if len(rest) < len(y.a):
                    n = or_(*rest)
                    s.pop(i)
                    if n is FALSE:
                        return FALSE
                    for z in (n.a if n.op == "and" else (n,)):
                        if z is not TRUE and z not in s:
                            s.append(z)
                    ch = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s))


def or_(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "or" else (x,)):
            if y is TRUE:
                return TRUE
            if y is not FALSE and y not in s:
                s.append(y)
    for y in s:
        if not_(y) in s:
            return TRUE
    ch = True
    while ch:
        ch = False
        for i, y in enumerate(s):
            if y.op == "and":
                if any(z in s for z in y.a):
                    s.pop(i)
                    ch = True
                    break
                rest = [z for z in y.a if not_(z) not in s]
                if len(rest) < len(y.a):
                    n = and_(*rest)
                    s.pop(i)
                    if n is TRUE:
                        return TRUE
                    for z in (n.a if n.op == "or" else (n,)):
                        if z is not FALSE and z not in s:
                            s.append(z)
                    ch = True
                    break
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", *sorted(s))


NOVAL = ("s", "poly", "draw", "newrng")
IDENT = ("ref", "fn", "cls", "ext", "bm", "tuple", "vec", "cat")


def eq(a, b):
    if a is b:
        if a.op == "ref":
            return mk("eqref", a) if False else TRUE
        if a.op not in ("any", "draw"):
            return TRUE
    if isc(a) and isc(b):
        try:
            return C(bool(a.a[0] == b.a[0]))
        except Exception:
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if isc(b) and not isc(a):
        a, b = b, a
    if isc(a):
        v = a.a[0]
        if b.op in ("ref", "fn", "cls", "ext", "bm", "tuple", "vec", "newrng", "slice"):
            if b.op == "ref":
                return mk("eq", a, b) if not (v is None or isinstance(v, (str, int, bool))) else FALSE
            return FALSE
        if v is None and b.op in ("poly", "cat", "mod", "pow", "not", "and", "or", "eq", "lt", "le", "in"):
            return FALSE
        if b.op == "ite":
            x, y = eq(a, b.a[1]), eq(a, b.a[2])
            if isc(x) or isc(y):
                return ite(b.a[0], x, y)
        if isinstance(v, str) and b.op in ("poly", "mod"):
            return FALSE
        if isinstance(v, bool) and isbool(b):
            return b if v else not_(b)
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
            lb = linear(b)
            if lb and len(lb[0]) == 1:
                (x, c), = lb[0].items()
                if lb[1] != 0 or c != 1:
                    if isinstance(c, int) and isinstance(v, int) and isinstance(lb[1], int):
                        r = v - lb[1]
                        if r % c == 0:
                            return eq(C(r // c), x)
                        return FALSE  # integer atoms
            elif lb and all(isinstance(c, int) and c % 2 == 0 for c in lb[0].values()) and \
                    isinstance(v, int) and isinstance(lb[1], int) and (v - lb[1]) % 2 and lb[0]:
                return FALSE
        # tagged tuples such as ("c", v) are kept
        return mk("eq", a, b)
    if a.op in ("poly",) or b.op in ("poly",):
        d = sub(a, b)
        n = num(d)
        if n is not None:
            return C(n == 0)
        la = linear(d)
        if la and la[0] and all(isinstance(c, int) and c % 2 == 0 for c in la[0].values()) and isinstance(la[1], int) and la[1] % 2:
            return FALSE
        if a.op == "poly" and b.op != "poly" or (la and sum(1 for _ in la[0]) >= 1):
            # normal form: eq of difference with sign fixed
            nd = neg(d)
            d = d if d.id < nd.id else nd
            if la and len(la[0]) == 1 and la[1] == 0:
                return mk("eq", C(0), next(iter(la[0])))
            if la:
                g = 0
                import math
                for c in list(la[0].values()) + [la[1]]:
                    if isinstance(c, int):
                        g = math.gcd(g, abs(c))
                    else:
                        g = 1
                        break
                if g > 1:
                    d = _frompoly({m: c // g for m, c in _topoly(d).items()})
                    nd = neg(d)
                    d = d if d.id < nd.id else nd
            return mk("eq", C(0), d)
    if a.op in IDENT and b.op in IDENT and a.op != b.op:
        if "cat" not in (a.op, b.op):
            return FALSE
    x, y = sorted((a, b))
    return mk("eq", x, y)


def lt(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return C(na < nb)
    if a is b:
        return FALSE
    d = num(sub(b, a)) if (a.op == "poly" or b.op == "poly") else None
    if d is not None:
        return C(d > 0)
    return mk("lt", a, b)


def le(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return C(na <= nb)
    if a is b:
        return TRUE
    d = num(sub(b, a)) if (a.op == "poly" or b.op == "poly") else None
    if d is not None:
        return C(d >= 0)
    return mk("le", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == "or":
        # x == k or ...: keep
        pass
    return mk("ite", c, a, b)


def any_(vals):
    s = []
    for v in vals:
        for y in (v.a if v.op == "any" else (v,)):
            if y not in s:
                s.append(y)
    if len(s) == 1:
        return s[0]
    return mk("any", *sorted(s))


def xor(*xs):
    s, c = [], 0
    for x in xs:
        for y in (x.a if x.op == "xor" else (x,)):
            n = num(y)
            if n is not None and isinstance(n, int):
                c ^= int(n)
            elif y in s:
                s.remove(y)
            else:
                s.append(y)
    if not s:
        return C(c)
    if c:
        s.append(C(c))
    if len(s) == 1:
        return s[0]
    return mk("xor", *sorted(s))


def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "cat" else (x,)):
            if isc(y) and isinstance(y.a[0], str) and y.a[0] == "":
                continue
            if out and isc(out[-1]) and isc(y) and isinstance(out[-1].a[0], str) and isinstance(y.a[0], str):
                out[-1] = C(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


# --------------------------------------------------------------- traversals
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tt(x)


def _tt(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tt(y)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


_RB = {}


def rebuild(op, a):
    f = _RB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


_RB.update({"and": and_, "or": or_, "not": not_, "eq": eq, "lt": lt, "le": le, "ite": ite, "xor": xor,
            "cat": cat, "mod": mod, "pow": power, "any": lambda *a: any_(a)})


def subst(t, f, memo=None):
    """Rebuild t bottom-up; f(term) may return a replacement or None."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            if x.op in ("c", "s", "ref", "ext", "fn", "cls"):
                r = x
            elif x.op == "poly":
                r = C(0)
                for m, c in x.a[0]:
                    term = C(c)
                    for y, e in m:
                        yy = go(y)
                        term = mul(term, power(yy, C(e))) if isinstance(e, int) else mul(term, mk("pow", yy, C(e)))
                    r = add(r, term)
            else:
                a = tuple(go(y) for y in x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else rebuild(x.op, a)
        memo[x] = r
        return r

    return go(t)


def atoms(b, out=None):
    out = [] if out is None else out
    if b.op in ("and", "or", "not"):
        for x in b.a:
            atoms(x, out)
    elif b.op == "ite" and isbool(b):
        for x in b.a:
            atoms(x, out)
    elif b.op == "c":
        pass
    elif b not in out:
        out.append(b)
    return out


def evalb(b, env):
    if b.op == "c":
        return bool(b.a[0])
    if b.op == "and":
        return all(evalb(x, env) for x in b.a)
    if b.op == "or":
        return any(evalb(x, env) for x in b.a)
    if b.op == "not":
        return not evalb(b.a[0], env)
    if b.op == "ite" and b not in env:
        return evalb(b.a[1] if evalb(b.a[0], env) else b.a[2], env)
    return env[b]


def _consistent(ats, env):
    """Theory filter: one term equals at most one of several constants; order atoms are antisymmetric."""
    pos = {}
    for t in ats:
        if env[t] and t.op == "eq" and isc(t.a[0]):
            if t.a[1] in pos and pos[t.a[1]] is not t.a[0]:
                return False
            pos[t.a[1]] = t.a[0]
    for t in ats:
        if env[t] and t.op == "truth" and t.a[0] in pos and not pos[t.a[0]].a[0]:
            return False
        if not env[t] and t.op == "truth" and t.a[0] in pos and pos[t.a[0]].a[0]:
            return False
        if env[t] and t.op == "lt":
            r = mk("lt", t.a[1], t.a[0])
            if env.get(r):
                return False
        if t.op == "lt":
            r = mk("le", t.a[0], t.a[1])
            if r in env and env[t] and not env[r]:
                return False
            r2 = mk("le", t.a[1], t.a[0])
            if r2 in env and env[r2] == env[t]:
                return False
        # integer bounds on one term: x == c contradicts x < k etc.
        if t.op in ("lt", "le"):
            for x, c, left in ((t.a[0], num(t.a[1]), True), (t.a[1], num(t.a[0]), False)):
                if c is not None and x in pos and num(pos[x]) is not None:
                    v = num(pos[x])
                    val = (v < c if t.op == "lt" else v <= c) if left else (c < v if t.op == "lt" else c <= v)
                    if val != env[t]:
                        return False
    return True


def assignments(ats):
    for vals in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, vals))
        if _consistent(ats, env):
            yield env


def taut(b, limit=12):
    """True / False(not a tautology) / None (too many atoms)."""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    ats = atoms(b)
    if len(ats) > limit:
        return None
    return all(evalb(b, e) for e in assignments(ats))


def implies(a, b, limit=12):
    return taut(or_(not_(a), b), limit)


def sat(b, limit=12):
    t = taut(not_(b), limit)
    return None if t is None else not t

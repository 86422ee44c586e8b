"""Forms of the native extension: an evaluator of clang's syntax tree (JSON) of a translation unit over models of the lemon,
pybind11 and standard library types it uses.  Nothing is compiled or run; an access outside a modelled object, a read of
a weight that was never set or a query before the solver ran raises Bad, anything not modelled raises Unsup."""
import json
import os
import re
import struct
import subprocess

from .rint import Unsup, heaviest


class Bad(Exception):
    """Undefined or wrong behaviour of the analysed function."""


class Thrown(Exception):
    """The analysed function throws."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


SIZES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8,
         "char": 1, "short": 2, "bool": 1, "long double": 16}


def scalar(t):
    t = t.replace("const ", "").replace("volatile ", "").replace("&", "").strip()
    return {"ssize_t": "long", "Py_ssize_t": "long", "size_t": "unsigned long", "std::size_t": "unsigned long", "int32_t": "int",
            "int64_t": "long", "py::ssize_t": "long", "size_type": "unsigned long"}.get(t, t)


def conv(v, t):
    """A value stored in a place of scalar type t."""
    t = scalar(t)
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, (int, float)):
        return v
    if t == "float":
        return struct.unpack("f", struct.pack("f", v))[0]
    if t in ("double", "long double"):
        return float(v)
    if t in SIZES and t != "bool":
        v, n = int(v), SIZES[t]
        lo, hi = (0, 256 ** n - 1) if t.startswith("unsigned") else (-(256 ** n) // 2, 256 ** n // 2 - 1)
        if not lo <= v <= hi:
            if t.startswith("unsigned"):
                return v % 256 ** n
            raise Bad("a value does not fit %s" % t)
        return v
    if t == "bool":
        return bool(v)
    return v


class Vec:
    def __init__(self, t, items=()):
        self.t, self.items = t, list(items)

    def at(self, i):
        if not isinstance(i, int) or not 0 <= i < len(self.items):
            raise Bad("index %r outside an array of %d elements" % (i, len(self.items)))
        return self.items[i]

    def put(self, i, v):
        self.at(i)
        self.items[i] = conv(v, self.t)


class Ptr:
    def __init__(self, vec, off=0):
        self.vec, self.off = vec, off


class Arr:
    """A numpy array argument."""
    def __init__(self, t, shape, data):
        self.shape, self.data = shape, Vec(t, data)


class Out:
    """py::array built from a buffer."""
    def __init__(self, vec, item, shape, strides, fmt=None):
        n = 1
        for x in shape:
            n *= x
        if item not in (SIZES.get(scalar(vec.t)),) or (fmt and SIZES.get(scalar(fmt)) != item) or (fmt and scalar(fmt) != scalar(vec.t)):
            raise Bad("the buffer is described with another element type than it has")
        want, s = [], item
        for x in reversed(shape):
            want.insert(0, s)
            s *= x

        def walk(d, off):
            if d == len(shape):
                if off % item:
                    raise Bad("a stride splits an element")
                return vec.at(off // item)
            return [walk(d + 1, off + i * strides[d]) for i in range(shape[d])]
        self.value = walk(0, 0)


class LGraph:
    def __init__(self):
        self.n, self.e = 0, []

    def node(self, i):
        if not isinstance(i, int) or not 0 <= i < self.n:
            raise Bad("node id %r of a graph of %d nodes" % (i, self.n))
        return ("node", i)


class EMap:
    def __init__(self, g, t):
        self.g, self.t, self.v = g, t, {}


class Solver:
    def __init__(self, g, w, kind):
        self.g, self.w, self.kind, self.m = g, w, kind, None

    def run(self):
        g, w = self.g, {}
        for i, (a, b) in enumerate(g.e):
            if ("edge", i) not in self.w.v:
                raise Bad("an edge has no weight")
            k = frozenset((a, b))
            if len(k) < 2:
                raise Bad("an edge joins a node to itself")
            if k in w:
                raise Bad("two edges join the same nodes")
            w[k] = self.w.v["edge", i]
        perfect = "Perfect" in self.kind
        m = heaviest(list(range(g.n)), w, perfect)
        self.m = None if perfect and 2 * len(m) < g.n else {frozenset(p) for p in m}
        if self.m is None:
            self.m = set()
            return False
        return True


class It:
    """Iterator over the nodes or edges of a graph (lemon hands out the youngest first)."""
    def __init__(self, kind, g):
        self.kind, self.i = kind, (len(g.e) if kind == "edge" else g.n) - 1

    def key(self):
        return (self.kind, self.i) if self.i >= 0 else "INVALID"


class Unit:
    def __init__(self, path, stop=600000):
        self.path = path
        self.src = open(path, "rb").read()
        self.fuel = stop
        self.funcs, self.types = {}, {}
        text = self.src.decode(errors="replace")
        names = set(re.findall(r"\b([A-Za-z_]\w*)\s*\([^;{}]*\)\s*(?:const|noexcept|\s)*\{", text)) - {"if", "for", "while", "switch", "catch"}
        names |= set(re.findall(r"(?:const|constexpr|static)\s+[\w:<>]+\s+(\w+)\s*=", text))
        names = {n for n in names if n != "PYBIND11_MODULE"}
        inc = ["-I/opt/vp/cmake/pybind11/include"]
        for d in ("/usr/include/python3.12", "/usr/include/python3"):
            if os.path.isdir(d):
                inc.append("-I" + d)
        for n in sorted(names):
            r = subprocess.run(["clang", "-std=c++17", "-fsyntax-only", "-w", *inc, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + n, path],
                               capture_output=True, text=True, timeout=240)
            if r.returncode:
                raise Unsup("clang: " + r.stderr[-300:])
            d, i, s = json.JSONDecoder(), 0, r.stdout
            while i < len(s):
                while i < len(s) and s[i].isspace():
                    i += 1
                if i >= len(s):
                    break
                o, i = d.raw_decode(s, i)
                if o.get("name") in names and self.body(o) is not None and o["kind"] == "FunctionDecl":
                    self.funcs[o["id"]] = o
                    self.types.setdefault(o["name"], o)
                elif o["kind"] == "VarDecl" and o.get("name") in names and o.get("inner"):
                    self.types.setdefault("var " + o["name"], o)
        m = re.search(r'\bdef\(\s*"mwpm"\s*,\s*&?\s*([\w:]+)', text)
        self.entry = m.group(1).split("::")[-1] if m else None

    def body(self, o):
        return next((c for c in o.get("inner", ()) if c["kind"] == "CompoundStmt"), None)

    def text(self, n):
        r = n.get("range", {})
        a, b = r.get("begin", {}), r.get("end", {})
        if "offset" not in a or "offset" not in b:
            return ""
        return self.src[a["offset"]:b["offset"] + b.get("tokLen", 1)].decode(errors="replace")

    # ------------------------------------------------------------------ calls
    def call(self, fn, args):
        env = {}
        ps = [c for c in fn["inner"] if c["kind"] == "ParmVarDecl"]
        if len(ps) != len(args):
            raise Unsup("call with %d arguments" % len(args))
        for p, a in zip(ps, args):
            t = qt(p)
            env[p["id"]] = [self.copyof(a, t)]
        try:
            self.run(self.body(fn), env)
        except Ret as r:
            return r.v
        return None

    def copyof(self, v, t):
        if isinstance(v, Vec) and "&" not in t and "*" not in t:
            return Vec(v.t, v.items)
        return conv(v, t) if isinstance(v, (int, float)) else v

    # ------------------------------------------------------------- statements
    def run(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsup("evaluation limit")
        k, c = n["kind"], n.get("inner", [])
        if k == "CompoundStmt":
            for x in c:
                self.run(x, env)
        elif k == "DeclStmt":
            for v in c:
                if v["kind"] == "VarDecl":
                    self.declare(v, env)
                elif v["kind"] not in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl"):
                    raise Unsup("declaration " + v["kind"])
        elif k == "ForStmt":
            init, _, cond, inc, body = (c + [{}] * 5)[:5]
            if init.get("kind"):
                self.run(init, env)
            while not cond.get("kind") or self.rv(cond, env):
                try:
                    self.run(body, env)
                except Brk:
                    break
                except Cont:
                    pass
                if inc.get("kind"):
                    self.ev(inc, env)
        elif k == "WhileStmt":
            while self.rv(c[0], env):
                try:
                    self.run(c[-1], env)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "IfStmt":
            if n.get("hasInit") or n.get("hasVar"):
                raise Unsup("if with declaration")
            if self.rv(c[0], env):
                self.run(c[1], env)
            elif len(c) > 2:
                self.run(c[2], env)
        elif k == "ReturnStmt":
            v = self.rv(c[0], env) if c else None
            raise Ret(Vec(v.t, v.items) if isinstance(v, Vec) else v)
        elif k == "BreakStmt":
            raise Brk
        elif k == "ContinueStmt":
            raise Cont
        elif k == "NullStmt":
            pass
        elif k == "CXXForRangeStmt":
            self.forrange(n, c, env)
        else:
            self.ev(n, env)

    def forrange(self, n, c, env):
        decls = [x for x in c if x.get("kind") == "DeclStmt"]
        rng = decls[0]["inner"][0]
        var = decls[-1]["inner"][0]
        v = self.rv(rng["inner"][0], env)
        if not isinstance(v, Vec):
            raise Unsup("range for")
        for i, x in enumerate(v.items):
            if "&" in qt(var) and "const" not in qt(var):
                env[var["id"]] = ("elem", v, i)
            else:
                env[var["id"]] = [conv(x, v.t)]
            try:
                self.run(c[-1], env)
            except Brk:
                break
            except Cont:
                pass

    def declare(self, v, env):
        t = qt(v)
        init = next((x for x in v.get("inner", ()) if x["kind"].endswith(("Expr", "Literal", "Operator", "Cleanups"))), None)
        if init is None:
            env[v["id"]] = [None]
            return
        x = self.ev(init, env)
        if "&" in t and isinstance(x, (tuple, list)) and not (isinstance(x, tuple) and x[0] in ("node", "edge")):
            env[v["id"]] = x                                  # alias
            return
        env[v["id"]] = [self.copyof(self.val(x), t)]

    # ------------------------------------------------------------ expressions
    def val(self, x):
        if isinstance(x, list):
            if x[0] is None:
                raise Bad("an uninitialised variable is read")
            return x[0]
        if isinstance(x, tuple) and x[0] == "elem":
            return x[1].at(x[2])
        if isinstance(x, tuple) and x[0] == "mapel":
            if x[2] not in x[1].v:
                raise Bad("a weight that was never set is read")
            return x[1].v[x[2]]
        return x

    def rv(self, n, env):
        return self.val(self.ev(n, env))

    def store(self, p, v, t):
        if isinstance(p, list):
            p[0] = conv(v, t)
        elif isinstance(p, tuple) and p[0] == "elem":
            p[1].put(p[2], v)
        elif isinstance(p, tuple) and p[0] == "mapel":
            p[1].v[p[2]] = conv(v, p[1].t)
        else:
            raise Unsup("assignment")

    def ev(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsup("evaluation limit")
        f = getattr(self, "e_" + n["kind"], None)
        if f is None:
            raise Unsup("C++ " + n["kind"])
        return f(n, n.get("inner", []), env)

    def through(self, n, c, env):
        return self.ev(c[0], env)

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = through

    def e_IntegerLiteral(self, n, c, env):
        return int(n["value"])

    def e_FloatingLiteral(self, n, c, env):
        return float(n["value"])

    def e_CXXBoolLiteralExpr(self, n, c, env):
        return bool(n["value"])

    def e_StringLiteral(self, n, c, env):
        return n.get("value", "")

    def e_CXXDefaultArgExpr(self, n, c, env):
        return None

    def e_CXXNullPtrLiteralExpr(self, n, c, env):
        return None

    def e_ImplicitCastExpr(self, n, c, env):
        k = n.get("castKind")
        if k == "LValueToRValue":
            return self.rv(c[0], env)
        if k in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean"):
            return conv(self.rv(c[0], env), qt(n))
        if k in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "BitCast", "ConstructorConversion", "ArrayToPointerDecay",
                 "UserDefinedConversion", "ToVoid"):
            return self.ev(c[0], env)
        raise Unsup("cast " + str(k))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n, c, env):
        r = n["referencedDecl"]
        if r["id"] in env:
            return env[r["id"]]
        if r["kind"] == "VarDecl" and r.get("name") == "INVALID":
            return "INVALID"
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fun", r["id"], r.get("name"), n)
        g = self.types.get("var " + r.get("name", ""))
        if g is not None:
            e2 = {}
            self.declare(g, e2)
            return e2[g["id"]]
        raise Unsup("name " + str(r.get("name")))

    def e_UnaryExprOrTypeTraitExpr(self, n, c, env):
        if n.get("name") != "sizeof":
            raise Unsup("type trait")
        t = n.get("argType", {})
        t = scalar(t.get("desugaredQualType") or t.get("qualType") or (qt(c[0]) if c else ""))
        if t not in SIZES:
            raise Unsup("sizeof " + t)
        return SIZES[t]

    def e_UnaryOperator(self, n, c, env):
        o = n["opcode"]
        p = self.ev(c[0], env)
        if o in ("++", "--"):
            old = self.val(p)
            if isinstance(old, Ptr):
                new = Ptr(old.vec, old.off + (1 if o == "++" else -1))
                p[0] = new
            else:
                new = old + (1 if o == "++" else -1)
                self.store(p, new, qt(c[0]))
            return old if n.get("isPostfix") else p
        if o == "&":
            if isinstance(p, tuple) and p[0] == "elem":
                return Ptr(p[1], p[2])
            raise Unsup("address")
        v = self.val(p)
        if o == "*":
            if isinstance(v, Ptr):
                return ("elem", v.vec, v.off)
            raise Unsup("dereference")
        if o == "!":
            return not v
        if o == "-":
            return conv(-v, qt(n))
        if o == "+":
            return v
        raise Unsup("operator " + o)

    def arith(self, o, a, b, t):
        if isinstance(a, Ptr) and isinstance(b, int) and o in "+-":
            return Ptr(a.vec, a.off + (b if o == "+" else -b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.vec is not b.vec:
                raise Unsup("pointers into different objects")
            a, b = a.off, b.off
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            raise Unsup("arithmetic")
        if o == "/":
            if b == 0:
                raise Bad("division by zero")
            r = a / b if isinstance(a, float) or isinstance(b, float) else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif o == "%":
            if b == 0:
                raise Bad("division by zero")
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif o == "<<":
            r = a << b
        elif o == ">>":
            r = a >> b
        else:
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[o]()
        return conv(r, t)

    def e_BinaryOperator(self, n, c, env):
        o = n["opcode"]
        if o == "=":
            v = self.rv(c[1], env)
            p = self.ev(c[0], env)
            self.store(p, v, qt(c[0]))
            return p
        if o == ",":
            self.ev(c[0], env)
            return self.ev(c[1], env)
        a = self.rv(c[0], env)
        if o == "&&":
            return bool(a and self.rv(c[1], env))
        if o == "||":
            return bool(a or self.rv(c[1], env))
        b = self.rv(c[1], env)
        if o in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(o, a, b)
        return self.arith(o, a, b, qt(n))

    def compare(self, o, a, b):
        a, b = (x.key() if isinstance(x, It) else x for x in (a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is b.vec:
            a, b = a.off, b.off
        if o in ("==", "!="):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsup("pointer comparison")
            return (a == b) == (o == "==")
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
            a, b = a[1], b[1]
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            raise Unsup("comparison")
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]

    def e_CompoundAssignOperator(self, n, c, env):
        p, b = self.ev(c[0], env), self.rv(c[1], env)
        self.store(p, self.arith(n["opcode"][:-1], self.val(p), b, qt(c[0])), qt(c[0]))
        return p

    def e_ConditionalOperator(self, n, c, env):
        return self.ev(c[1] if self.rv(c[0], env) else c[2], env)

    def e_ArraySubscriptExpr(self, n, c, env):
        b, i = self.rv(c[0], env), self.rv(c[1], env)
        if isinstance(b, Ptr):
            return ("elem", b.vec, b.off + i)
        if isinstance(b, Vec):
            return ("elem", b, i)
        raise Unsup("subscript")

    def e_InitListExpr(self, n, c, env):
        return Vec(re.sub(r"\[\d*\]", "", qt(n)).strip(), [self.rv(x, env) for x in c])

    e_CXXStdInitializerListExpr = through

    def e_CXXThrowExpr(self, n, c, env):
        raise Thrown

    def e_MemberExpr(self, n, c, env):
        return ("member", n["name"], self.ev(c[0], env), n)

    def e_CXXOperatorCallExpr(self, n, c, env):
        f = self.ev(c[0], env)
        o = f[2] if isinstance(f, tuple) and f[0] == "fun" else None
        if o == "operator[]" or o == "operator()":
            b, *i = [self.rv(x, env) for x in c[1:]]
            if isinstance(b, EMap):
                k = i[0].key() if isinstance(i[0], It) else i[0]
                if not (isinstance(k, tuple) and k[0] == "edge"):
                    raise Unsup("map key")
                return ("mapel", b, k)
            if isinstance(b, Vec):
                return ("elem", b, i[0])
            if isinstance(b, Arr) and len(i) == len(b.shape):
                return ("elem", b.data, self.flat(b, i))
            raise Unsup("operator []")
        if o in ("operator!=", "operator==", "operator<"):
            return self.compare(o[8:], self.rv(c[1], env), self.rv(c[2], env))
        if o in ("operator++",):
            x = self.rv(c[1], env)
            if isinstance(x, It):
                x.i -= 1
                return x
            if isinstance(x, Ptr):
                p = self.ev(c[1], env)
                p[0] = Ptr(x.vec, x.off + 1)
                return p
        if o == "operator*":
            x = self.rv(c[1], env)
            if isinstance(x, Ptr):
                return ("elem", x.vec, x.off)
        if o == "operator=":
            v, p = self.rv(c[2], env), self.ev(c[1], env)
            if isinstance(p, list):
                p[0] = Vec(v.t, v.items) if isinstance(v, Vec) else v
                return p
        if o in ("operator-", "operator+") and len(c) == 3:
            return self.arith(o[8:], self.rv(c[1], env), self.rv(c[2], env), "long")
        raise Unsup("C++ " + str(o))

    def flat(self, a, i):
        k = 0
        for x, s in zip(i, a.shape):
            if not 0 <= x < s:
                raise Bad("index %r outside an array of shape %r" % (x, a.shape))
            k = k * s + x
        return k

    def e_CXXMemberCallExpr(self, n, c, env):
        m = self.ev(c[0], env)
        if not (isinstance(m, tuple) and m[0] == "member"):
            raise Unsup("member call")
        args = [self.rv(x, env) for x in c[1:] if x["kind"] != "CXXDefaultArgExpr"]
        return self.method(self.val(m[2]), m[1], args, n)

    def e_CallExpr(self, n, c, env):
        f = self.ev(c[0], env)
        if isinstance(f, tuple) and f[0] == "member":              # static member function called on an object
            return self.method(self.val(f[2]), f[1], [self.rv(x, env) for x in c[1:]], n)
        if not (isinstance(f, tuple) and f[0] == "fun"):
            raise Unsup("call")
        name = f[2]
        fn = self.funcs.get(f[1]) or (self.types.get(name) if name in self.types else None)
        if fn is not None:
            args = []
            for x in c[1:]:
                v = self.ev(x, env)
                args.append(self.val(v))
            return self.call(fn, args)
        args = [self.rv(x, env) for x in c[1:] if x["kind"] != "CXXDefaultArgExpr"]
        if name in ("memcpy", "memmove"):
            d, s, k = args
            return self.copy(d, s, k)
        if name in ("copy", "copy_n"):
            a, b, d = args
            if name == "copy_n":
                cnt = b
            else:
                if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is b.vec):
                    raise Unsup("copy")
                cnt = b.off - a.off
            for i in range(cnt):
                d.vec.put(d.off + i, a.vec.at(a.off + i))
            return Ptr(d.vec, d.off + cnt)
        if name == "move" or name == "forward":
            return self.ev(c[1], env)
        if name == "format":
            m = re.search(r"format_descriptor\s*<\s*([\w: ]+?)\s*>", self.text(c[0]) or self.text(n))
            return ("fmt", m.group(1) if m else None)
        if name in ("max", "min") and len(args) == 2:
            return max(args) if name == "max" else min(args)
        raise Unsup("call of " + str(name))

    def copy(self, d, s, nbytes):
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsup("memcpy")
        a, b = SIZES.get(scalar(d.vec.t)), SIZES.get(scalar(s.vec.t))
        if a is None or a != b or scalar(d.vec.t) != scalar(s.vec.t):
            raise Bad("bytes of %s are copied into %s" % (s.vec.t, d.vec.t))
        for i in range((nbytes + a - 1) // a):
            d.vec.put(d.off + i, s.vec.at(s.off + i))
        return d

    def method(self, b, m, a, n):
        if isinstance(b, LGraph):
            if m == "addNode":
                b.n += 1
                return ("node", b.n - 1)
            if m == "addEdge":
                u, v = a
                if not all(isinstance(x, tuple) and x[0] == "node" and x[1] < b.n for x in (u, v)):
                    raise Bad("an edge of unknown nodes")
                b.e.append((u[1], v[1]))
                return ("edge", len(b.e) - 1)
            if m == "nodeFromId":
                return b.node(a[0])
            if m == "id":
                k = a[0].key() if isinstance(a[0], It) else a[0]
                return k[1] if isinstance(k, tuple) else -1
            if m in ("u", "v"):
                k = a[0].key() if isinstance(a[0], It) else a[0]
                return ("node", b.e[k[1]][0 if m == "u" else 1])
            if m in ("maxNodeId", "maxEdgeId"):
                return (b.n if m == "maxNodeId" else len(b.e)) - 1
            if m == "edgeFromId":
                return ("edge", a[0])
            if m in ("reserveNode", "reserveEdge"):
                return None
        if isinstance(b, EMap) and m == "set":
            b.v[a[0].key() if isinstance(a[0], It) else a[0]] = conv(a[1], b.t)
            return None
        if isinstance(b, Solver):
            if m == "run":
                return b.run()
            if m == "init":
                return None
            if m == "start":
                return b.run()
            if b.m is None:
                raise Bad("the matching is asked for before the solver ran")
            k = a[0].key() if a and isinstance(a[0], It) else (a[0] if a else None)
            if m == "matching" and k and k[0] == "edge":
                return frozenset(b.g.e[k[1]]) in b.m
            if m == "mate" and k and k[0] == "node":
                return next((("node", y) for p in b.m for x in p for y in p if x == k[1] and y != x), "INVALID")
            if m in ("matchingWeight",):
                return sum(b.w.v["edge", i] for i, e in enumerate(b.g.e) if frozenset(e) in b.m)
        if isinstance(b, Vec):
            if m in ("push_back", "emplace_back"):
                b.items.append(conv(a[0], b.t))
                return None
            if m == "size":
                return len(b.items)
            if m == "empty":
                return not b.items
            if m in ("reserve", "shrink_to_fit"):
                return None
            if m == "resize":
                b.items = (b.items + [conv(a[1] if len(a) > 1 else 0, b.t)] * a[0])[:a[0]]
                return None
            if m == "data" or m in ("begin", "cbegin"):
                return Ptr(b, 0)
            if m in ("end", "cend"):
                return Ptr(b, len(b.items))
            if m == "at":
                return ("elem", b, a[0])
            if m == "clear":
                b.items = []
                return None
            if m in ("front", "back"):
                return ("elem", b, 0 if m == "front" else len(b.items) - 1)
            if m in ("assign",):
                p, q = a
                if isinstance(p, Ptr) and isinstance(q, Ptr):
                    b.items = [conv(p.vec.at(i), b.t) for i in range(p.off, q.off)]
                else:
                    b.items = [conv(q, b.t)] * p
                return None
        if isinstance(b, Arr):
            if m == "ndim":
                return len(b.shape)
            if m == "size":
                return len(b.data.items)
            if m == "shape":
                if not a:
                    return Ptr(Vec("long", b.shape), 0)
                if not 0 <= a[0] < len(b.shape):
                    raise Thrown
                return b.shape[a[0]]
            if m in ("data", "mutable_data"):
                return Ptr(b.data, self.flat(b, a) if a else 0)
            if m == "itemsize":
                return SIZES[scalar(b.data.t)]
            if m == "nbytes":
                return SIZES[scalar(b.data.t)] * len(b.data.items)
            if m == "at":
                if len(a) != len(b.shape) or any(not 0 <= x < s for x, s in zip(a, b.shape)):
                    raise Thrown
                return ("elem", b.data, self.flat(b, a))
            if m in ("unchecked",):
                return b
        raise Unsup("method %s of %s" % (m, type(b).__name__))

    def e_CXXConstructExpr(self, n, c, env):
        t = qt(n)
        a = [self.rv(x, env) for x in c if x["kind"] != "CXXDefaultArgExpr"]
        return self.construct(t, a)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, a):
        t = t.replace("const ", "").strip()
        m = re.match(r"(?:std::)?vector<([\w: ]+?)(?:,.*)?>$", t)
        if m:
            el = m.group(1)
            if not a:
                return Vec(el)
            if len(a) == 1 and isinstance(a[0], Vec):
                return Vec(el, [conv(x, el) for x in a[0].items])
            if isinstance(a[0], Ptr) and len(a) > 1 and isinstance(a[1], Ptr):
                if a[0].vec is not a[1].vec:
                    raise Unsup("range of two objects")
                return Vec(el, [conv(a[0].vec.at(i), el) for i in range(a[0].off, a[1].off)])
            if isinstance(a[0], int):
                if a[0] < 0 or a[0] > 10 ** 6:
                    raise Bad("a vector of %d elements" % a[0])
                return Vec(el, [conv(a[1] if len(a) > 1 else 0, el)] * a[0])
        if re.search(r"EdgeIt$|NodeIt$", t):
            if len(a) == 1 and isinstance(a[0], LGraph):
                return It("edge" if t.endswith("EdgeIt") else "node", a[0])
            if len(a) == 1:
                return a[0]
        m = re.search(r"(?:Edge|Node)Map<([\w: ]+)>$", t)
        if m and a and isinstance(a[0], LGraph):
            w = EMap(a[0], m.group(1))
            if len(a) > 1:
                raise Unsup("map with an initial value")
            return w
        m = re.search(r"Max(?:Weighted)?(?:Perfect)?Matching", t)
        if m and len(a) == 2 and isinstance(a[0], LGraph) and isinstance(a[1], EMap):
            return Solver(a[0], a[1], m.group(0))
        if re.search(r"(ListGraph|SmartGraph)(Base)?>?$", t) and not a:
            return LGraph()
        if re.search(r"::(Edge|Node)$|Invalid$", t) and len(a) == 1:
            x = a[0]
            return x.key() if isinstance(x, It) else x
        if t.endswith("buffer_info"):
            if len(a) >= 6 and isinstance(a[0], Ptr):
                p, item, fmt, nd, shape, strides = a[:6]
                fmt = fmt[1] if isinstance(fmt, tuple) and fmt[0] == "fmt" else None
                if nd != len(shape.items) or nd != len(strides.items):
                    raise Bad("the buffer's dimensions disagree")
                if p.off:
                    raise Unsup("buffer offset")
                return ("buf", p.vec, item, shape.items, strides.items, fmt)
            raise Unsup("buffer_info")
        if re.search(r"(any_container|ShapeContainer|StridesContainer)", t) and len(a) == 1:
            return a[0]
        if re.search(r"\barray(_t)?\b", t):
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "buf":
                return Out(*a[0][1:])
            if len(a) == 1 and isinstance(a[0], (Out, Arr)):
                return a[0]
            if len(a) >= 2 and isinstance(a[0], Vec) and isinstance(a[-1], Ptr) and len(a) == 2:
                s = a[0].items
                it = SIZES.get(scalar(a[1].vec.t))
                st, k = [], it
                for x in reversed(s):
                    st.insert(0, k)
                    k *= x
                return Out(a[1].vec, it, s, st)
        if t in ("std::string", "std::basic_string<char>") and len(a) >= 1:
            return a[0]
        raise Unsup("construction of " + t)


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")

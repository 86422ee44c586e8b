"""Interprocedural gated value-flow analysis of a Python package.

The analyser walks the syntax tree of /repo's current source once per calling
context, computing for every expression a normalised value term
(:mod:`fpsa.terms`).  Both arms of an undecided branch are analysed and joined
with a gate (gated SSA); loops over unknown iterables are analysed once for a
generic element with loop-carried values abstracted to phi terms.  There is no
path enumeration, no constraint solver and no execution of repository code.
"""
import ast
import os
import builtins as _bi

from .terms import *
from . import terms as tm


class Deep(Exception):
    """A call that cannot be followed."""


class Vanished(Exception):
    """A public anchor of a property no longer exists."""


class Obj:
    __slots__ = ("id", "kind", "cls", "fields", "segs", "meta", "aloops", "aguard", "site", "summary", "epoch")

    def __init__(self, id, kind, cls=None, **kw):
        self.id, self.kind, self.cls = id, kind, cls
        self.fields, self.segs, self.meta = {}, (), {}
        self.aloops, self.aguard, self.site, self.summary, self.epoch = (), (), None, False, 0
        for k, v in kw.items():
            setattr(self, k, v)

    def clone(self):
        o = Obj(self.id, self.kind, self.cls)
        o.fields, o.segs, o.meta = dict(self.fields), self.segs, self.meta
        o.aloops, o.aguard, o.site, o.summary, o.epoch = self.aloops, self.aguard, self.site, self.summary, self.epoch
        return o


class Seg:
    """One contribution to a container: kind in elem/spread/set/del/xor/discard."""
    __slots__ = ("kind", "guard", "loops", "key", "val", "epoch", "site", "n")

    def __init__(self, kind, guard, loops, key, val, epoch=0, site=None, n=0):
        self.kind, self.guard, self.loops, self.key, self.val, self.epoch, self.site, self.n = kind, guard, loops, key, val, epoch, site, n

    def ident(self):
        return (self.kind, self.guard, self.loops, self.key, self.val)

    def __repr__(self):
        return "<%s%s %s=%s if %s>" % (self.kind, "[L%d]" % len(self.loops) if self.loops else "", self.key, self.val, list(self.guard))


class Event:
    __slots__ = ("kind", "root", "name", "key", "val", "guard", "loops", "site", "stack", "epoch", "n", "extra")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def where(self):
        return "%s:%s (%s)" % self.site

    def __repr__(self):
        return "<%s %s %s key=%s val=%s @%s>" % (self.kind, self.root, self.name, self.key, self.val, self.site)


class State:
    __slots__ = ("heap", "loc", "glob", "guard", "facts", "dead", "deadkind", "loops", "over")

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.loc = dict(self.loc)
        s.glob = dict(self.glob)
        s.over = dict(self.over)
        s.guard, s.facts, s.dead, s.deadkind, s.loops = self.guard, dict(self.facts), self.dead, self.deadkind, self.loops
        return s


class Frame:
    __slots__ = ("fn", "name", "module", "rets", "conts", "breaks", "closure", "raises", "eguard", "yields", "clsctx",
                 "selfv", "globs", "nonlocals", "live")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Func:
    __slots__ = ("node", "module", "qual", "cls", "defaults", "closure", "kind", "memo", "decos")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Cls:
    __slots__ = ("name", "module", "bases", "methods", "attrs", "node", "dataclass", "qual", "term")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Interp:
    strict = False
    MAXDEPTH = 60

    def __init__(self, repo="/repo", package="flamingpy", have_mpi=False):
        self.repo, self.package, self.have_mpi = repo, package, have_mpi
        self.nid = 0
        self.funcs = {}
        self.classes = {}
        self.events = []
        self.quiet = 0
        self.gversions = False          # reads of a graph's structure name the state of the graph they saw
        self.gclock = 0
        self.epoch = 0
        self.ndraw = 0
        self.frames = []
        self.modules = {}
        self.modsrc = {}
        self.cands = {}
        self.candcond = {}
        self.stats = {"functions": set(), "calls": 0, "external": {}, "opaque": {}, "stmts": 0}
        self.cur = None
        self.st = State()
        self.st.heap, self.st.loc, self.st.glob, self.st.guard, self.st.facts = {}, {}, {}, (), {}
        self.st.dead, self.st.deadkind, self.st.loops, self.st.over = False, None, (), {}
        self.summaries = {}
        self.phisegs = {}
        self.phidef = {}
        self.brkc = {}          # loop -> condition under which an iteration is the last one (break)
        self.firm, self.clash, self.sig = set(), set(), {}
        self.fuel = 4000000
        from .lib import Lib
        self.lib = Lib(self)

    # ------------------------------------------------------------ utilities
    def site(self):
        fr = self.frames[-1] if self.frames else None
        return (fr.module if fr else "?", getattr(self.cur, "lineno", 0), fr.name if fr else "?")

    def new(self, kind, cls=None, **kw):
        self.nid += 1
        o = Obj(self.nid, kind, cls, **kw)
        o.aloops, o.aguard, o.site, o.epoch = self.st.loops, self.st.guard, self.site(), self.epoch
        o.summary = bool(self.st.loops)
        self.st.heap[o.id] = o
        return mk("ref", o.id)

    def obj(self, t):
        if t.op == "ref":
            return self.st.heap.get(t.a[0])
        return None

    def wobj(self, t):
        o = self.st.heap[t.a[0]].clone()
        self.st.heap[t.a[0]] = o
        return o

    def emit(self, kind, root=None, name=None, key=None, val=None, extra=None):
        if self.quiet:
            return None
        e = Event(kind=kind, root=root, name=name, key=key, val=val, guard=self.st.guard, loops=self.st.loops,
                  site=self.site(), stack=tuple(f.name for f in self.frames), epoch=self.epoch, n=len(self.events), extra=extra)
        self.events.append(e)
        return e

    def opaque(self, what):
        if not self.quiet:
            self.stats["opaque"][what] = self.stats["opaque"].get(what, 0) + 1

    # ------------------------------------------------------------- modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = (os.path.join(self.repo, name), False) if name in self.virtual else self.module_path(name)
        if path is None:
            return None
        env = {}
        self.modules[name] = env
        src = self.virtual[name] if name in self.virtual else open(path, encoding="utf8").read()
        tree = ast.parse(src, path)
        self.modsrc[name] = (path, src, tree, ispkg)
        env["__name__"] = C(name)
        save = self.st, self.cur
        st = State()
        st.heap, st.loc, st.glob, st.guard, st.facts = self.st.heap, env, self.st.glob, (), {}
        st.dead, st.deadkind, st.loops, st.over = False, None, (), self.st.over
        self.st = st
        fr = Frame(fn=None, name="<module>", module=os.path.relpath(path, self.repo), rets=[], conts=[], breaks=[],
                   raises=[], eguard=(), globs=set(), nonlocals=set())
        fr.closure = None
        fr.clsctx = None
        self.frames.append(fr)
        fr.live = name
        self.quiet += 1
        self.modloading = getattr(self, "modloading", 0) + 1
        try:
            self.block(tree.body)
        finally:
            self.quiet -= 1
            self.modloading -= 1
            self.frames.pop()
            out = self.st
            self.st, self.cur = save
            self.st.heap = out.heap
            self.st.glob = out.glob
            self.st.over = out.over
        for k, v in out.loc.items():
            env[k] = v
        return env

    def modname(self, fr):
        p = fr.module[:-3].replace("/", ".")
        if p.endswith(".__init__"):
            p = p[:-9]
        return p

    def get(self, dotted, required=True):
        """Public anchor: 'flamingpy.noise.cv:CVLayer' -> term."""
        mod, _, name = dotted.partition(":")
        env = self.load_module(mod)
        if env is None:
            if required:
                raise Vanished("module %s" % mod)
            return None
        t = env.get(name)
        if t is None:
            if required:
                raise Vanished("%s in module %s" % (name, mod))
        return t

    def import_name(self, mod, name):
        """from mod import name"""
        if mod.split(".")[0] == self.package:
            env = self.load_module(mod)
            if env is not None and name in env:
                return env[name]
            sub = mod + "." + name
            if self.module_path(sub)[0]:
                self.load_module(sub)
                return mk("mod", sub)if False else mk("module", sub)
            return Ext(sub)
        return Ext(mod + "." + name)

    # ------------------------------------------------------------- facts
    def assume(self, c, val=True):
        f = self.st.facts
        if c.op == "c":
            return
        if c.op == "not":
            return self.assume(c.a[0], not val)
        if val and c.op == "and":
            for x in c.a:
                self.assume(x, True)
        elif not val and c.op == "or":
            for x in c.a:
                self.assume(x, False)
        f[c] = val

    def decide(self, c):
        if c.op == "c":
            return bool(c.a[0])
        f = self.st.facts
        if c in f:
            return f[c]
        if c.op == "not":
            d = self.decide(c.a[0])
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decide(x) for x in c.a]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        if c.op == "or":
            ds = [self.decide(x) for x in c.a]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return None
        if c.op == "eq" and isc(c.a[0]):
            for g, v in f.items():
                if v and g.op == "eq" and g.a[1] is c.a[1] and isc(g.a[0]) and g.a[0] is not c.a[0]:
                    return False
                if g.op == "truth" and g.a[0] is c.a[1]:
                    if v and not c.a[0].a[0]:
                        return False
                if v and g.op == "isinstance" and g.a[0] is c.a[1] and c.a[0] is NONE:
                    return False
        if c.op == "truth":
            for g, v in f.items():
                if v and g.op == "eq" and isc(g.a[0]) and g.a[1] is c.a[0]:
                    return bool(g.a[0].a[0])
        if c.op == "lt":
            r = f.get(mk("le", c.a[1], c.a[0]))
            if r is not None:
                return not r
            if f.get(mk("lt", c.a[1], c.a[0])):
                return False
        if c.op == "le":
            r = f.get(mk("lt", c.a[1], c.a[0]))
            if r is not None:
                return not r
        return None

    def simp(self, t):
        n = 0
        while t.op == "ite" and n < 50:
            d = self.decide(t.a[0])
            if d is None:
                break
            t = t.a[1] if d else t.a[2]
            n += 1
        return t

    # ------------------------------------------------------------- merging
    def merge(self, c, s1, s2, base):
        """Join of the then-state s1 (under c) and the else-state s2."""
        if s1.dead and s2.dead:
            out = s2
            out.dead = True
            return out
        if s1.dead or s2.dead:
            alive, dead, cc = (s2, s1, not_(c)) if s1.dead else (s1, s2, c)
            # the continuation is conditional unless the other arm only raised
            alive.guard = base.guard if dead.deadkind == "raise" else base.guard + (cc,)
            if cc is TRUE:
                alive.guard = base.guard
            return alive
        out = s2
        out.guard = base.guard
        out.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) is v}
        out.loc = self.merge_env(c, s1.loc, s2.loc)
        out.glob = self.merge_env(c, s1.glob, s2.glob)
        out.heap = self.merge_heap(c, s1.heap, s2.heap)
        out.over = self.merge_over(c, s1.over, s2.over)
        return out

    def merge_env(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            if x is y:
                out[k] = x
            elif isinstance(x, T) and isinstance(y, T):
                out[k] = ite(c, x, y)
            else:
                out[k] = y
        return out

    def merge_over(self, c, a, b):
        if a is b or not a and not b:
            return b
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            out[k] = self.merge_segs(a.get(k, ()), b.get(k, ()))
        return out

    def merge_segs(self, x, y):
        if x is y:
            return y
        n = 0
        while n < len(x) and n < len(y) and x[n] is y[n]:
            n += 1
        if n == len(x):
            return y
        if n == len(y):
            return x
        ids = {s.ident() for s in x[n:]}
        return x + tuple(s for s in y[n:] if s.ident() not in ids)

    def merge_heap(self, c, a, b):
        if a is b:
            return b
        out = dict(b)
        for k, x in a.items():
            y = b.get(k)
            if y is None:
                out[k] = x
            elif x is not y:
                out[k] = self.merge_obj(c, x, y)
        return out

    def merge_obj(self, c, x, y):
        o = y.clone()
        for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
            p, q = x.fields.get(k, UNDEF), y.fields.get(k, UNDEF)
            if p is q:
                continue
            if isinstance(p, tuple) or isinstance(q, tuple):
                o.fields[k] = self.merge_segs(p if isinstance(p, tuple) else (), q if isinstance(q, tuple) else ())
            else:
                o.fields[k] = ite(c, p, q)
        o.segs = self.merge_segs(x.segs, y.segs)
        if x.meta != y.meta:
            o.meta = {**y.meta, **x.meta}
        return o

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.st.dead:
                break
            self.stmt(s)

    def stmt(self, s):
        self.cur = s
        self.fuel -= 1
        if self.fuel < 0:
            raise RuntimeError("analysis budget exhausted")
        if not self.quiet:
            self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opaque("stmt " + type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == "mpi4py" and not self.have_mpi:
                self.raise_exc("ImportError", definite=True)
                return
            if top == self.package:
                self.load_module(a.name)
                self.bind_name(a.asname or top, mk("module", a.name if a.asname else top))
            else:
                self.bind_name(a.asname or top, Ext(a.name if a.asname else top))

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.modname(self.frames[-1]).split(".")
            ispkg = self.frames[-1].module.endswith("__init__.py")
            base = base[:len(base) - (s.level - (1 if ispkg else 0))]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] == "mpi4py" and not self.have_mpi:
            self.raise_exc("ImportError", definite=True)
            return
        for a in s.names:
            if a.name == "*":
                env = self.load_module(mod) or {}
                for k, v in list(env.items()):
                    if not k.startswith("_"):
                        self.bind_name(k, v)
                continue
            self.bind_name(a.asname or a.name, self.import_name(mod, a.name))

    def bind_name(self, n, v):
        fr = self.frames[-1]
        if n in (fr.globs or ()):
            self.set_global(self.modname(fr), n, v)
            return
        if n in (fr.nonlocals or ()):
            cl = fr.closure
            while cl is not None:
                if n in cl[0]:
                    cl[0][n] = v
                    return
                cl = cl[1]
        if n == "flamingpy":
            pass
        self.st.loc[n] = v

    def set_global(self, mod, n, v):
        key = (mod, n)
        self.emit("write_global", root=C(mod), name=n, val=v)
        self.st.glob[key] = v

    def lookup(self, n):
        fr = self.frames[-1]
        if n in self.st.loc and n not in (fr.globs or ()):
            v = self.simp(self.st.loc[n])
            if v is UNDEF or (v.op == "ite" and contains(v, lambda x: x is UNDEF)):
                v = self.undef_read("local", n, v)
            return v
        cl = fr.closure
        while cl is not None:
            if n in cl[0]:
                return self.simp(cl[0][n])
            cl = cl[1]
        mod = self.modname(fr)
        if (mod, n) in self.st.glob:
            v = self.st.glob[(mod, n)]
            self.emit("read_global", root=C(mod), name=n, val=v)
            return v
        env = self.modules.get(mod, {})
        if n in env:
            return env[n]
        if n in BUILTINS:
            return Ext("builtins." + n)
        if fr.fn is not None and n in self.localnames(fr.fn):
            return self.undef_read("local", n, UNDEF)
        self.emit("undef_name", name=n)
        return mk("unk", "name", n)

    _ln = {}

    def localnames(self, fn):
        node = fn.node
        if node not in self._ln:
            s = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.add(x.id)
            self._ln[node] = s
        return self._ln[node]

    def undef_read(self, what, n, v):
        """A read of a possibly unassigned variable/attribute; returns the defined part."""
        conds = []

        def strip(t, g):
            if t is UNDEF:
                conds.append(g)
                return None
            if t.op == "ite":
                a = strip(t.a[1], and_(g, t.a[0]))
                b = strip(t.a[2], and_(g, not_(t.a[0])))
                if a is None:
                    return b
                if b is None:
                    return a
                return ite(t.a[0], a, b)
            return t

        r = strip(v, TRUE)
        cond = or_(*conds) if conds else FALSE
        if cond is not FALSE:
            # contradicts what is known on this path?
            d = self.decide(cond)
            path = and_(*self.st.guard) if self.st.guard else TRUE
            facts = and_(*[k if val else not_(k) for k, val in list(self.st.facts.items())[:8]]) if self.st.facts else TRUE
            if d is not False and sat(and_(path, cond)) is not False and sat(and_(facts, cond)) is not False:
                self.emit("undef_read", name=n, val=cond, extra=what)
        return r if r is not None else mk("unk", "undef", n)

    def s_Global(self, s):
        self.frames[-1].globs = set(self.frames[-1].globs or ()) | set(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals = set(self.frames[-1].nonlocals or ()) | set(s.names)

    def s_Assign(self, s):
        v = self.ev(s.value)
        if self.st.dead:
            return
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_NamedExpr(self, s):
        self.ev(s)

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            if r is not None:
                w = self.lib.viewset(cur, lambda x: self.setitem(x, mk("slc", NONE, NONE, NONE), r)) if isinstance(cur, T) and cur in self.lib.views else None
                self.bind_name(t.id, self.getitem(*w) if w else r)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            cur = self.getattr(b, t.attr)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            if r is not None:
                self.setattr(b, t.attr, r)
        elif isinstance(t, ast.Subscript):
            b = self.arrbase(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(b, k)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            if r is not None:
                self.cur = s
                w = self.setitem(b, k, r)
                if isinstance(w, tuple) and isinstance(t.value, ast.Name):
                    self.bind_name(t.value.id, self.getitem(*w))

    def aug(self, op, cur, v):
        """In-place operator; returns the new value to bind (None: mutated in place, no rebinding needed)."""
        return self.lib.augop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.arrbase(t.value)
            k = self.ev_index(t.slice)
            w = self.setitem(b, k, v)
            if isinstance(w, tuple) and isinstance(t.value, ast.Name):
                self.bind_name(t.value.id, self.getitem(*w))
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    ARRAYS = ("vec", "poly", "matmul", "div", "transpose", "array", "ndw")

    virtual = {}    # module name -> source of a scenario snippet
    mhooks = {}     # (receiver symbol, method name) -> replacement
    drains = {}     # (while statement that empties a collection, its kind) -> the loop over it
    stubs = {}      # qualified function name -> replacement (an uninterpreted result)

    def arrbase(self, e):
        """Base of a subscript store; a fresh array value held by a variable becomes an array object."""
        b = self.simp(self.ev(e))
        if isinstance(e, (ast.Name, ast.Attribute)) and b.op in self.ARRAYS:
            r = self.lib.mknd(b)
            self.assign(e, r)
            return r
        return b

    def unpack(self, elts, v):
        v = self.simp(v)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        items = self.lib.exact_items(v)
        if items is not None and (len(items) == len(elts) or (star is not None and len(items) >= len(elts) - 1)):
            if star is None:
                for e, x in zip(elts, items):
                    self.assign(e, x)
            else:
                after = len(elts) - star - 1
                for e, x in zip(elts[:star], items[:star]):
                    self.assign(e, x)
                self.assign(elts[star], self.lib.mklist(items[star:len(items) - after]))
                for e, x in zip(elts[star + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x)
            return
        if v.op == "ite":
            # element-wise
            for i, e in enumerate(elts):
                self.assign(e, ite(v.a[0], self.getitem(v.a[1], C(i)), self.getitem(v.a[2], C(i))))
            return
        if star is not None and self.obj(v) is not None and self.obj(v).kind in ("set", "dict"):
            v = self.lib.fromiter("list", v)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                end = C(i + 1 - len(elts)) if i + 1 < len(elts) else NONE
                if v.op == "ref":
                    self.assign(e, self.getitem(v, mk("slc", C(i), end, NONE)))
                else:
                    self.assign(e, mk("slice", v, C(i), end, NONE))
            elif star is not None and i > star:
                self.assign(e, self.getitem(v, C(i - len(elts))))
            else:
                self.assign(e, self.getitem(v, C(i)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.setattr(b, t.attr, UNDEF)

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.assume(c, True)

    def truth(self, v):
        v = self.simp(v)
        return self.lib.truth(v)

    def cond(self, e):
        """Condition term of expression e (short-circuit aware)."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            save = self.st.facts
            self.st.facts = dict(save)
            cs = []
            for x in e.values:
                c = self.cond(x)
                d = self.decide(c)
                if d is not None and not isc(c):
                    c = C(d)
                cs.append(c)
                if c is (FALSE if isand else TRUE):
                    break
                self.assume(c, isand)
            self.st.facts = save
            return and_(*cs) if isand else or_(*cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        return self.truth(self.ev(e))

    def branch(self, c, then, other):
        """Run then() under c and other() under not c, and join."""
        d = self.decide(c)
        if d is True:
            return then()
        if d is False:
            return other()
        base = self.st
        s1 = base.fork()
        s2 = base.fork()
        self.st = s1
        s1.guard = base.guard + (c,)
        self.assume(c, True)
        r1 = then()
        s1 = self.st
        self.st = s2
        s2.guard = base.guard + (not_(c),)
        self.assume(c, False)
        r2 = other()
        s2 = self.st
        dead = s1.dead, s2.dead
        self.st = self.merge(c, s1, s2, base)
        if dead == (True, False):
            self.assume(c, False)
            return r2
        if dead == (False, True):
            self.assume(c, True)
            return r1
        if r1 is not None and r2 is not None:
            return ite(c, r1, r2)
        return r1 if r1 is not None else r2

    def s_If(self, s):
        c = self.cond(s.test)
        if self.st.dead:
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Match(self, s):
        v = self.ev(s.subject)

        def go(cases):
            if not cases:
                return None
            cs = cases[0]
            c, binds = self.pattern(cs.pattern, v)

            def then():
                for k, x in binds.items():
                    self.bind_name(k, x)
                if cs.guard is not None:
                    g = self.cond(cs.guard)
                    return self.branch(g, lambda: self.block(cs.body), lambda: go(cases[1:]))
                self.block(cs.body)
            return self.branch(c, then, lambda: go(cases[1:]))
        go(s.cases)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.lib.cmp("Eq", v, self.ev(p.value)), {}
        if isinstance(p, ast.MatchSingleton):
            return eq(v, C(p.value)), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ({p.name: v} if p.name else {})
            c, b = self.pattern(p.pattern, v)
            if p.name:
                b[p.name] = v
            return c, b
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, v)[0] for x in p.patterns]
            return or_(*cs), {}
        if isinstance(p, ast.MatchSequence):
            cs, bs = [], {}
            for i, x in enumerate(p.patterns):
                c, b = self.pattern(x, self.getitem(v, C(i)))
                cs.append(c)
                bs.update(b)
            return and_(*cs), bs
        return mk("truth", mk("unk", "pattern", id(p))), {}

    # exits -----------------------------------------------------------
    def kill(self, kind):
        self.st.dead = True
        self.st.deadkind = kind

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.st.dead:
            return
        self.frames[-1].rets.append((self.st.guard, v, self.st.fork()))
        self.kill("return")

    def s_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else NONE
        name = "Exception"
        if v.op == "ext":
            name = v.a[0].split(".")[-1]
        elif v.op == "excval":
            name = v.a[0]
        elif v.op == "cls":
            name = self.classes[v.a[0]].name
        elif v.op == "ref":
            o = self.obj(v)
            if o and o.cls is not None and o.cls.op == "cls":
                name = self.classes[o.cls.a[0]].name
        self.raise_exc(name)

    def raise_exc(self, name, definite=False):
        e = self.emit("raise", name=name)
        fr = self.frames[-1]
        fr.raises.append((name, self.st.guard, self.st.fork()))
        self.kill("raise")

    def s_Break(self, s):
        self.frames[-1].breaks[-1].append((self.st.guard, self.st.fork()))
        self.kill("break")

    def s_Continue(self, s):
        self.frames[-1].conts[-1].append((self.st.guard, self.st.fork()))
        self.kill("continue")

    def s_Try(self, s):
        fr = self.frames[-1]
        outer = fr.raises
        fr.raises = []
        pre = self.st.fork()
        self.trydepth = getattr(self, "trydepth", 0) + 1
        self.st = pre.fork()
        self.block(s.body)
        body = self.st
        caught, fr.raises = fr.raises, outer
        self.trydepth -= 1
        if not body.dead and s.orelse:
            self.block(s.orelse)
            body = self.st
        site = (fr.module, s.lineno)
        # implicit exceptions possible in the body
        alive = [(None, body)]
        handled = []
        imp = self.lib.may_raise(s.body)
        allcaught = list(caught)
        for h in s.handlers:
            names = self.exc_names(h.type)
            match = [r for r in allcaught if "*" in names or r[0] in names or "Exception" in names or "BaseException" in names
                     or (r[0] in ("KeyError", "IndexError") and "LookupError" in names)
                     or (r[0] == "ModuleNotFoundError" and "ImportError" in names)]
            allcaught = [r for r in allcaught if r not in match]
            if match:
                for (nm, g, st) in match:
                    rel = and_(*g[len(pre.guard):]) if len(g) > len(pre.guard) else TRUE
                    st = st.fork()
                    st.dead, st.deadkind = False, None
                    self.st = st
                    if h.name:
                        self.bind_name(h.name, mk("excval", nm))
                    self.block(h.body)
                    handled.append((rel, self.st))
            elif imp:
                atom = mk("exc", site[0], self.frames[-1].name, C(self.try_index(s)), C(",".join(sorted(names))))
                st = pre.fork()
                st.guard = pre.guard + (atom,)
                # effects of the body up to the exception are unknown: start from the state before it
                self.st = st
                self.assume(atom, True)
                if h.name:
                    self.bind_name(h.name, mk("excval", ",".join(sorted(names))))
                self.block(h.body)
                handled.append((atom, self.st))
        for r in allcaught:
            fr.raises.append(r)
        out = body
        for rel, st in handled:
            if rel is TRUE:
                out = st
            else:
                if out is body and not out.dead and rel.op == "exc":
                    pass
                base = pre
                if out.dead and st.dead:
                    continue
                if out.dead:
                    g = pre.guard + (rel,) if out.deadkind != "raise" else pre.guard
                    st.guard = g
                    out = st
                elif st.dead:
                    out.guard = pre.guard + (not_(rel),) if st.deadkind != "raise" else out.guard
                else:
                    out = self.merge(rel, st, out, base)
        self.st = out
        if s.finalbody:
            dead, dk = self.st.dead, self.st.deadkind
            self.st.dead = False
            self.block(s.finalbody)
            if not self.st.dead:
                self.st.dead, self.st.deadkind = dead, dk

    s_TryStar = s_Try

    def try_index(self, s):
        fn = self.frames[-1].fn
        body = fn.node if fn else None
        if body is None:
            return 0
        i = 0
        for x in ast.walk(body):
            if isinstance(x, ast.Try):
                if x is s:
                    return i
                i += 1
        return i

    def exc_names(self, t):
        if t is None:
            return {"*"}
        if isinstance(t, ast.Tuple):
            r = set()
            for x in t.elts:
                r |= self.exc_names(x)
            return r
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, ast.Attribute):
            return {t.attr}
        return {"*"}

    def s_With(self, s):
        ctx = []
        for it in s.items:
            v = self.ev(it.context_expr)
            ctx.append(v)
            ent = self.lib.enter(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent)
        self.block(s.body)
        dead, dk = self.st.dead, self.st.deadkind
        self.st.dead = False
        for v in reversed(ctx):
            self.emit("with_exit", root=v)
        self.st.dead, self.st.deadkind = dead, dk

    def s_FunctionDef(self, s):
        self.bind_name(s.name, self.mkfunc(s))

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, s, cls=None):
        fr = self.frames[-1]
        fid = len(self.funcs)
        ismod = fr.fn is None and not getattr(fr, "clsctx", None)
        qual = s.name if hasattr(s, "name") else "<lambda>"
        if cls is not None:
            qual = cls + "." + qual
        elif fr.fn is not None:
            qual = fr.name + ".<locals>." + qual
        args = s.args
        defaults = {}
        pos = args.posonlyargs + args.args
        for a, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[a.arg] = self.ev(d)
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                defaults[a.arg] = self.ev(d)
        closure = None
        if fr.fn is not None:
            closure = (self.st.loc, fr.closure)
        f = Func(node=s, module=fr.module, qual=qual, cls=cls, defaults=defaults, closure=closure, kind="function", memo=None, decos=[])
        self.funcs[fid] = f
        t = mk("fn", fid)
        for d in reversed(getattr(s, "decorator_list", [])):
            dt = self.ev(d)
            nm = dt.a[0] if dt.op == "ext" else (dt.a[0].a[0] if dt.op in ("call", "icall") and isinstance(dt.a[0], T) and dt.a[0].op == "ext" else None)
            base = (nm or "").split(".")[-1]
            if dt.op == "unk":
                base = ast.unparse(d)
            if base in ("property", "cached_property"):
                f.kind = base
            elif base in ("staticmethod", "classmethod"):
                f.kind = base
            elif base in ("lru_cache", "cache"):
                f.memo = True
            elif base in ("abstractmethod", "wraps", "overload", "contextmanager"):
                pass
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                f.kind = d.attr
            elif dt.op in ("fn", "bm"):
                t = self.call(dt, [t], {})
            else:
                f.decos.append(dt)
        return t

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        cid = len(self.classes)
        bases = [self.ev(b) for b in s.bases]
        c = Cls(name=s.name, module=fr.module, bases=bases, methods={}, attrs={}, node=s, dataclass=False, qual=s.name)
        self.classes[cid] = c
        c.term = mk("cls", cid)
        for d in s.decorator_list:
            dt = self.ev(d)
            if "dataclass" in show(dt) or "dataclass" in ast.unparse(d):
                c.dataclass = True
        save = self.st.loc
        self.st.loc = dict(save)
        before = dict(save)
        for b in s.body:
            self.cur = b
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                t = self.mkfunc(b, cls=s.name)
                if t.op == "fn" and self.funcs[t.a[0]].kind == "setter":
                    c.methods[b.name + "@setter"] = t
                else:
                    c.methods[b.name] = t
                self.st.loc[b.name] = t
            elif isinstance(b, ast.AnnAssign):
                if c.dataclass:
                    c.attrs.setdefault("@dc", []).append((b.target.id, self.ev(b.value) if b.value is not None else None))
                elif b.value is not None:
                    self.stmt(b)
            else:
                self.stmt(b)
        for k, v in self.st.loc.items():
            if before.get(k) is not v and k not in c.methods:
                c.attrs[k] = v
        self.st.loc = save
        self.bind_name(s.name, c.term)

    # -------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        if self.st.dead:
            return
        self.run_for(it, lambda x: self.assign(s.target, x), lambda: self.block(s.body),
                     (lambda: self.block(s.orelse)) if s.orelse else None, names=self.stored(s))

    def stored(self, s):
        out = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.NamedExpr):
                out.add(x.target.id)
        return out

    def run_for(self, it, bind, body, orelse=None, names=()):
        """Loop over the abstract iterable it."""
        alts = self.lib.iterate(it)
        fr = self.frames[-1]
        fr.breaks.append([])
        broke = []
        for alt in alts:
            # alt = (guard terms, loop terms, element term)
            if self.st.dead:
                break
            g, loops, elem = alt
            if not loops:
                def one():
                    fr.conts.append([])
                    bind(elem)
                    body()
                    self.join_conts(fr.conts.pop())
                if g:
                    c = and_(*g)
                    self.branch(c, one, lambda: None)
                else:
                    one()
                # a break in an unrolled iteration guards the remaining ones
                if fr.breaks[-1] and not self.st.dead:
                    pass
            else:
                self.generic_loop(g, loops, elem, bind, body, fr)
        brk = fr.breaks.pop()
        if orelse and not self.st.dead:
            orelse()
        self.join_breaks(brk)

    def join_conts(self, conts):
        for g, st in conts:
            self.join_exit(g, st)

    def join_exit(self, g, st):
        """Rejoin a continue/break state with the current state."""
        st = st.fork()
        st.dead, st.deadkind = False, None
        cur = self.st
        if cur.dead:
            n = min(len(st.guard), len(cur.guard))
            self.st = st
            # path condition of the joined state: common prefix with the dead one
            i = 0
            while i < n and st.guard[i] is cur.guard[i]:
                i += 1
            # keep the extra guards of the surviving state: it is the only way here
            # (if the dead arm returned); otherwise they are dropped
            if cur.deadkind in ("continue", "break"):
                pass
            return
        i = 0
        while i < len(st.guard) and i < len(cur.guard) and st.guard[i] is cur.guard[i]:
            i += 1
        c = and_(*st.guard[i:]) if len(st.guard) > i else TRUE
        # the current state carries the complementary guard: drop it
        base = State()
        base.guard = st.guard[:i]
        m = self.merge(c, st, cur, base)
        m.guard = st.guard[:i]
        self.st = m

    def join_breaks(self, brk):
        for g, st in brk:
            self.join_exit(g, st)

    def snap(self):
        st = self.st
        return dict(st.loc), st.heap, dict(st.glob), st.over

    def generic_loop(self, g, loops, elem, bind, body, fr, cond=None):
        st0 = self.st
        base_guard, base_loops, base_facts = st0.guard, st0.loops, dict(st0.facts)
        # dry passes: find loop-carried variables/fields; loops of the same range that break differently are told apart by a tag
        sig0, tag = self.sig, 0
        while True:
            lk = mk("lk", tuple(loops), tuple(g), *((tag,) if tag else ()))
            phis, phif, dirty, fams = {}, {}, set(), {}
            for _ in range(4):
                self.st, self.sig = st0.fork(), dict(sig0)
                self.st.loops = base_loops + tuple(loops)
                self.st.guard = base_guard + tuple(g)
                for x in g:
                    self.assume(x, True)
                self.apply_fams(fams, dirty)
                self.apply_phis(phis, phif, dirty, lk)
                pre = self.st.fork()
                self.quiet += 1
                nd, nid = self.ndraw, self.nid
                nr, nx = len(fr.rets), len(fr.raises)
                fr.conts.append([])
                sb = list(fr.breaks[-1])
                try:
                    if cond is not None:
                        c = cond()
                        self.assume(c, True)
                        self.st.guard = self.st.guard + (c,)
                    bind(elem)
                    body()
                    self.join_conts(fr.conts.pop())
                    brk = fr.breaks[-1][len(sb):]
                    fr.breaks[-1][:] = sb
                finally:
                    self.quiet -= 1
                    self.ndraw = nd
                post = self.st
                outs = [post] if not post.dead else []
                del fr.rets[nr:]
                del fr.raises[nx:]
                self.nid = max(nid, self.nid)
                new = False
                for o in outs:
                    for k, v in o.loc.items():
                        if k in pre.loc and pre.loc[k] is not v and k not in phis and isinstance(v, T):
                            phis[k] = mk("phi", lk, k)
                            new = True
                    for oid, ob in o.heap.items():
                        pb = pre.heap.get(oid)
                        if pb is None or pb is ob:
                            continue
                        if "fam" in ob.meta and "fam" not in pb.meta or "fambad" in ob.meta and "fambad" not in pb.meta:
                            fams[oid] = ob.meta["fam"], o.heap[ob.meta["fam"][1].a[0]], "fam" not in pb.meta or oid in fams, "fambad" in ob.meta
                            new = True
                        for f, v in ob.fields.items():
                            if isinstance(v, tuple):
                                if pb.fields.get(f) is not v and (oid, f) not in dirty:
                                    dirty.add((oid, f))
                                    new = True
                            elif pb.fields.get(f) is not v and (oid, f) not in phif:
                                if isinstance(f, str) and f in pb.fields:
                                    phif[(oid, f)] = mk("phi", lk, "#%s.%s" % (oid, f))
                                    new = True
                        if ob.segs is not pb.segs and (oid, None) not in dirty:
                            dirty.add((oid, None))
                            new = True
                    for k, v in o.glob.items():
                        pv = pre.glob.get(k)
                        if pv is not None and pv is not v and ("g", k) not in phif and isinstance(v, T):
                            phif[("g", k)] = mk("phi", lk, "glob:%s.%s" % k)
                            new = True
                if not new:
                    break
            self.sig = sig0
            now = self.carries(st0, post, brk, phis, phif, len(base_guard))
            was = self.sig.get(lk, now)
            if was == now or was[0] is FALSE and now[0] is FALSE or tag > 11:
                break
            tag += 1
        # final pass
        init_loc = dict(st0.loc)
        st = st0.fork()
        self.st = st
        init = {}
        for (oid, f) in phif:
            if oid == "g":
                init[(oid, f)] = st.glob.get(f, UNDEF)
            else:
                init[(oid, f)] = st.heap[oid].fields.get(f, UNDEF)
        st.loops = base_loops + tuple(loops)
        st.guard = base_guard + tuple(g)
        for x in g:
            self.assume(x, True)
        self.apply_fams(fams, dirty)
        self.apply_phis(phis, phif, dirty, lk)
        ev0 = len(self.events)
        nr = len(fr.rets)
        nb = len(fr.breaks[-1])
        fr.conts.append([])
        wcond = TRUE
        if cond is not None:
            wcond = cond()
            self.assume(wcond, True)
            self.st.guard = self.st.guard + (wcond,)
        bind(elem)
        body()
        self.join_conts(fr.conts.pop())
        brk = fr.breaks[-1][nb:]
        del fr.breaks[-1][nb:]
        rets = fr.rets[nr:]
        del fr.rets[nr:]
        end = self.st
        bl = len(base_guard)

        def rel(gd):
            return and_(*gd[bl:]) if len(gd) > bl else TRUE
        bconds = [rel(x[0]) for x in brk]
        rconds = [rel(x[0]) for x in rets]
        if end.dead and not brk and not rets:
            # every path through the body raised/returned: zero-iteration state continues
            self.st = st0.fork() if not (end.deadkind == "raise") else st0.fork()
            self.st.facts = base_facts
            return
        # events of later iterations happen only if no earlier break/return
        stop = or_(*(bconds + rconds)) if (bconds or rconds) else FALSE
        if stop is not FALSE:
            mark = mk("not", mk("stopped", lk, stop))
            for e in self.events[ev0:]:
                e.guard = e.guard[:bl] + (mark,) + e.guard[bl:]
            self.mark_segs(st0, end if not end.dead else None, [x[1] for x in brk] + [x[2] for x in rets], bl, mark)
        # values after the loop
        exits = []
        if not end.dead:
            exits.append((TRUE, end))
        out = end if not end.dead else (brk[0][1].fork() if brk else st0.fork())
        out = out.fork()
        out.dead, out.deadkind = False, None
        for gd, bst in brk:
            if bst is not out and not end.dead:
                c = mk("anyiter", lk, rel(gd))
                tmpbase = State()
                tmpbase.guard = base_guard
                b2 = bst.fork()
                b2.dead = False
                out = self.merge(c, b2, out, tmpbase)
        self.st = out
        out.loops, out.guard, out.facts = base_loops, base_guard, base_facts
        allphi = {}
        for k in list(out.loc):
            v = out.loc[k]
            if k in phis:
                out.loc[k] = self.lout(lk, init_loc.get(k, UNDEF), phis[k], v)
                allphi[phis[k]] = out.loc[k]
            elif k not in init_loc and isinstance(v, T):
                out.loc[k] = self.lastval(lk, v)
            elif init_loc.get(k) is not v and isinstance(v, T):
                out.loc[k] = self.lout(lk, init_loc.get(k, UNDEF), mk("phi", lk, k), v)
        for (oid, f), ph in phif.items():
            if oid == "g":
                out.glob[f] = self.lout(lk, init[(oid, f)], ph, out.glob.get(f, UNDEF))
            else:
                o = out.heap[oid].clone()
                o.fields[f] = self.lout(lk, init[(oid, f)], ph, o.fields.get(f, UNDEF))
                out.heap[oid] = o
        for (oid, f) in dirty:
            o = out.heap.get(oid)
            if o is None:
                continue
            o = o.clone()
            b = st0.heap.get(oid)
            if f is None:
                o.segs = tuple(s for s in o.segs if not (s.kind == "phi" and s.key is lk))
                now, was = o.segs, (b.segs if b is not None else ())
            else:
                o.fields[f] = tuple(s for s in o.fields[f] if not (s.kind == "phi" and s.key is lk))
                now, was = o.fields[f], (b.fields.get(f, ()) if b is not None else ())
            out.heap[oid] = o
            olds = set(map(id, was))
            self.phisegs[(lk, oid, f)] = tuple(self.lib.segt(s) for s in now if id(s) not in olds)
        bc, defs = self.carries(st0, end, brk, phis, phif, bl)
        self.sig[lk] = bc, defs
        self.define(self.brkc, lk, bc)
        for ph, d in defs.items():
            self.define(self.phidef, ph, d)
        # returns from inside the loop
        if rets:
            for gd, v, rst in rets:
                c = mk("anyiter", lk, rel(gd))
                rst = rst.fork()
                rst.guard = base_guard + (c,)
                rst.loops = base_loops
                fr.rets.append((base_guard + (c,), self.firstval(lk, rel(gd), v), rst))
            allc = or_(*[mk("anyiter", lk, c) for c in rconds])
            if end.dead and end.deadkind == "return" and not brk:
                # the body always returns in its first iteration; falls through only if empty
                self.st = st0.fork()
                self.st.facts = base_facts
            self.st.guard = base_guard + (not_(allc),)
            self.assume(allc, False)

    def carries(self, st0, end, brk, phis, phif, bl):
        """(condition to break, {loop-carried value: (before the loop, after an iteration)})."""
        conds = [and_(*x[0][bl:]) if len(x[0]) > bl else TRUE for x in brk]
        defs = {ph: (st0.loc.get(k, UNDEF), end.loc.get(k, UNDEF) if not end.dead else UNDEF) for k, ph in phis.items()}
        for (oid, f), ph in phif.items():
            if oid != "g":
                o0 = st0.heap.get(oid)
                defs[ph] = o0.fields.get(f, UNDEF) if o0 is not None else UNDEF, end.heap[oid].fields.get(f, UNDEF) if oid in end.heap else UNDEF
        return or_(*conds) if conds else FALSE, defs

    def define(self, table, key, val):
        """Record what a loop term stands for; two loops that share the term make it ambiguous."""
        if not self.quiet:
            if key in self.firm and table.get(key) != val:
                self.clash.add(key)
            self.firm.add(key)
        table[key] = val

    def mark_segs(self, st0, end, others, bl, mark):
        """Container writes of a loop body that may stop early happen only before the stop."""
        def fix(segs, old):
            olds = set(map(id, old))
            out = []
            for s in segs:
                if id(s) in olds or s.kind == "phi" or mark in s.guard or not s.loops:
                    out.append(s)
                else:
                    out.append(Seg(s.kind, (mark,) + tuple(s.guard), s.loops, s.key, s.val, s.epoch, s.site, s.n))
            return tuple(out)
        for stt in ([end] if end is not None else []) + others:
            for oid, o in list(stt.heap.items()):
                b = st0.heap.get(oid)
                if b is o:
                    continue
                n = None
                bs = b.segs if b is not None else ()
                if o.segs is not bs and b is not None:
                    n = o.clone()
                    n.segs = fix(o.segs, bs)
                for f, v in o.fields.items():
                    if isinstance(v, tuple):
                        bv = b.fields.get(f, ()) if b is not None else ()
                        if v is not bv and b is not None:
                            n = n or o.clone()
                            n.fields[f] = fix(v, bv if isinstance(bv, tuple) else ())
                if n is not None:
                    stt.heap[oid] = n
            for k, v in list(stt.over.items()):
                bv = st0.over.get(k, ())
                if v is not bv:
                    stt.over[k] = fix(v, bv)



    def apply_fams(self, fams, dirty):
        """Families of containers that come into being in the loop exist in its later iterations."""
        for oid, (fam, c, fresh, bad) in fams.items():
            o = self.st.heap[oid].clone()
            o.meta = {**o.meta, "fam": fam, **({"fambad": True} if bad else {})}
            self.st.heap[oid] = o
            if not fresh:
                continue
            n = c.clone()
            n.segs, n.fields = (), {}
            self.st.heap[c.id] = n
            dirty.add((c.id, None))

    def apply_phis(self, phis, phif, dirty, lk):
        for k, p in phis.items():
            self.st.loc[k] = p
        for (oid, f), p in phif.items():
            if oid == "g":
                self.st.glob[f] = p
            else:
                o = self.st.heap[oid].clone()
                o.fields[f] = p
                self.st.heap[oid] = o
        for (oid, f) in dirty:
            o = self.st.heap[oid].clone()
            m = Seg("phi", (), (), lk, mk("phiof", oid, f))
            if f is None:
                o.segs = o.segs + (m,)
            else:
                o.fields[f] = tuple(o.fields.get(f, ())) + (m,)
            self.st.heap[oid] = o

    def lastval(self, lk, v):
        if contains(v, lambda x: x.op == "elem"):
            if v.op in ("ref",):
                return v
            return mk("last", lk, v)
        return v

    def firstval(self, lk, c, v):
        if contains(v, lambda x: x.op in ("elem", "phi")):
            return mk("first", lk, c, v)
        return v

    def lout(self, lk, init, phi, upd):
        if upd is phi:
            return init
        if not isinstance(init, T):
            return upd
        if upd is init:
            return init
        uses = contains(upd, lambda x: x is phi)
        if uses and init.op == "ref" and self.lib.kind(init) == "nd":
            init = self.lib.val(init)
        if not uses:
            if init is UNDEF:
                return self.lastval(lk, upd)
            return mk("lout", lk, init, upd)
        # reductions
        if upd.op == "poly":
            p = dict(upd.a[0])
            m = ((phi, 1),)
            if p.get(m) == 1:
                rest = tm._frompoly({k: c for k, c in p.items() if k != m})
                if not contains(rest, lambda x: x is phi):
                    return add(init, self.redlk("sum", lk, rest))
        if upd.op == "xor" and phi in upd.a:
            rest = xor(*[x for x in upd.a if x is not phi])
            if not contains(rest, lambda x: x is phi):
                return xor(init, self.redlk("xorsum", lk, rest))
        if upd.op == "and" and phi in upd.a:
            rest = and_(*[x for x in upd.a if x is not phi])
            if not contains(rest, lambda x: x is phi):
                return and_(init, not_(mk("anyiter", lk, not_(rest))))
        if upd.op == "or" and phi in upd.a:
            rest = or_(*[x for x in upd.a if x is not phi])
            if not contains(rest, lambda x: x is phi):
                return or_(init, mk("anyiter", lk, rest))
        if upd.op == "mod" and upd.a[0].op == "poly" and upd.a[1] is C(2):
            p = dict(upd.a[0].a[0])
            m = ((phi, 1),)
            if p.get(m) == 1:
                rest = tm._frompoly({k: c for k, c in p.items() if k != m})
                if not contains(rest, lambda x: x is phi):
                    return mod(add(init, self.redlk("sum", lk, rest)), C(2))
        if upd.op == "ite":
            # conditional accumulation: phi + e under c
            c, a, b = upd.a
            if not contains(c, lambda x: x is phi):
                if b is phi:
                    r = self.lout(lk, init, phi, a)
                    if r.op == "poly" or r.op == "sum" or r.op == "xor" or r.op == "xorsum":
                        return self.guard_red(lk, init, phi, c, a)
                if a is phi:
                    return self.lout(lk, init, phi, ite(not_(c), b, a)) if False else self.guard_red(lk, init, phi, not_(c), b)
                d = sub(a, phi)
                e = sub(b, phi)
                if not contains(d, lambda x: x is phi) and not contains(e, lambda x: x is phi) and (a.op == "poly" or b.op == "poly" or b is phi):
                    return add(init, self.redlk("sum", lk, ite(c, d, e)))
        return mk("lout", lk, init, phi, upd)

    def red(self, op, loops, val):
        """Reduction (sum / xorsum) of val over loops, with nested reductions flattened."""
        if not loops:
            return val
        if val is C(0):
            return val
        if val.op == "ite" and val.a[2] is C(0) and val.a[1].op == op:
            inner = val.a[1]
            return mk(op, tuple(loops) + tuple(inner.a[0]), ite(val.a[0], inner.a[1], C(0)))
        if val.op == op:
            return mk(op, tuple(loops) + tuple(val.a[0]), val.a[1])
        return mk(op, tuple(loops), val)

    def redlk(self, op, lk, val):
        g = and_(*lk.a[1]) if lk.a[1] else TRUE
        return self.red(op, lk.a[0], ite(g, val, C(0)) if g is not TRUE else val)

    def guard_red(self, lk, init, phi, c, a):
        if a.op == "poly":
            d = sub(a, phi)
            if not contains(d, lambda x: x is phi):
                return add(init, self.redlk("sum", lk, ite(c, d, C(0))))
        if a.op == "xor" and phi in a.a:
            rest = xor(*[x for x in a.a if x is not phi])
            if not contains(rest, lambda x: x is phi):
                return xor(init, self.redlk("xorsum", lk, ite(c, rest, C(0))))
        return mk("lout", lk, init, phi, ite(c, a, phi))

    def drain(self, s):
        """A loop that takes the entries of a dictionary or the elements of a set one by one until none is left, as (loop, what follows)."""
        def bare(t):
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
                return t.args[0]
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0 \
                    and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.left, ast.Call):
                return bare(t.left)
            return t
        x = bare(s.test)
        if not isinstance(x, (ast.Name, ast.Attribute)) or not s.body or s.orelse or not isinstance(s.body[0], ast.Assign) or len(s.body[0].targets) != 1:
            return None
        c, text = s.body[0].value, ast.unparse(x)
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) == text and not c.args and not c.keywords):
            return None
        for b in ast.walk(s):
            if isinstance(b, ast.Break) or isinstance(b, (ast.Name, ast.Attribute)) and ast.unparse(b) == text and b is not x and b is not c.func.value:
                return None
        v = self.ev(x)
        o = self.obj(v) if v.op == "ref" else None
        if o is None or (o.kind, c.func.attr) not in (("dict", "popitem"), ("set", "pop")):
            return None
        if (s, o.kind) in self.drains:
            return self.drains[s, o.kind]
        src = "reversed(list(%s.items()))" % text if o.kind == "dict" else "list(%s)" % text
        loop = ast.For(target=s.body[0].targets[0], iter=ast.parse(src, mode="eval").body, body=s.body[1:] or [ast.Pass()], orelse=[], type_comment=None)
        after = ast.parse("%s.clear()" % text).body[0]
        for z in (loop, after):
            for w in ast.walk(z):
                if "lineno" in w._attributes and not hasattr(w, "lineno"):
                    ast.copy_location(w, s)
        self.drains[s, o.kind] = [ast.copy_location(loop, s), ast.copy_location(after, s)]
        return self.drains[s, o.kind]

    def s_While(self, s):
        fr = self.frames[-1]
        d = self.drain(s)
        if d:
            self.block(d)
            return
        # constant-bounded while loops are not unrolled; a generic iteration is analysed
        fr.breaks.append([])
        c0 = self.cond(s.test)
        if c0 is FALSE:
            fr.breaks.pop()
            self.block(s.orelse)
            return
        sym = mk("while", fr.module, fr.name, C(self.while_index(s)), C(sum(1 for l in self.st.loops if l.op == "loop" and l.a[1].op == "while")))
        loop = mk("loop", mk("elem", sym, 0), sym)
        isconst = c0 is TRUE and isinstance(s.test, ast.Constant)
        cond = None if isconst else (lambda: self.cond(s.test))
        self.generic_loop((), (loop,), NONE, lambda x: None, lambda: self.block(s.body), fr, cond=cond)
        brk = fr.breaks.pop()
        if not self.st.dead and not isconst:
            c = self.cond(s.test)
            # after the loop the condition is false
            if c.op != "c":
                self.assume(c, False)
        self.block(s.orelse)
        self.join_breaks(brk)

    def while_index(self, s):
        fn = self.frames[-1].fn
        i = 0
        if fn:
            for x in ast.walk(fn.node):
                if isinstance(x, ast.While):
                    if x is s:
                        return i
                    i += 1
        return i

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.opaque("expr " + type(e).__name__)
            return mk("unk", "expr", type(e).__name__)
        if hasattr(e, "lineno"):
            self.cur = e
        return m(e)

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        self.cur = e
        return self.getattr(b, e.attr)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        k = self.ev_index(e.slice)
        self.cur = e
        return self.getitem(b, k)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x) if x is not None else NONE
            return mk("slc", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.ev_index(x) for x in s.elts])
        return self.ev(s)

    def e_Slice(self, s):
        return self.ev_index(s)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                items = self.lib.exact_items(v)
                if items is None:
                    # unknown number of elements
                    l = self.lib.mklist([])
                    for y in e.elts:
                        if isinstance(y, ast.Starred):
                            self.lib.list_extend(l, self.ev(y.value))
                        else:
                            self.lib.list_append(l, self.ev(y))
                    return mk("tupleof", l)
                out += items
            else:
                out.append(self.ev(x))
        return mk("tuple", *out)

    def e_List(self, e):
        l = self.lib.mklist([])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.lib.list_extend(l, self.ev(x.value), quiet=True)
            else:
                v = self.ev(x)
                self.lib.list_append(l, v, quiet=True)
        return l

    def e_Set(self, e):
        l = self.lib.mkset([])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.lib.list_extend(l, self.ev(x.value), quiet=True)
            else:
                self.lib.list_append(l, self.ev(x), quiet=True)
        return l

    def e_Dict(self, e):
        d = self.lib.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(d, self.ev(v), quiet=True)
            else:
                kk = self.ev(k)
                vv = self.ev(v)
                self.lib.dict_set(d, kk, vv, quiet=True)
        return d

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.cur = e
        return self.lib.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            return self.lib.unary_neg(v)
        if isinstance(e.op, ast.Invert):
            return self.lib.invert(v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        return self.boolchain(v, e.values[1:], isand)

    def boolchain(self, v, rest, isand):
        if not rest:
            return v
        c = self.truth(v)
        d = self.decide(c)
        nxt = lambda: self.boolchain(self.ev(rest[0]), rest[1:], isand)
        if d is True:
            return nxt() if isand else v
        if d is False:
            return v if isand else nxt()
        if isand:
            r = self.branch(c, nxt, lambda: v)
        else:
            r = self.branch(c, lambda: v, nxt)
        return r

    def e_Compare(self, e):
        left = self.ev(e.left)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            self.cur = e
            cs.append(self.lib.cmp(type(op).__name__, left, rv))
            left = rv
        if len(cs) == 1:
            return cs[0]
        return and_(*[self.truth(c) for c in cs])

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind_name(e.target.id, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.ev(x.value)
                spec = None
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec)
                parts.append(self.lib.fmt(v, spec, x.conversion))
        return cat(*parts)

    def e_FormattedValue(self, e):
        return self.lib.fmt(self.ev(e.value), None, e.conversion)

    def e_Lambda(self, e):
        return self.mkfunc(e)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.yields is not None:
            self.lib.list_append(fr.yields, v, quiet=True)
        return mk("unk", "sent")

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.lib.list_extend(fr.yields, v, quiet=True)
        return NONE

    def comp(self, e, kind):
        res = self.lib.mkdict() if kind == "dict" else (self.lib.mkset([]) if kind == "set" else self.lib.mklist([]))
        save = dict(self.st.loc)

        def go(gens):
            if not gens:
                if kind == "dict":
                    k = self.ev(e.key)
                    v = self.ev(e.value)
                    self.lib.dict_set(res, k, v, quiet=True)
                else:
                    self.lib.list_append(res, self.ev(e.elt), quiet=True)
                return
            g = gens[0]
            it = self.ev(g.iter)

            def body():
                def cont(ifs):
                    if not ifs:
                        return go(gens[1:])
                    c = self.cond(ifs[0])
                    self.branch(c, lambda: cont(ifs[1:]), lambda: None)
                cont(g.ifs)
            self.run_for(it, lambda x: self.assign(g.target, x), body)
        go(e.generators)
        names = set()
        for g in e.generators:
            names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for n in names:
            if n in save:
                self.st.loc[n] = save[n]
            else:
                self.st.loc.pop(n, None)
        return res

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        t = self.comp(e, "list")
        o = self.wobj(t)
        o.meta = {**o.meta, "gen": True}
        return t

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    # ----------------------------------------------------------- call
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) \
                and e.func.value.func.id == "super":
            f = self.lib.super_attr(e.func.attr)
        elif isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return self.lib.envdict(e.func.id)
        else:
            f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.lib.exact_items(v)
                if items is None:
                    args.append(mk("star", v))
                else:
                    args += items
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                items = self.lib.exact_dict(v)
                if items is None:
                    kw["**"] = v
                    for kk, vv in self.lib.const_entries(v).items():
                        kw.setdefault(kk, vv)
                else:
                    for kk, vv in items:
                        kw[kk] = vv
            else:
                kw[k.arg] = v
        if self.st.dead:
            return mk("unk", "dead")
        self.cur = e
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.simp(f)
        self.stats["calls"] += 0 if self.quiet else 1
        if f.op == "fn":
            return self.call_func(f, None, args, kw)
        if f.op == "bm":
            return self.call_func(f.a[1], f.a[0], args, kw)
        if f.op == "cls":
            return self.instantiate(f, args, kw)
        if f.op == "ite":
            site = self.cur

            def go(x):
                def run():
                    self.cur = site
                    return self.call(x, list(args), dict(kw))
                return run
            return self.branch(f.a[0], go(f.a[1]), go(f.a[2]))
        if f.op == "call" and f.a[0].op == "ext" and f.a[0].a[0] == "numpy.vectorize" and len(f.a) == 2 and len(args) == 1 and not kw:
            v = S("?vz%d" % f.id)
            return mk("vmap", v, self.lib.val(self.call(f.a[1], [v], {})), self.lib.val(args[0]))
        return self.lib.call(f, args, kw)

    def call_func(self, ft, selfv, args, kw):
        if ft.op != "fn":
            if ft.op == "ext" or ft.op == "bm" or ft.op == "cls":
                return self.call(ft, ([selfv] if selfv is not None else []) + list(args), kw)
            return self.lib.call(ft, args, kw)
        fn = self.funcs[ft.a[0]]
        if selfv is not None and fn.kind != "staticmethod":
            args = [selfv] + list(args)
        node = fn.node
        name = fn.qual
        if sum(1 for f in self.frames if f.fn is fn) >= 2 or len(self.frames) > self.MAXDEPTH:
            if self.strict:
                raise Deep("recursion of %s" % name)       # its effects would be lost
            self.emit("recursion", name=name, val=mk("tuple", *args))
            return mk("rec", name, *args)
        if not self.quiet:
            self.stats["functions"].add("%s:%s" % (fn.module, name))
        if name in self.stubs:
            return self.stubs[name](args, kw)
        if fn.memo:
            key = ("memo", ft.a[0])
            mt = mk("tuple", *args, *[v for _, v in sorted(kw.items())])
            ent = self.st.glob.get(key, ())
            for k, v, ep in ent:
                if k is mt:
                    if ep != self.epoch:
                        self.emit("memo_hit", name=name, val=v, extra=ep)
                    return v
            r = self.call_body(ft, fn, args, kw)
            self.emit("write_memo", name=name, val=r)
            self.st.glob[key] = self.st.glob.get(key, ()) + ((mt, r, self.epoch),)
            return r
        return self.call_body(ft, fn, args, kw)

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        star = [x for x in args if x.op == "star"]
        kw = dict(kw)
        extra_kw = kw.pop("**", None)
        i = 0
        unknown = None
        for p in pos:
            if i < len(args):
                if args[i].op == "star":
                    unknown = args[i].a[0]
                    env[p] = self.getitem(unknown, C(0))
                    taken = 1
                    i = len(args)
                    continue
                env[p] = args[i]
                i += 1
            elif p in kw:
                env[p] = kw.pop(p)
            elif unknown is not None:
                env[p] = self.getitem(unknown, C(taken))
                taken += 1
            elif p in fn.defaults:
                env[p] = fn.defaults[p]
                if extra_kw is not None:
                    env[p] = self.lib.dict_get(extra_kw, C(p), fn.defaults[p])
            elif extra_kw is not None:
                env[p] = self.getitem(extra_kw, C(p))
            else:
                self.emit("missing_arg", name=fn.qual, key=C(p))
                env[p] = mk("unk", "arg", p)
        if a.vararg:
            rest = args[i:]
            if any(x.op == "star" for x in rest):
                l = self.lib.mklist([])
                for x in rest:
                    if x.op == "star":
                        self.lib.list_extend(l, x.a[0], quiet=True)
                    else:
                        self.lib.list_append(l, x, quiet=True)
                env[a.vararg.arg] = l
            else:
                env[a.vararg.arg] = mk("tuple", *rest)
        elif i < len(args) and args[i].op != "star":
            self.emit("extra_arg", name=fn.qual, val=mk("tuple", *args[i:]))
        for x in a.kwonlyargs:
            p = x.arg
            if p in kw:
                env[p] = kw.pop(p)
            elif p in fn.defaults:
                env[p] = fn.defaults[p]
                if extra_kw is not None:
                    env[p] = self.lib.dict_get(extra_kw, C(p), fn.defaults[p])
            elif extra_kw is not None:
                env[p] = self.getitem(extra_kw, C(p))
            else:
                self.emit("missing_arg", name=fn.qual, key=C(p))
                env[p] = mk("unk", "arg", p)
        if a.kwarg:
            d = self.lib.mkdict()
            if extra_kw is not None:
                self.lib.dict_update(d, extra_kw, quiet=True)
                o = self.wobj(d)
                o.meta = {**o.meta, "without": tuple(env)}
            for k, v in kw.items():
                self.lib.dict_set(d, C(k), v, quiet=True)
            env[a.kwarg.arg] = d
        elif kw:
            self.emit("extra_kw", name=fn.qual, val=mk("tuple", *[C(k) for k in kw]))
        return env

    def call_body(self, ft, fn, args, kw):
        caller_loc = self.st.loc
        caller_guard, caller_facts, caller_loops = self.st.guard, self.st.facts, self.st.loops
        cur = self.cur
        env = self.bind_args(fn, args, kw)
        fr = Frame(fn=fn, name=fn.qual, module=fn.module, rets=[], conts=[], breaks=[], raises=[], closure=fn.closure,
                   eguard=caller_guard, clsctx=fn.cls, globs=set(), nonlocals=set())
        fr.selfv = args[0] if args else None
        isgen = not isinstance(fn.node, ast.Lambda) and self.isgen(fn.node)
        if isgen:
            fr.yields = self.lib.mklist([])
        self.frames.append(fr)
        self.st.loc = env
        self.st.facts = dict(caller_facts)
        if not self.quiet:
            self.emit("enter", name=fn.qual, val=mk("tuple", *args))
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body)
                if not self.st.dead:
                    fr.rets.append((self.st.guard, v, self.st.fork()))
            else:
                self.block(fn.node.body)
                if not self.st.dead:
                    fr.rets.append((self.st.guard, NONE, self.st))
        finally:
            self.frames.pop()
        self.cur = cur
        if fr.raises and self.frames:
            n = len(caller_guard)
            for (nm, g, st) in fr.raises:
                st.loc = caller_loc
                self.frames[-1].raises.append((nm, g, st))
        if not fr.rets:
            # raises (or never returns) on every path
            self.st.loc = caller_loc
            self.st.guard, self.st.loops = caller_guard, caller_loops
            self.st.facts = caller_facts
            self.st.dead, self.st.deadkind = True, "raise"
            return mk("unk", "noreturn")
        n = len(caller_guard)
        rets = fr.rets
        g, v, st = rets[-1]
        st = st.fork()
        res = v
        for g, v, s in reversed(rets[:-1]):
            c = and_(*g[n:]) if len(g) > n else TRUE
            res = ite(c, v, res)
            base = State()
            base.guard = caller_guard
            s = s.fork()
            s.dead = False
            st.dead = False
            fa = st.facts
            st = self.merge(c, s, st, base)
        st.dead, st.deadkind = False, None
        st.loc = caller_loc
        st.guard, st.loops = caller_guard, caller_loops
        # facts: keep the caller's plus what surviving returns agree on
        keep = dict(caller_facts)
        if len(rets) == 1:
            for k, val in rets[0][2].facts.items():
                keep.setdefault(k, val)
            # a function that returns on a conditional path only (others raise)
            extra = [x for x in rets[0][0][n:]]
            for x in extra:
                pass
        st.facts = keep
        self.st = st
        if isgen:
            o = self.wobj(fr.yields)
            o.meta = {**o.meta, "gen": True}
            return fr.yields
        return res

    _ig = {}

    def isgen(self, node):
        if node not in self._ig:
            def has(n):
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(x, (ast.Yield, ast.YieldFrom)) or has(x):
                        return True
                return False
            self._ig[node] = has(node)
        return self._ig[node]

    # ------------------------------------------------------------ classes
    def mro(self, ct):
        """Linearised repository classes followed by external base terms."""
        out, ext = [], []

        def go(t):
            if t.op == "cls":
                if t not in out:
                    out.append(t)
                    for b in self.classes[t.a[0]].bases:
                        go(b)
            else:
                if t not in ext:
                    ext.append(t)
        go(ct)
        return out, ext

    def find_method(self, ct, name, after=None):
        out, ext = self.mro(ct)
        if after is not None:
            i = next((i for i, c in enumerate(out) if self.classes[c.a[0]].name == after), -1)
            out = out[i + 1:]
        for c in out:
            cl = self.classes[c.a[0]]
            if name in cl.methods:
                return cl.methods[name], c
            if name in cl.attrs:
                return cl.attrs[name], c
        return None, None

    def isa(self, ct, name):
        out, ext = self.mro(ct)
        return any(self.classes[c.a[0]].name == name for c in out) or any(
            e.op == "ext" and (e.a[0] == name or e.a[0].split(".")[-1] == name) for e in ext)

    def instantiate(self, ct, args, kw):
        cl = self.classes[ct.a[0]]
        t = self.new("inst", ct)
        self.emit("new", root=t, name=cl.name, val=mk("tuple", *args))
        out, ext = self.mro(ct)
        for e in ext:
            self.lib.init_ext(t, e)
        init, owner = self.find_method(ct, "__init__")
        if any(e.op == "ext" and e.a[0].split(".")[-1] in ("Exception", "ValueError", "TypeError", "RuntimeError", "KeyError") for e in ext):
            return mk("excval", cl.name)
        if any(e.op == "ext" and e.a[0] in ("typing.NamedTuple",) for e in ext):
            init = None
        if init is None:
            dcs = []
            for c in reversed(out):
                dcs += self.classes[c.a[0]].attrs.get("@dc", [])
            if dcs:
                args = list(args)
                for i, (n, dflt) in enumerate(dcs):
                    if i < len(args):
                        v = args[i]
                    elif n in kw:
                        v = kw[n]
                    elif dflt is not None:
                        v = self.lib.dc_default(dflt)
                    else:
                        v = mk("unk", "arg", n)
                    o = self.wobj(t)
                    o.fields[n] = v
                pi, _ = self.find_method(ct, "__post_init__")
                if pi is not None:
                    self.call_func(pi, t, [], {})
            else:
                for e in ext:
                    self.lib.init_ext_call(t, e, args, kw)
        else:
            self.call_func(init, t, args, kw)
        return t

    # -------------------------------------------------------- attributes
    def resolve(self, t, depth=0):
        """Heap objects a term may denote (bounded worklist over aliases)."""
        out, seen, todo = [], set(), [(t, 0)]
        phidef = getattr(self, "phidef", {})
        while todo and len(seen) < 400:
            x, d = todo.pop(0)
            if not isinstance(x, T) or x in seen or d > 12:
                continue
            seen.add(x)
            if x.op == "ref":
                if x.a[0] in self.st.heap:
                    out.append(x)
            elif x.op == "ite":
                todo += [(x.a[1], d + 1), (x.a[2], d + 1)]
            elif x.op == "any":
                todo += [(y, d + 1) for y in x.a]
            elif x.op in ("lout", "last", "first"):
                todo += [(y, d + 1) for y in x.a[1:] if isinstance(y, T)]
            elif x.op == "phi":
                todo += [(y, d + 1) for y in (phidef.get(x) or ())]
            else:
                todo += [(y, d + 1) for y in (self.cands.get(x) or ())]
        return out

    @staticmethod
    def _u(xs):
        out = []
        for x in xs:
            if x not in out:
                out.append(x)
        return out

    def getattr(self, b, name):
        b = self.simp(b)
        return self.lib.getattr(b, name)

    def setattr(self, b, name, v):
        b = self.simp(b)
        return self.lib.setattr(b, name, v)

    def getitem(self, b, k):
        return self.lib.getitem(self.simp(b), self.simp(k))

    def setitem(self, b, k, v):
        return self.lib.setitem(self.simp(b), self.simp(k), v)


BUILTINS = set(dir(_bi))

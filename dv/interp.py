"""Symbolic interpreter for the Python subset of /repo: paths are explored by re-execution, every operation that could
raise is a proof obligation (or an exception path), loops are cut by invariants or summarised exactly, calls use the
callee's contract when it has one and its body otherwise."""
import ast, os, sys, time
from fractions import Fraction
import z3
from .core import *
from . import core

REPO = os.environ.get("DV_REPO", "/repo")
sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- python-level values
class ModuleV:
    def __init__(self, eng, name, path):
        self.name, self.path, self.eng, self.g = name, path, eng, {}
        self.ispkg = path.endswith("__init__.py")
        src = open(path).read()
        self.tree = ast.parse(src)
        self.defs = {}
        for st in self.tree.body: self._collect(st)
    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)): self.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names: self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name != "*": self.defs[a.asname or a.name] = ("from", st.module, st.level, a.name)
            if any(a.name == "*" for a in st.names): self.defs.setdefault("*", []).append((st.module, st.level))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name): self.defs[t.id] = ("assign", st.value)
        elif isinstance(st, ast.Try):
            for s in st.body: self._collect(s)
    def absname(self, mod, level):
        if level == 0: return mod
        parts = self.name.split(".")
        base = parts if self.ispkg else parts[:-1]
        base = base[:len(base) - (level - 1)]
        return ".".join(base + ([mod] if mod else []))
    def get(self, name):
        if name in self.g: return self.g[name]
        d = self.defs.get(name)
        if d is None:
            for m, lv in self.defs.get("*", []) or []:
                mm = self.eng.module(self.absname(m, lv))
                if isinstance(mm, ModuleV):
                    v = mm.get(name)
                    if v is not None: self.g[name] = v; return v
            return None
        if isinstance(d, (ast.FunctionDef, ast.ClassDef)) and d.decorator_list: raise Unsupported("decorated %s" % name)
        if isinstance(d, ast.FunctionDef): v = FuncV(d, self, None, d.name)
        elif isinstance(d, ast.ClassDef): v = ClassV(self.eng, d, self)
        elif d[0] == "import": v = self.eng.module(d[1])
        elif d[0] == "from":
            base = self.eng.module(self.absname(d[1], d[2]))
            if base is self or (self.name, name) in self.eng.importing: v = None          # `from . import x`: the submodule
            else:
                self.eng.importing.add((self.name, name))
                try: v = base.get(d[3]) if isinstance(base, ModuleV) else self.eng.ext(base.name + "." + d[3])
                finally: self.eng.importing.discard((self.name, name))
            if v is None: v = self.eng.module(self.absname(d[1], d[2]) + "." + d[3])
        elif d[0] == "assign": v = self.eng.with_frame(Frame(None, self), lambda: self.eng.eval(d[1]))
        self.g[name] = v
        return v
    def __repr__(self): return "module %s" % self.name


TYPE_NAMES = {"list", "tuple", "dict", "set", "int", "str", "float", "bool", "numpy.ndarray"}


class ExtV:
    """something outside the repository, named by its dotted path; calls need a model"""
    def __init__(self, name): self.name = name
    def __repr__(self): return "ext %s" % self.name


class FuncV:
    def __init__(self, node, module, closure, qual, cls=None, defaults=None):
        self.node, self.module, self.closure, self.qual, self.cls = node, module, closure, qual, cls
        self.defaults = defaults
    @property
    def name(self): return "%s:%s" % (self.module.name, self.qual)
    def __repr__(self): return "func %s" % self.name


class BoundM:
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn


class MethodV:
    """a method of a builtin container"""
    def __init__(self, obj, name): self.obj, self.name = obj, name


class UserFn:
    """an arbitrary user-supplied callable: handler(engine, args, kwargs)"""
    def __init__(self, name, handler): self.name, self.handler = name, handler


class EnumV:
    def __init__(self, cls, name): self.cls, self.name = cls, name
    def __repr__(self): return "%s.%s" % (self.cls, self.name)


class ClassV:
    def __init__(self, eng, node, module):
        self.eng, self.node, self.module, self.name = eng, node, module, node.name
        self.m, self.props, self.setters, self.statics, self.attrs = {}, {}, {}, set(), {}
        self.bases = []
        self.enum = False
        self.enums = {}
        for b in node.bases:
            if isinstance(b, ast.Name):
                bv = module.get(b.id)
                if isinstance(bv, ClassV): self.bases.append(bv)
                if isinstance(bv, ExtV) and bv.name == "enum.Enum": self.enum = True
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                decs = [ast.unparse(d) for d in st.decorator_list]
                f = FuncV(st, module, None, "%s.%s" % (self.name, st.name), self)
                if "property" in decs: self.props[st.name] = f
                elif any(d.endswith(".setter") for d in decs):
                    f.qual += ".setter"; self.setters[st.name] = f
                else:
                    self.m[st.name] = f
                    if "staticmethod" in decs: self.statics.add(st.name)
                    elif any(d not in ("abstractmethod",) for d in decs): raise Unsupported("decorator %s" % decs)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                self.attrs[st.targets[0].id] = st.value
    def mro(self):
        yield self
        for b in self.bases: yield from b.mro()
    def find(self, table, name):
        for c in self.mro():
            t = getattr(c, table)
            if name in t: return t[name], c
        return None, None
    def __repr__(self): return "class %s" % self.name


class Frame:
    def __init__(self, func, module, parent=None):
        self.func, self.module, self.parent, self.vars = func, module, parent, {}
        self.loops = 0
        self.ncell0 = None
        self.nonlocals = set()
        self.cond = {}


class PyExc(Exception):
    def __init__(self, etype, msg=None): self.etype, self.msg = etype, msg
    def __str__(self): return "%s(%s)" % (self.etype, self.msg)


class _Gone: pass
GONE = _Gone()


class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Cont(Exception): pass
class PathEnd(Exception): pass


class Poison:
    """the value of a variable that may not be read here (set in an earlier iteration, or in a summarised loop)"""
    def __init__(self, key): self.key = key


class NeedHead(Exception):
    def __init__(self, key): self.key = key


EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
               "TypeError": "Exception", "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError",
               "ArithmeticError": "Exception", "AttributeError": "Exception", "StatisticsError": "ValueError",
               "StopIteration": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError"}


def exc_is(a, b):
    a = a.split(".")[-1]; b = b.split(".")[-1]
    while a:
        if a == b or b == "BaseException": return True
        a = EXC_PARENTS.get(a)
    return False


class Dec:
    def __init__(self, log): self.log, self.pos, self.replay = log, 0, len(log)


class Obl:
    __slots__ = ("unit", "name", "pc", "goal", "kind", "where", "status", "time", "backend", "model", "path")
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))


class Engine:
    UNROLL = 24

    def __init__(self, contracts=None, invariants=None, models=None):
        self.modules = {}
        self.contracts = contracts or {}
        self.invariants = invariants or {}
        from . import builtins as B
        self.B = B
        self.pend = []
        self.obls = []
        self.unit = "?"
        self.loop_of, self.extc, self.used_ext = {}, {}, set()
        self.used_contracts, self.verified_funcs, self.inlined, self.trusted_used = set(), set(), set(), set()
        self.inv_used = set()
        self.heads = {}
        self.deadline = None
        self.ext_models = {}
        self.models = models or {}
        self.opaque_attrs = False
        self.attr_sort = usort("Val")
        self.reset()

    # ------------------------------------------------------------ state
    def reset(self):
        NAMES.n = 0
        self.store, self.forward, self.shared, self.events = {}, {}, [], []
        self.nev = 0
        self.ncell = 0
        self.pc = []            # (tag, term): g guard, f fact
        self.frames = []        # call stack
        self.allframes = []
        self.writes = None
        self.oplog = None
        self.importing = set()
        self.handlers = []      # exception types caught around here / allowed by the unit
        self.zattrs = {}        # attributes of opaque values: (sort, name) -> function
        self.decs = []
        self.quiet = 0

    def snapshot(self):
        return (dict(self.store), dict(self.forward), list(self.shared), list(self.events), self.nev, list(self.pc), list(self.frames),
                [(f, dict(f.vars), f.loops) for f in self.allframes], list(self.handlers),
                None if self.writes is None else set(self.writes), None if self.oplog is None else list(self.oplog))

    def restore(self, s):
        self.store, self.forward, self.shared, self.events, self.nev = dict(s[0]), dict(s[1]), list(s[2]), list(s[3]), s[4]
        self.pc, self.frames = list(s[5]), list(s[6])
        self.allframes = [f for f, _, _ in s[7]]
        for f, v, l in s[7]: f.vars, f.loops = dict(v), l
        self.handlers = list(s[8])
        self.writes = None if s[9] is None else set(s[9])
        self.oplog = None if s[10] is None else list(s[10])

    # ------------------------------------------------------------ logic
    def assume(self, c, tag="f"):
        c = conc(c)
        if c is True: return
        if c is False: raise PathEnd("false")
        if z3.is_and(c):
            for x in c.children(): self.assume(x, tag)
            return
        self.pc.append((tag, c))

    def asked(self, what, facts, c, fn):
        """the answer to a query, once per query: replays of a path ask the same ones"""
        memo = self.__dict__.setdefault("memo_q", {})
        key = (what, tuple(x.get_id() for x in facts), c.get_id())
        hit = memo.get(key)
        if hit is None: hit = memo[key] = (facts, c, fn())        # (keeps the terms alive: their ids are not reused)
        return hit[2]

    def qf(self): return [c for _, c in self.pc if not _has_q(c)]

    def feasible(self, c):
        if self.deadline and cpu() > self.deadline: raise Unsupported("time limit")
        def go():
            s = z3.Solver(); step_limit(s, 0.4)
            for x in facts: s.add(x)
            s.add(c)
            return s.check() != z3.unsat
        facts = self.qf()
        return self.asked("feasible", facts, zb(c), go)

    def entails(self, c, timeout=1500):
        c = conc(c)
        if isinstance(c, bool): return c
        def go():
            s = z3.Solver(); step_limit(s, timeout / 1000)
            for x in facts: s.add(x)
            s.add(z3.Not(c))
            return s.check() == z3.unsat
        facts = self.qf()
        return self.asked("entails", facts, c, go)

    def entails_all(self, vs, c):
        """c for all values of the (fresh) constants vs, using quantified facts too"""
        c = conc(c)
        if isinstance(c, bool): return c
        def go():
            s = z3.Solver(); step_limit(s, 0.15 if getattr(self, "discovering", 0) else 0.6)
            for x in facts: s.add(x)
            s.add(z3.Not(c))
            return s.check() == z3.unsat
        facts = [x for _, x in self.pc]
        return self.asked("entails_all", facts, c, go)

    def pure_pop(self, o, t, k, c, default):
        """d.pop(k, default) without splitting the path when the result is not used by the caller"""
        if self.branch(c):
            v = self.get(self.getitem(o, k))
            self.delitem(o, k)
            return self.new(v) if self.is_mut(v) else v
        return default

    def branch(self, c):
        c = conc(c)
        if isinstance(c, bool): return c
        d = self.decs[-1]
        if d.pos < len(d.log): ch = d.log[d.pos][0]; d.pos += 1
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f: raise PathEnd("dead")
            ch = t
            d.log.append([ch, t and f]); d.pos += 1
        self.pc.append(("g", c if ch else z3.simplify(z3.Not(c))))
        return ch

    def choose(self, n):
        d = self.decs[-1]
        if d.pos < len(d.log): ch = d.log[d.pos][0]; d.pos += 1
        else:
            d.log.append([0, n - 1]); d.pos += 1; ch = 0
        return ch

    @staticmethod
    def backtrack(log):
        while log:
            ch, more = log[-1]
            if isinstance(ch, bool):
                if more: log[-1] = [not ch, False]; return True
            elif more: log[-1] = [ch + 1, more - 1]; return True
            log.pop()
        return False

    def replaying(self): return any(d.pos < d.replay for d in self.decs)

    def oblige(self, name, goal, kind="post"):
        goal = conc(goal)
        if self.quiet or self.replaying(): return
        if goal is True:
            self.obls.append(Obl(unit=self.unit, name=name, pc=[], goal=True, kind=kind, status="proved", time=0.0,
                                 backend="simplifier", where=self.where()))
            return
        if z3.is_expr(goal) and z3.is_and(goal) :
            for i, x in enumerate(goal.children()): self.oblige("%s/%d" % (name, i), x, kind)
            return
        self.obls.append(Obl(unit=self.unit, name=name, pc=[c for _, c in self.pc], goal=zb(goal), kind=kind, where=self.where()))

    def where(self):
        return "%s:%s" % (self.frames[-1].func.name if self.frames and self.frames[-1].func else "?", getattr(self, "line", "?"))

    def guard(self, ok, etype, what):
        """the operation is defined only if ok; otherwise Python raises etype"""
        ok = conc(ok)
        if ok is True: return
        if any(exc_is(etype, h) for hs in self.handlers for h in hs):
            if not self.branch(ok): raise PyExc(etype, what)
            return
        if ok is False:
            self.oblige("no %s: %s" % (etype, what), False, "safe")
            raise PathEnd("raises")
        self.oblige("no %s: %s" % (etype, what), ok, "safe")
        self.assume(ok)

    # ------------------------------------------------------------ sub-exploration
    def sub(self, fn, limit=400):
        """explore fn from the current state; returns [(new pc entries, ('val',v)|('exc',e)|('brk',)|('cont',)|('ret',v), snapshot)]"""
        base = self.snapshot()
        nb = len(self.pc)
        log, out = [], []
        while True:
            self.restore(base)
            self.decs.append(Dec(log))
            try:
                try: r = ("val", fn())
                except PyExc as e: r = ("exc", e)
                except _Break: r = ("brk",)
                except _Cont: r = ("cont",)
                except _Ret as e: r = ("ret", e.v)
                out.append((self.pc[nb:], r, self.snapshot()))
            except PathEnd: pass
            finally: self.decs.pop()
            if len(out) > limit: raise Unsupported("too many paths")
            if not self.backtrack(log): break
        self.restore(base)
        return out

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules: return self.modules[name]
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(p + ".py"): m = ModuleV(self, name, p + ".py")
        elif os.path.isfile(os.path.join(p, "__init__.py")): m = ModuleV(self, name, os.path.join(p, "__init__.py"))
        else: m = ExtV(name)
        self.modules[name] = m
        return m

    def ext(self, name): return ExtV(name)

    def func(self, spec):
        """'netomaton.state:Network.add_edge' -> FuncV"""
        mod, q = spec.split(":")
        m = self.module(mod)
        if isinstance(m, ExtV): raise Unsupported("module %s is gone" % mod)
        parts = q.split(".")
        v = m.get(parts[0])
        if v is None: raise Unsupported("%s is gone" % spec)
        for p in parts[1:]:
            if p == "setter": continue
            for table in (("setters",) if parts[-1] == "setter" else ("m", "props")):
                f, _ = v.find(table, p)
                if f: break
            if not f: raise Unsupported("%s is gone" % spec)
            v = f
        return v

    # ------------------------------------------------------------ heap
    def new(self, val, hint=""):
        self.ncell += 1
        c = "c%d%s" % (self.ncell, hint)
        self.store[c] = val
        return Ref(c, (), self.nev)

    def root(self, r):
        n = 0
        while r.cell in self.forward:
            f = self.forward[r.cell]
            r = Ref(f.cell, f.path + r.path, max(r.stamp, f.stamp)); n += 1
            if n > 50: raise Unsupported("alias cycle")
        return r

    def check_valid(self, r):
        for ev in self.events:
            if ev[0] == r.cell and ev[2] > r.stamp and len(ev[1]) < len(r.path) + (1 if ev[3] else 0):
                if _may_prefix(ev[1], r.path, ev[3]): raise Unsupported("use of a nested container after its place was overwritten")

    def get(self, v):
        """the value tree behind a reference (other values unchanged)"""
        if not isinstance(v, Ref): return v
        r = self.root(v)
        self.check_valid(r)
        t = self.store[r.cell]
        if t is GONE: raise Unsupported("a container that was stored away in the last iteration of a loop")
        for p in r.path: t = self.child(t, p)
        return t

    def child(self, t, p):
        tag, k = p
        if tag == "i":
            if isinstance(t, tuple) and not is_z(k): return t[k]
            return (t if isinstance(t, SeqV) else cseq(t)).at(k)
        if tag == "k":
            if isinstance(t, CMapV):
                if core._conc_key(k): return t.d[k]
                t = to_map(t)
            return t.val(k)
        if isinstance(t, OptV): t = t.v
        return t.f[k]

    def put(self, ref, val, shape=False):
        """replace the value at ref"""
        r = self.root(ref)
        self.check_valid(r)
        if self.store[r.cell] is GONE: raise Unsupported("a container that was stored away in the last iteration of a loop")
        for c, p in self.shared:
            if c == r.cell and _may_prefix(p, r.path, False): raise Unsupported("mutation of a container that is stored in two places")
        if self.writes is not None: self.writes.add(("cell", r.cell))
        def go(t, path):
            if not path: return val
            (tag, k), rest = path[0], path[1:]
            new = go(self.child(t, (tag, k)), rest)
            if tag == "i" and isinstance(t, tuple):
                if is_z(k): raise Unsupported("place in a tuple")
                return t[:k] + (new,) + t[k + 1:]
            if tag == "i": return seq_set(t, k, new)
            if tag == "k":
                if isinstance(t, CMapV) and core._conc_key(k): d = dict(t.d); d[k] = new; return CMapV(d, t.rest)
                t = to_map(t)
                return MapV(t.n, t.key, t.has, t.pos, lambda x, t=t: ite(eqv(x, k), new, t.val(x)), t.kty, None)
            if isinstance(t, OptV): t = t.v
            f = dict(t.f); f[k] = new
            return RecV(t.cls, f)
        self.store[r.cell] = go(self.store[r.cell], r.path)
        if shape:
            self.nev += 1
            self.events.append((r.cell, r.path, self.nev, True))

    def child_path(self, t, path):
        for p in path: t = self.child(t, p)
        return t

    def truth_pure(self, e):
        """truth of a loop condition, evaluated without committing to anything"""
        snap = self.snapshot(); nob = len(self.obls); q = self.quiet
        self.quiet += 1
        try:
            out = self.sub(lambda: self.truth(self.eval(e)))
            vs = [r[1] for pc, r, st in out if r[0] == "val"]
            if len(out) == 1 and len(vs) == 1: return vs[0]
            return z3.Bool("unknown!")
        finally:
            self.quiet = q; self.restore(snap); del self.obls[nob:]

    def inv_for(self, st):
        f = self.frames[-1].func
        return self.invariants.get(f.name, []) if f else []

    def log(self, ref, op, *a):
        if self.oplog is not None:
            r = self.root(ref)
            self.oplog.append((r.cell, r.path, op) + a)

    def freeze(self, v):
        """the immutable value of v (references replaced by what they hold, and marked so that later mutation is refused)"""
        if isinstance(v, Ref):
            r = self.root(v)
            self.shared.append((r.cell, r.path))
            return self.get(r)
        if isinstance(v, tuple): return tuple(self.freeze(x) for x in v)
        if isinstance(v, OptV) and isinstance(v.v, Ref): return OptV(v.none, _inner(self.freeze(v.v)))
        return v

    def peek(self, v):
        """the immutable value of v now, without any effect on aliasing (for specifications)"""
        if isinstance(v, Ref): return self.get(v)
        if isinstance(v, tuple): return tuple(self.peek(x) for x in v)
        if isinstance(v, OptV) and isinstance(v.v, Ref): return OptV(v.none, _inner(self.get(v.v)))
        return v

    def place(self, loc, v):
        """called after v's value was put at loc: later uses of v go to loc (or v is an alias: both become read-only)"""
        if isinstance(v, Ref):
            r = self.root(v)
            if r.path == () and r.cell not in self.forward and not any(s[0] == r.cell and s[1] == () for s in self.shared):
                l = self.root(loc)
                if l.cell == r.cell: raise Unsupported("container stored in itself")
                self.forward[r.cell] = Ref(l.cell, l.path, self.nev)
            else:
                l = self.root(loc)
                self.shared.append((r.cell, r.path)); self.shared.append((l.cell, l.path))
        elif isinstance(v, tuple):
            for j, x in enumerate(v): self.place(Ref(loc.cell, loc.path + (("i", j),), loc.stamp), x)
        elif isinstance(v, OptV) and isinstance(v.v, Ref):
            self.freeze(v.v)
            l = self.root(loc)
            self.shared.append((l.cell, l.path))

    def _imm(self, v):
        if isinstance(v, Ref): return self.get(v)
        if isinstance(v, tuple): return tuple(self._imm(x) for x in v)
        if isinstance(v, OptV) and isinstance(v.v, Ref): return OptV(v.none, _inner(self.get(v.v)))
        return v

    def is_mut(self, v):
        """does this value tree stand for a mutable Python object?"""
        return isinstance(v, (MapV, CMapV, RecV, SetV, AttrV)) or (isinstance(v, SeqV) and v.kind in ("list", "nd"))

    def at_path(self, ref, p, val):
        """a child of a container behind ref: a reference if the child is itself mutable"""
        if ref is not None and self.is_mut(val):
            r = self.root(ref)
            return Ref(r.cell, r.path + (p,), self.nev)
        if ref is not None and isinstance(val, OptV) and self.is_mut(val.v):
            return OptV(val.none, self.at_path(ref, p, val.v))
        if ref is not None and isinstance(val, tuple) and any(self.is_mut(x) or isinstance(x, (tuple, OptV)) for x in val):
            r = self.root(ref)
            here = Ref(r.cell, r.path + (p,), self.nev)
            return tuple(self.at_path(here, ("i", j), x) for j, x in enumerate(val))
        return val

    # ------------------------------------------------------------ names
    def with_frame(self, fr, fn):
        self.frames.append(fr); self.allframes.append(fr)
        try: return fn()
        finally: self.frames.pop()

    def lookup(self, name):
        fr = f = self.frames[-1]
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison): raise NeedHead(v.key)
                return v
            f = f.parent
        if fr.module is not None:
            v = fr.module.get(name)
            if v is not None: return v
        if name in self.B.BUILTINS: return ExtV(name)
        raise Unsupported("name %s" % name)

    def setvar(self, name, v):
        f = self.frames[-1]
        if name in f.nonlocals:
            g = f.parent
            while g is not None and name not in g.vars: g = g.parent
            f = g
        f.vars[name] = v
        if self.writes is not None: self.writes.add(("var", id(f), name))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, str): return len(v) > 0
        if is_z(v):
            s = v.sort()
            if s == z3.BoolSort(): return v
            if s in (z3.IntSort(), z3.RealSort()): return conc(v != 0)
            return z3.Function("truthy:%s" % s.name(), s, z3.BoolSort())(v)
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, OptV):
            return And(Not(v.none), self.truth(v.v))
        if isinstance(v, Ref):
            t = self.get(v)
            if isinstance(t, RecV):
                for nm in ("__bool__", "__len__"):
                    m = t.cls.find("m", nm)[0] if isinstance(t.cls, ClassV) else None
                    if m: return self.truth(self.call(BoundM(v, m), [], {}))
                return True
            return self.truth(t)
        if isinstance(v, (SeqV, MapV, SetV, CMapV)):
            n = length(v)
            return n > 0 if not is_z(n) else conc(n > 0)
        if isinstance(v, RecV): return True
        if isinstance(v, (FuncV, BoundM, UserFn, ClassV, EnumV, MethodV, ExtV, ModuleV)): return True
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        if hasattr(e, "lineno"): self.line = e.lineno
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float): return Fraction(repr(v))
        if isinstance(v, (int, str, bool)) or v is None: return v
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e): return self.lookup(e.id)
    def e_Tuple(self, e): return tuple(self._elts(e.elts))
    def e_List(self, e): return self.newlist(self._elts(e.elts))

    def _elts(self, elts):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.eval(x.value))
                if s.items is None: raise Unsupported("* of a symbolic sequence")
                r.extend(s.items)
            else: r.append(self.eval(x))
        return r

    def newlist(self, items, kind="list"):
        ref = self.new(cseq([self._imm(x) for x in items], kind))
        for i, x in enumerate(items): self.place(Ref(ref.cell, (("i", i),)), x)
        return ref

    def e_Dict(self, e):
        ref = self.new(CMapV({}))
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported("** in dict display")
            kk, vv = self.eval(k), self.eval(v)
            self.setitem(ref, kk, vv)
        return ref

    def e_Set(self, e): return self.B.set_of(self, cseq(self._elts(e.elts)))

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue): self.eval(v.value)
        return z3.Const(NAMES("fmt"), Str)

    def e_Lambda(self, e):
        return FuncV(e, self.frames[-1].module, self.frames[-1], self._q("<lambda>"), None, self._defaults(e.args))

    def _q(self, n):
        f = self.frames[-1].func
        return "%s.<locals>.%s" % (f.qual, n) if f else n

    def _defaults(self, a):
        pos = [self.eval(d) for d in a.defaults]
        kw = {x.arg: self.eval(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return pos, kw

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not): return Not(self.truth(v))
        v = self.num(v)
        if isinstance(e.op, ast.USub): return conc(-v) if is_z(v) else -v
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported("unary op")

    def num(self, v):
        if isinstance(v, Ref): v = self.get(v)
        if isinstance(v, bool): return int(v)
        if is_z(v) and v.sort() == z3.BoolSort(): return to_z(v, z3.IntSort())
        return v

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for nxt in e.values[1:]:
            t = conc(self.truth(v))
            if isinstance(t, bool):
                if t != is_and: return v
                v = self.eval(nxt); continue
            r = self.pure(lambda: self.eval(nxt), t if is_and else z3.Not(t))
            if r is not None and (isinstance(r[0], bool) or (is_z(r[0]) and r[0].sort() == z3.BoolSort())) and (isinstance(v, bool) or (is_z(v) and v.sort() == z3.BoolSort())):
                v = And(t, zb(r[0])) if is_and else Or(t, zb(r[0]))
                v = conc(v)
                continue
            b = self.branch(t)
            if b != is_and: return v
            v = self.eval(nxt)
        return v

    def e_IfExp(self, e):
        c = conc(self.truth(self.eval(e.test)))
        if isinstance(c, bool): return self.eval(e.body if c else e.orelse)
        if not self.feasible(c): return self.eval(e.orelse)
        if not self.feasible(z3.Not(c)): return self.eval(e.body)
        try: a = self.pure(lambda: self.eval(e.body), c)
        except Unsupported: a = None
        b = self.pure(lambda: self.eval(e.orelse), z3.Not(c)) if a is not None else None
        if a is not None and b is not None:
            try: return self._merge(c, a[0], b[0])
            except Unsupported: pass
        return self.eval(e.body if self.branch(c) else e.orelse)

    def _merge(self, c, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref): raise Unsupported("merge of references")
        return ite(c, a, b)

    def pure(self, fn, cond=True):
        """evaluate fn under cond without committing to a path; (value,) if it has no effects and cannot raise, else None"""
        nobl, mark, ncell = len(self.obls), NAMES.n, self.ncell
        sw = self.writes
        base_frames = {id(f) for f in self.allframes}
        cells = set(self.store)
        snap = self.snapshot()
        def run():
            if cond is not True: self.assume(cond, "g")
            self.writes = set()
            return fn()
        try: out = self.sub(run, 64)
        except Unsupported:
            self.restore(snap); del self.obls[nobl:]; raise
        ok = bool(out)
        for pc, r, st in out:
            w = st[9] or set()
            if r[0] != "val" or any((x[0] == "cell" and x[1] in cells) or (x[0] == "var" and x[1] in base_frames) for x in w): ok = False
            if r[0] == "val" and isinstance(r[1], Ref) and r[1].cell not in cells: ok = False
        if not ok:
            del self.obls[nobl:]
            return None
        try: v = self.combine(out, mark)
        except Unsupported:
            del self.obls[nobl:]
            return None
        return (v,)

    def combine(self, out, mark, K=None, rng=None):
        """merge the values of sub-paths (guards are exclusive and exhaustive); facts become guarded (and, with an index
        K ranging over rng, universally closed, constants created since `mark` becoming functions of K)"""
        vals = []
        facts = []
        for pc, r, st in out:
            gs = [c for t, c in pc if t == "g"]
            for j, (t, c) in enumerate(pc):
                if t == "f":
                    pre = [x for tt, x in pc[:j] if tt == "g"]
                    facts.append(z3.Implies(z3.And(*pre), c) if pre else c)
            vals.append((gs, r[1]))
        v = vals[-1][1]
        for gs, x in reversed(vals[:-1]): v = ite(z3.And(*gs) if gs else True, x, v)
        if K is None:
            for f in facts: self.pc.append(("f", f))
            return v
        return v, facts

    def e_Compare(self, e):
        l = self.eval(e.left)
        res = True
        for op, c in zip(e.ops, e.comparators):
            if res is not True and is_z(res) and not (isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) ):
                pass
            r = self.eval(c)
            res = And(res, self.compare(op, l, r))
            if conc(res) is False: return False
            l = r
        return conc(res)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.identical(a, b)
        if isinstance(op, ast.IsNot): return Not(self.identical(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return Not(self.contains(b, a))
        if isinstance(op, ast.Eq): return self.equal(a, b)
        if isinstance(op, ast.NotEq): return Not(self.equal(a, b))
        a, b = self.num(a), self.num(b)
        if isinstance(a, OptV) or isinstance(b, OptV):
            for x in (a, b):
                if isinstance(x, OptV): self.guard(Not(x.none), "TypeError", "comparison with None")
            a = a.v if isinstance(a, OptV) else a; b = b.v if isinstance(b, OptV) else b
        if isinstance(a, (SeqV, tuple)) or isinstance(b, (SeqV, tuple)) or a is None or b is None: raise Unsupported("ordering of %r and %r" % (a, b))
        if isinstance(a, str) or isinstance(b, str): raise Unsupported("ordering of strings")
        p = common(a, b) if (is_z(a) or is_z(b)) else (a, b)
        if p is None: raise Unsupported("ordering")
        a, b = p
        if is_z(a) and a.sort() not in (z3.IntSort(), z3.RealSort()):
            f = z3.Function("lt:%s" % a.sort(), a.sort(), a.sort(), z3.BoolSort())
            r = {ast.Lt: lambda: f(a, b), ast.Gt: lambda: f(b, a), ast.LtE: lambda: z3.Not(f(b, a)), ast.GtE: lambda: z3.Not(f(a, b))}[type(op)]()
            return r
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, OptV): return y.none
                return y is None
        if isinstance(a, OptV) or isinstance(b, OptV): raise Unsupported("is")
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.root(a), self.root(b)
            if ra.cell == rb.cell and len(ra.path) == len(rb.path):
                return And(*[pa[0] == pb[0] and eqv(pa[1], pb[1]) for pa, pb in zip(ra.path, rb.path)])
            return False
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            if {a.name, b.name} <= TYPE_NAMES: return a.name == b.name
            raise Unsupported("identity of library objects")
        if is_scalar(a) and is_scalar(b): return self.equal(a, b)      # small ints / interned strings only
        return a is b

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                t = self.get(x)
                if isinstance(t, RecV) and isinstance(t.cls, ClassV):
                    m = t.cls.find("m", "__eq__")[0]
                    if m: return self.truth(self.call(BoundM(x, m), [y], {}))
                    return self.identical(a, b)
        va, vb = self._imm(a), self._imm(b)
        if (isinstance(va, SeqV) and va.kind == "nd") or (isinstance(vb, SeqV) and vb.kind == "nd"):
            return self.B.nd_elementwise(self, va, vb, lambda x, y: eqv(x, y))
        if isinstance(va, ExtV) and isinstance(vb, ExtV) and {va.name, vb.name} <= TYPE_NAMES: return va.name == vb.name
        return eqv(va, vb)

    def contains(self, c, x):
        c0 = c
        c = self.get(c)
        if isinstance(c, KeysView): return self.contains(c.o, x)
        if isinstance(x, Ref): x = self._imm(x)
        if isinstance(c, CMapV):
            if core._conc_key(x):
                if x in c.d: return True
                if c.rest is None: return False
                raise Unsupported("membership in opaque attributes")
            if c.rest is not None: raise Unsupported("membership in opaque attributes")
            if not c.d: return False
            return Or(*[eqv(x, k) for k in c.d])
        if isinstance(c, (MapV, SetV)):
            if isinstance(c, MapV) and _shape_mismatch(x, c.kty): return False
            return c.has(x)
        if isinstance(c, AttrV): return self.B.attr_has(c, x)
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, tuple): c = cseq(c, "tuple")
        if isinstance(c, SeqV):
            if c.items is not None: return Or(*[eqv(x, y) for y in c.items]) if c.items else False
            if c.pos is not None:
                p = c.pos(x)
                return z3.And(0 <= zint(p), zint(p) < zint(c.n), zb(eqv(c.at(p), x)))
            b = z3.Bool(NAMES("in")); w = fresh_int("w"); i = fresh_int("i")
            self.assume(z3.Implies(b, z3.And(0 <= w, w < zint(c.n), zb(eqv(c.at(w), x)))))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(c.n), zb(eqv(c.at(i), x))), b)))
            return b
        if isinstance(c, RecV) and isinstance(c.cls, ClassV):
            m = c.cls.find("m", "__contains__")[0]
            if m: return self.truth(self.call(BoundM(c0, m), [x], {}))
        raise Unsupported("membership in %r" % (c,))

    def e_BinOp(self, e): return self.binop(type(e.op), self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        if op is ast.Mod and (isinstance(a, str) or (is_z(a) and a.sort() == Str)): return z3.Const(NAMES("fmt"), Str)
        va, vb = self.num(a), self.num(b)
        if isinstance(va, OptV): self.guard(Not(va.none), "TypeError", "operand is None"); va = va.v
        if isinstance(vb, OptV): self.guard(Not(vb.none), "TypeError", "operand is None"); vb = vb.v
        seqs = (SeqV, tuple)
        if isinstance(va, SeqV) and va.kind == "nd" or isinstance(vb, SeqV) and vb.kind == "nd":
            return self.B.nd_binop(self, op, va, vb)
        if isinstance(va, seqs) or isinstance(vb, seqs):
            if op is ast.Add and isinstance(va, tuple) and isinstance(vb, tuple): return va + vb
            if op is ast.Add and isinstance(va, seqs) and isinstance(vb, seqs):
                sa, sb = self.seq(va), self.seq(vb)
                r = seq_concat(sa, sb)
                return self.new(r) if r.kind == "list" else r
            if op is ast.Mult:
                s, n = (va, vb) if isinstance(va, seqs) else (vb, va)
                s = self.seq(s)
                return self.repeat(s, n)
            raise Unsupported("operator on sequences")
        if isinstance(va, str) and isinstance(vb, str) and op is ast.Add: return va + vb
        if (isinstance(va, str) or (is_z(va) and va.sort() == Str)) and op is ast.Add: return self.B.str_concat(self, va, vb)
        if va is None or vb is None or isinstance(va, str) or isinstance(vb, str):
            self.guard(False, "TypeError", "operator on None")
        if not (is_scalar(va) and is_scalar(vb)): raise Unsupported("operator on %r, %r" % (va, vb))
        for x in (va, vb):
            if is_z(x) and x.sort() not in (z3.IntSort(), z3.RealSort()): return self.opaque_op(op, va, vb)
        if not is_z(va) and not is_z(vb):
            if op is ast.Add: return va + vb
            if op is ast.Sub: return va - vb
            if op is ast.Mult: return va * vb
            if op is ast.Div:
                self.guard(vb != 0, "ZeroDivisionError", "division"); return Fraction(va) / vb
            if op is ast.FloorDiv:
                self.guard(vb != 0, "ZeroDivisionError", "division"); return va // vb
            if op is ast.Mod:
                self.guard(vb != 0, "ZeroDivisionError", "modulo"); return va % vb
            if op is ast.Pow and isinstance(vb, int) and vb >= 0: return va ** vb
            if op is ast.LShift: return va << vb
            if op is ast.RShift: return va >> vb
            if op is ast.BitXor: return va ^ vb
            if op is ast.BitAnd: return va & vb
            if op is ast.BitOr: return va | vb
            if op is ast.Pow and vb == Fraction(1, 2): return self.B.SQRT(to_z(va, z3.RealSort()))
            raise Unsupported("operator %s" % op.__name__)
        if op in (ast.Add, ast.Sub, ast.Mult):
            x, y = common(va, vb)
            return conc({ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}[op]())
        if op is ast.Div:
            x, y = to_z(va, z3.RealSort()), to_z(vb, z3.RealSort())
            self.guard(y != 0, "ZeroDivisionError", "division")
            return conc(x / y)
        if op in (ast.FloorDiv, ast.Mod): return self.divmod(op, va, vb)
        return self.B.bitop(self, op, va, vb)

    def opaque_op(self, op, a, b):
        a, b = to_z(a), to_z(b)
        s = [x.sort() for x in (a, b) if x.sort() not in (z3.IntSort(), z3.RealSort())][0]
        return z3.Function("op%s:%s:%s" % (op.__name__, a.sort(), b.sort()), a.sort(), b.sort(), s)(a, b)

    def divmod(self, op, a, b):
        if is_z(a) and a.sort() == z3.RealSort() or is_z(b) and b.sort() == z3.RealSort(): raise Unsupported("// or % on reals")
        if not is_z(b):
            self.guard(b != 0, "ZeroDivisionError", "modulo")
            if b > 0: return conc(zint(a) / b) if op is ast.FloorDiv else conc(zint(a) % b)
            return conc(-zint(a) / (-b)) if op is ast.FloorDiv else conc(-((-zint(a)) % (-b)))
        self.guard(b != 0, "ZeroDivisionError", "modulo")
        a = zint(a)
        if self.entails(b > 0): return (DIV if op is ast.FloorDiv else MOD)(a, b)
        if self.branch(b > 0): return (DIV if op is ast.FloorDiv else MOD)(a, b)
        return DIV(-a, -b) if op is ast.FloorDiv else -MOD(-a, -b)

    def repeat(self, s, n):
        if not is_z(n) and s.items is not None: r = cseq(s.items * n, s.kind)
        elif s.items is not None and len(s.items) == 1:
            x = s.items[0]
            r = SeqV(conc(z3.If(zint(n) > 0, zint(n), 0)), lambda i: x, s.kind, None)
        else: raise Unsupported("repetition of a symbolic list")
        if s.kind != "list": return r
        ref = self.new(r)
        if any(self.is_mut(x) for x in (s.items or [])): self.shared.append((ref.cell, (("i", None),)))
        return ref

    # ------------------------------------------------------------ subscripts and attributes
    def seq(self, v):
        v = self.get(v)
        if isinstance(v, SeqV): return v
        if isinstance(v, tuple): return cseq(v, "tuple")
        if isinstance(v, str): return cseq(list(v), "list")
        raise Unsupported("not a sequence: %r" % (v,))

    def index(self, s, i, what="list index"):
        """normalise a Python index into 0..n-1 (IndexError otherwise)"""
        n = s.n
        i = self.num(i)
        if isinstance(i, OptV): self.guard(Not(i.none), "TypeError", "index is None"); i = i.v
        if not is_z(i) and not isinstance(i, int): raise Unsupported("index %r" % (i,))
        if not is_z(i) and not is_z(n):
            j = i + n if i < 0 else i
            self.guard(0 <= j < n, "IndexError", what)
            return j
        zi, zn = zint(i), zint(n)
        if not is_z(i):
            if i >= 0: self.guard(zi < zn, "IndexError", what); return i
            self.guard(zn + i >= 0, "IndexError", what)
            return conc(zn + i)
        if zi.sort() != z3.IntSort():
            self.guard(False, "TypeError", "index is not an integer")
        if self.entails(zi >= 0):
            self.guard(zi < zn, "IndexError", what); return i
        self.guard(z3.And(-zn <= zi, zi < zn), "IndexError", what)
        return conc(z3.If(zi < 0, zi + zn, zi))

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(e.slice, ast.Slice): return self.slice(o, e.slice)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            t = self.get(o)
            if not (isinstance(t, SeqV) and t.kind == "nd"): raise Unsupported("slice in a tuple index")
            return self.nd_slices(t, e.slice.elts)
        return self.getitem(o, self.eval(e.slice))

    def nd_slices(self, t, ks):
        if not ks: return t
        k = ks[0]
        if not isinstance(k, ast.Slice): return self.nd_slices(self.getitem(t, self.eval(k)), ks[1:])
        s = self.slice(self.new(t), k)
        s = self.get(s) if isinstance(s, Ref) else s
        if not ks[1:]: return s
        if s.items is not None: return self.new(cseq([self._imm(self.nd_slices(x, ks[1:])) for x in s.items], "nd"))
        r = self.comp_body(s, lambda i: self._imm(self.nd_slices(s.at(i), ks[1:])), False)
        return self.new(SeqV(r.n, r.at, "nd", r.ety))

    def slice(self, o, sl):
        if isinstance(o, str): o = cseq(list(o), "str")
        if is_z(o) and o.sort() == core.Str:
            if sl.lower is None and sl.upper is None and sl.step is not None and self.num(self.eval(sl.step)) == -1: return z3.Function("str_reversed", core.Str, core.Str)(o)
            o = self.iterable(o)[0]
        s = self.seq(o)
        lo = self.num(self.eval(sl.lower)) if sl.lower else None
        hi = self.num(self.eval(sl.upper)) if sl.upper else None
        st = self.num(self.eval(sl.step)) if sl.step else None
        n = s.n
        if st is not None and st != 1:
            if st == -1 and lo is None and hi is None: r = seq_rev(s)
            elif s.items is not None and not is_z(lo) and not is_z(hi) and not is_z(st): r = cseq(s.items[lo:hi:st], s.kind)
            else: raise Unsupported("slice step")
        else:
            def norm(x, default):
                if x is None: return default
                if not is_z(x) and not is_z(n): return max(0, min(n, x + n if x < 0 else x))
                x, zn = zint(x), zint(n)
                y = z3.If(x < 0, z3.If(x + zn < 0, 0, x + zn), z3.If(x > zn, zn, x))
                for cand in (x, x + zn):       # pick the simple form when it is entailed
                    if self.entails(y == cand): return conc(cand)
                return y
            l, h = norm(lo, 0), norm(hi, n)
            if is_z(l) or is_z(h):
                if not self.entails(zint(l) <= zint(h)): h = conc(z3.If(zint(h) < zint(l), zint(l), zint(h)))
            else: h = max(l, h)
            r = seq_slice(s, l, h)
        if isinstance(o, tuple) and r.items is not None: return tuple(r.items)
        if r.kind == "list":
            ref = self.new(SeqV(r.n, r.at, "list", r.ety, None, r.items))
            return ref
        if r.kind == "str" and r.items is not None and all(isinstance(x, str) for x in r.items): return "".join(r.items)
        return r

    def getitem(self, o, k):
        if isinstance(o, OptV):
            self.guard(Not(o.none), "TypeError", "subscript of None"); o = o.v
        if o is None: self.guard(False, "TypeError", "subscript of None")
        ref = o if isinstance(o, Ref) else None
        c = self.get(o)
        if isinstance(k, Ref): k = self._imm(k)
        if isinstance(c, str): 
            c = cseq(list(c), "str")
        if is_z(c) and c.sort() == core.Str: c = self.iterable(c)[0]
        if isinstance(c, tuple):
            if not is_z(k): 
                j = self.index(cseq(c), k, "tuple index")
                return c[j]
            c = cseq([self._imm(x) for x in c], "tuple")
        if isinstance(c, SeqV):
            if c.kind == "nd" and isinstance(k, (tuple,)): return self.B.nd_getitem(self, o, c, k)
            if c.kind == "nd" and isinstance(k, SeqV): return self.B.nd_getitem(self, o, c, k)
            j = self.index(c, k)
            return self.at_path(ref, ("i", j), c.at(j))
        if isinstance(c, CMapV):
            if core._conc_key(k):
                self.guard(k in c.d, "KeyError", "key %r" % (k,))
                return self.at_path(ref, ("k", k), c.d[k])
            if not c.d: self.guard(False, "KeyError", "key in an empty dict")
            self.guard(Or(*[eqv(k, x) for x in c.d]), "KeyError", "key")
            return self.at_path(ref, ("k", k), to_map(c).val(k))
        if isinstance(c, MapV):
            if _shape_mismatch(k, c.kty): self.guard(False, "KeyError", "key")
            self.guard(c.has(k), "KeyError", "key")
            return self.at_path(ref, ("k", k), c.val(k))
        if isinstance(c, AttrV): return self.B.attr_get(self, c, k)
        if isinstance(c, RecV) and isinstance(c.cls, ClassV):
            m = c.cls.find("m", "__getitem__")[0]
            if m: return self.call(BoundM(o, m), [k], {})
        raise Unsupported("subscript of %r" % (c,))

    def setitem(self, o, k, v):
        if isinstance(o, OptV):
            self.guard(Not(o.none), "TypeError", "subscript of None"); o = o.v
        if not isinstance(o, Ref): raise Unsupported("item assignment to a value without identity")
        c = self.get(o)
        if isinstance(k, Ref): k = self._imm(k)
        if isinstance(c, SeqV):
            if c.kind == "nd" and isinstance(k, (tuple,)): return self.B.nd_setitem(self, o, c, k, v)
            j = self.index(c, k, "assignment index")
            old_mut = self.is_mut(c.at(j)) if (is_z(c.n) or c.n) else False
            iv = self._imm(v)
            if c.kind == "nd" and c.ety is not None and is_scalar(iv): iv = self.B.nd_cast(iv, c.ety)
            if isinstance(c.ety, TOpt) or False: pass
            self.put(o, seq_set(c, j, iv))
            self.log(o, "set", j, iv)
            r = self.root(o)
            loc = Ref(r.cell, r.path + (("i", j),), self.nev)
            if old_mut: self.invalidate(loc)
            self.place(Ref(r.cell, loc.path, self.nev), v)
            return
        if isinstance(c, (CMapV, MapV)):
            iv = self._imm(v)
            if isinstance(c, MapV) and _shape_mismatch(k, c.kty): raise Unsupported("key of another type")
            self.put(o, map_set(c, k, iv))
            self.log(o, "mset", k, iv)
            r = self.root(o)
            if self.is_mut(iv): self.invalidate(Ref(r.cell, r.path + (("k", k),)))
            self.place(Ref(r.cell, r.path + (("k", k),), self.nev), v)
            return
        if isinstance(c, RecV) and isinstance(c.cls, ClassV):
            m = c.cls.find("m", "__setitem__")[0]
            if m: self.call(BoundM(o, m), [k, v], {}); return
        raise Unsupported("item assignment on %r" % (c,))

    def invalidate(self, loc):
        r = self.root(loc)
        self.nev += 1
        self.events.append((r.cell, r.path, self.nev, False))

    def delitem(self, o, k):
        c = self.get(o)
        if isinstance(k, Ref): k = self._imm(k)
        if not isinstance(o, Ref): raise Unsupported("del on a value without identity")
        if isinstance(c, RecV):
            m = c.cls.find("m", "__delitem__")[0]
            if m: self.call(BoundM(o, m), [k], {}); return
        if isinstance(c, (CMapV, MapV)):
            self.guard(self.contains(c, k), "KeyError", "del of a missing key")
            self.put(o, map_del(c, k))
            r = self.root(o)
            self.invalidate(Ref(r.cell, r.path + (("k", k),)))
            self.log(o, "del", k)
            return
        if isinstance(c, SeqV):
            j = self.index(c, k)
            self.put(o, seq_remove_at(c, j), shape=True)
            self.log(o, "del", j)
            return
        raise Unsupported("del")

    def e_Attribute(self, e): return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, OptV):
            self.guard(Not(o.none), "AttributeError", "attribute of None"); o = o.v
        if o is None: self.guard(False, "AttributeError", "%s of None" % name)
        if isinstance(o, ModuleV):
            v = o.get(name)
            if v is None: v = self.module(o.name + "." + name)
            return v
        if isinstance(o, ExtV): return self.ext(o.name + "." + name)
        if isinstance(o, ClassV):
            if o.enum:
                if name not in o.attrs: self.guard(False, "AttributeError", name)
                return o.enums.setdefault(name, EnumV(o.name, name))
            f, c = o.find("m", name)
            if f: return f
            a, c = o.find("attrs", name)
            if a is not None: return self.with_frame(Frame(None, c.module), lambda: self.eval(a))
            raise Unsupported("class attribute %s.%s" % (o.name, name))
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                f, c = b.find("m", name)
                if f: return BoundM(o.obj, f)
            raise Unsupported("super().%s" % name)
        if is_z(o) and (o.sort().name(), name) in self.zattrs: return self.zattrs[(o.sort().name(), name)](o)
        t = self.get(o)
        if isinstance(t, RecV):
            if name in t.f:
                return self.at_path(o if isinstance(o, Ref) else None, ("f", name), t.f[name])
            if isinstance(t.cls, ClassV):
                f, c = t.cls.find("props", name)
                if f: return self.call(BoundM(o, f), [], {})
                f, c = t.cls.find("m", name)
                if f:
                    if name in c.statics: return f
                    return BoundM(o, f)
                a, c = t.cls.find("attrs", name)
                if a is not None: return self.with_frame(Frame(None, c.module), lambda: self.eval(a))
            if isinstance(t.cls, str) and (t.cls, name) in self.B.REC_METHODS: return MethodV(o, name)
            self.guard(False, "AttributeError", "%s has no attribute %s" % (t.cls, name))
        if isinstance(t, SeqV) and t.kind == "nd" and name in self.B.ND_ATTRS: return self.B.nd_attr(self, o, t, name)
        return MethodV(o, name)

    def setattr(self, o, name, v):
        if not isinstance(o, Ref): raise Unsupported("attribute assignment on %r" % (o,))
        t = self.get(o)
        if isinstance(t, OptV): t = t.v
        if isinstance(t, RecV):
            if isinstance(t.cls, ClassV):
                f, c = t.cls.find("setters", name)
                if f: self.call(BoundM(o, f), [v], {}); return
            r = self.root(o)
            loc = Ref(r.cell, r.path + (("f", name),), self.nev)
            old = t.f.get(name)
            iv = self._imm(v)
            f = dict(t.f); f[name] = iv
            self.put(o, RecV(t.cls, f))
            self.log(o, "attr", name, iv)
            if self.is_mut(old): self.invalidate(loc)
            self.place(Ref(r.cell, loc.path, self.nev), v)
            return
        raise Unsupported("attribute assignment on %r" % (t,))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.frames[-1]
            return SuperV(f.func.cls, f.vars[f.func.node.args.args[0].arg])
        fn = self.eval(e.func)
        args = self._elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                t = self.get(v)
                if isinstance(t, CMapV) and t.rest is None and all(isinstance(x, str) for x in t.d):
                    for x in t.d: kw[x] = self.at_path(v if isinstance(v, Ref) else None, ("k", x), t.d[x])
                elif isinstance(t, AttrV): kw["**"] = t
                else: raise Unsupported("** of %r" % (t,))
            else: kw[k.arg] = v
        self.line = e.lineno
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node=None):
        if isinstance(fn, OptV):
            self.guard(Not(fn.none), "TypeError", "call of None"); fn = fn.v
        if isinstance(fn, BoundM): return self.call_func(fn.fn, [fn.obj] + list(args), kw)
        if isinstance(fn, FuncV): return self.call_func(fn, list(args), kw)
        if isinstance(fn, UserFn): return fn.handler(self, list(args), kw)
        if isinstance(fn, ClassV): return self.instantiate(fn, list(args), kw)
        if isinstance(fn, MethodV): return self.B.method(self, fn.obj, fn.name, list(args), kw)
        if isinstance(fn, ExtV):
            if fn.name == "next" and len(args) == 1 and not kw and isinstance(node, ast.Call) and isinstance(node.args[0], (ast.Call, ast.GeneratorExp)):
                # the first item of an iterator nobody else holds
                s, el = self.iterable(args[0])
                self.guard(zint(s.n) > 0, "StopIteration", "next of an empty iterator")
                return el(0)
            h = self.extc.get(fn.name)
            if h is not None:
                self.trusted_used.add(fn.name); self.used_ext.add(fn.name)
                return h(self, list(args), kw)
            return self.B.call_ext(self, fn.name, list(args), kw)
        if isinstance(fn, Ref):
            t = self.get(fn)
            if isinstance(t, RecV) and isinstance(t.cls, ClassV):
                m = t.cls.find("m", "__call__")[0]
                if m: return self.call(BoundM(fn, m), args, kw)
        if fn is None: self.guard(False, "TypeError", "call of None")
        raise Unsupported("call of %r" % (fn,))

    def instantiate(self, cls, args, kw):
        o = self.new(RecV(cls, {}))
        m, _ = cls.find("m", "__init__")
        if m: self.call(BoundM(o, m), args, kw)
        elif args or kw: raise Unsupported("constructor of %s" % cls.name)
        return o

    def bind(self, fn, args, kw):
        a = fn.node.args
        if fn.defaults is None:
            d = self.with_frame(Frame(None, fn.module), lambda: self._defaults(a))
        else: d = fn.defaults
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None: self.guard(False, "TypeError", "too many arguments for %s" % fn.qual)
            out[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
        elif a.vararg is not None: out[a.vararg.arg] = ()
        for n, v in zip(names, args): out[n] = v
        extra = {}
        for k, v in kw.items():
            if k != "**" and (k in names or any(x.arg == k for x in a.kwonlyargs)):
                if k in out: self.guard(False, "TypeError", "duplicate argument %s" % k)
                out[k] = v
            else: extra[k] = v
        for n, v in zip(names[len(names) - len(d[0]):], d[0]): out.setdefault(n, v)
        for n, v in d[1].items(): out.setdefault(n, v)
        if a.kwarg is not None:
            if extra.get("**") is not None and len(extra) == 1: out[a.kwarg.arg] = self.new(extra["**"])
            elif "**" in extra: raise Unsupported("mixed keyword attributes")
            else:
                out[a.kwarg.arg] = self.B.kwargs_dict(self, extra)
        elif extra: self.guard(False, "TypeError", "unexpected keyword argument for %s: %s" % (fn.qual, list(extra)))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out: self.guard(False, "TypeError", "missing argument %s of %s" % (n, fn.qual))
        return out

    def call_func(self, fn, args, kw, skip_contract=False):
        c = self.contracts.get(fn.name)
        if c is not None and not skip_contract and c.applies(self, fn):
            self.used_contracts.add(fn.name)
            return c.apply(self, fn, args, kw)
        if len(self.frames) > 60: raise Unsupported("call depth")
        env = self.bind(fn, args, kw)
        fr = Frame(fn, fn.module, fn.closure)
        fr.ncell0 = self.ncell
        self.inlined.add(fn.name)
        fr.vars.update(env)
        fr.entry = dict(env)
        if isinstance(fn.node, ast.Lambda): return self.with_frame(fr, lambda: self.eval(fn.node.body))
        if _is_generator(fn.node): return self.with_frame(fr, lambda: self.run_generator(fr, fn.node, env))
        def run():
            try:
                self.exec_block(fn.node.body)
                return None
            except _Ret as r: return r.v
        return self.with_frame(fr, run)

    def run_generator(self, fr, node, env):
        """a generator is run to its end at once. The difference cannot be seen as long as it has no effects, raises nothing, and what it
        can reach is not modified while its items are used (checked: sources)"""
        acc = self.new(cseq([]))
        fr.yields = acc
        old = dict(self.store)
        try: self.exec_block(node.body)
        except _Ret: pass
        except PyExc: raise Unsupported("exception in a generator")
        for c, v in self.store.items():
            if c in old and v is not old[c] and c != acc.cell: raise Unsupported("a generator with effects")
        src, seen = [], set()
        def walk(v):
            if isinstance(v, Ref):
                c = self.root(v).cell
                if c in seen: return
                seen.add(c); src.append((c, (), "all")); walk(self.get(Ref(c, (), self.nev)))
            elif isinstance(v, RecV): [walk(x) for x in v.f.values()]
            elif isinstance(v, CMapV): [walk(x) for x in v.d.values()]
            elif isinstance(v, (tuple, list)): [walk(x) for x in v]
            elif isinstance(v, SeqV) and v.items is not None: [walk(x) for x in v.items]
            elif isinstance(v, OptV): walk(v.v)
            elif isinstance(v, IterV): src.extend(self.sources(v))
        for v in env.values(): walk(v)
        s = self.get(acc)
        return IterV(s, s.at, [GenSrc(src)], True)
    def e_Yield(self, e):
        acc = getattr(self.frames[-1], "yields", None)
        if acc is None: raise Unsupported("yield")
        v = self._imm(self.eval(e.value)) if e.value is not None else None
        self.call(self.getattr(acc, "append"), [v], {})
        return None

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e):
        s = self.comp(e.generators, lambda: self.eval(e.elt))
        return self.new(SeqV(s.n, s.at, "list", s.ety, s.pos, s.items))
    def e_GeneratorExp(self, e): return self.comp(e.generators, lambda: self.eval(e.elt))
    def e_SetComp(self, e): return self.B.set_of(self, self.comp(e.generators, lambda: self.eval(e.elt)))

    def e_DictComp(self, e):
        s = self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)))
        return self.B.dict_of_pairs(self, s)

    def comp(self, gens, elt):
        g = gens[0]
        if len(gens) > 1:
            outer = self.comp([g], lambda: self.comp(gens[1:], elt))
            return self.B.flatten(self, outer)
        it, elem = self.iterable(self.eval(g.iter))
        fr = Frame(self.frames[-1].func, self.frames[-1].module, self.frames[-1])
        fr.entry = getattr(self.frames[-1], "entry", {})
        def one(i):
            self.assign(g.target, elem(i))
            for c in g.ifs:
                if not self.branch(self.truth(self.eval(c))): return _SKIP
            return self._imm(elt())
        def body(): return self.comp_body(it, one, bool(g.ifs))
        return self.with_frame(fr, body)

    def comp_body(self, it, one, filtered):
        n = conc(it.n)
        if not is_z(n) and n <= self.UNROLL and (it.items is not None or n <= 8):
            out = []
            for i in range(n):
                v = one(i)
                if v is not _SKIP: out.append(v)
            return cseq(out)
        K = fresh_int("K")
        mark = NAMES.n
        rng = z3.And(0 <= K, K < zint(n))
        cells = set(self.store); frames = {id(f) for f in self.allframes if f is not self.frames[-1]}
        def run():
            self.assume(0 <= K); self.assume(K < zint(n))
            self.writes = set()
            return one(K)
        nb = len(self.pc)
        out = self.sub(run)
        for pc, r, st in out:
            if any((x[0] == "cell" and x[1] in cells) or (x[0] == "var" and x[1] in frames) for x in st[9]): raise Unsupported("comprehension with side effects")
            if r[0] == "exc":
                # an element whose evaluation raises
                if any(exc_is(r[1].etype, h) for hs in self.handlers for h in hs) and not self.entails_all([K], z3.Not(z3.And(*[c for _, c in pc]))): raise Unsupported("exception inside a comprehension")
                self.oblige_under(pc, "no %s in comprehension" % r[1].etype, False)
        rngf = [c for c in (z3.simplify(0 <= K), z3.simplify(K < zint(n)))]
        outs = [([(t, c) for t, c in pc if not (t == "f" and any(c.eq(x) for x in rngf))], r, st) for pc, r, st in out if r[0] == "val"]
        kept = [o for o in outs if o[1][1] is not _SKIP]
        if not outs: return cseq([])          # the range is empty on this path
        sk = Skolem(K, mark)
        facts = []
        for pc, r, st in outs:
            for j, (t, c) in enumerate(pc):
                if t == "f":
                    pre = [x for tt, x in pc[:j] if tt == "g"]
                    facts.append(z3.Implies(z3.And(rng, *pre), c))
        for f in facts: self.pc.append(("f", z3.ForAll([K], sk.z(f))))
        if not filtered and kept:
            vals = [([c for t, c in pc if t == "g"], r[1]) for pc, r, st in kept]
            v = vals[-1][1]
            for gs, x in reversed(vals[:-1]): v = ite(z3.And(*gs) if gs else True, x, v)
            v = sk.v(v)
            ety = None
            try: ety = typeof(v)
            except Unsupported: pass
            pos = None
            if it.pos is not None and it.items is None:
                ek = it.at(K)
                if is_scalar(v) and is_scalar(ek) and eqv(v, ek) is True: pos = it.pos
            r = SeqV(n, lambda i: subst(v, [(K, zint(i))]), "list", ety, pos)
            r.kpos = self.key_inverse(it, K, v)
            return r
        cond = z3.Or(*[z3.And(*[c for t, c in pc if t == "g"]) if any(t == "g" for t, c in pc) else z3.BoolVal(True) for pc, r, st in kept]) if kept else z3.BoolVal(False)
        cond = sk.z(z3.simplify(cond))
        if not kept: return cseq([])
        vals = [([c for t, c in pc if t == "g"], r[1]) for pc, r, st in kept]
        v = vals[-1][1]
        for gs, x in reversed(vals[:-1]): v = ite(z3.And(*gs) if gs else True, x, v)
        v = sk.v(v)
        if self.entails_all([K], z3.Implies(rng, cond)):
            ety = None
            try: ety = typeof(v)
            except Unsupported: pass
            pos = None
            if it.pos is not None and it.items is None:
                ek = it.at(K)
                if is_scalar(v) and is_scalar(ek) and eqv(v, ek) is True: pos = it.pos
            r = SeqV(n, lambda i: subst(v, [(K, zint(i))]), "list", ety, pos)
            r.kpos = self.key_inverse(it, K, v)
            return r
        r = self.filtered(it, n, K, cond, v)
        kp = self.key_inverse(it, K, v)
        if kp is not None:
            C = self.last_filter[6]
            r.kpos = lambda x: z3.If(z3.And(0 <= zint(kp(x)), zint(kp(x)) < zint(n), zb(eqv(subst(v[0], [(K, zint(kp(x)))]), x)), z3.substitute(cond, (K, zint(kp(x))))), C(zint(kp(x))), -1)
        return r

    def key_inverse(self, it, K, v):
        """pairs whose first component is the element of a sequence without repetitions (or the index): the index of a first component"""
        if not (isinstance(v, tuple) and len(v) == 2): return None
        try:
            if is_scalar(v[0]) and is_z(v[0]) and v[0].sort() == z3.IntSort() and v[0].eq(K): return lambda x: zint(x)
            if it.items is not None: return None
            e = it.at(K)
            if it.pos is not None and type(e) is type(v[0]) and eqv(v[0], e) is True: return it.pos
            if it.kpos is not None and isinstance(e, tuple) and type(e[0]) is type(v[0]) and eqv(v[0], e[0]) is True: return it.kpos
        except Unsupported: pass
        return None

    def filtered(self, it, n, K, cond, v):
        """[v(K) for K in range(n) if cond(K)] by its embedding into the source"""
        C = self.B.SUMS.sum(z3.If(cond, z3.IntVal(1), z3.IntVal(0)), K)
        m = C(zint(n))
        hh, consts, ps, PK, ab = self.B.SUMS.abstract(z3.simplify(z3.If(cond, z3.IntVal(1), z3.IntVal(0))), K)
        idxf = z3.Function("fidx!h" + hh, *[x.sort() for x in ps], z3.IntSort(), z3.IntSort())   # the p-th index that satisfies the condition
        idx = lambda p: idxf(*consts, p)
        p, q, j = fresh_int("p"), fresh_int("q"), fresh_int("j")
        cnd = lambda x: z3.substitute(cond, (K, zint(x)))
        zn = zint(n)
        self.assume(m >= 0); self.assume(m <= z3.If(zn > 0, zn, 0))
        self.pc.append(("f", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), z3.And(0 <= idx(p), idx(p) < zn, cnd(idx(p)), C(idx(p)) == p)), patterns=[idx(p)])))
        self.pc.append(("f", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zn, cnd(j)), z3.And(idx(C(j)) == j, 0 <= C(j), C(j) < m)), patterns=[C(j)])))
        self.pc.append(("f", z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < m), idx(p) < idx(q)), patterns=[z3.MultiPattern(idx(p), idx(q))])))
        pos = None
        if it.pos is not None and it.items is None:
            ek = it.at(K)
            if is_scalar(v) and is_scalar(ek) and eqv(v, ek) is True:
                pos = lambda x: z3.If(z3.And(0 <= zint(it.pos(x)), zint(it.pos(x)) < zn, zb(eqv(it.at(it.pos(x)), x)), cnd(it.pos(x))), C(zint(it.pos(x))), -1)
        ety = None
        try: ety = typeof(v)
        except Unsupported: pass
        r = SeqV(m, lambda i: subst(v, [(K, idx(zint(i)))]), "list", ety, pos)
        self.filters = getattr(self, "filters", {})
        self.filters[m.decl().name() if z3.is_app(m) else str(m)] = (it, n, K, cond, v, idx, C, m)
        self.last_filter = (it, n, K, cond, v, idx, C, m)
        return r

    def oblige_under(self, pc, name, goal):
        if self.quiet or self.replaying(): return
        self.obls.append(Obl(unit=self.unit, name=name, pc=[c for _, c in self.pc] + [c for _, c in pc], goal=zb(goal), kind="safe", where=self.where()))

    # ------------------------------------------------------------ iteration
    def sources(self, v):
        """the places of the containers an iterable reads while it is iterated"""
        if isinstance(v, Ref):
            r = self.root(v)
            t = self.get(v)
            if isinstance(t, (IterV, KeysView)): return self.sources(t)
            return [(r.cell, r.path, False)]
        if isinstance(v, KeysView): return self.sources(v.o)
        if isinstance(v, IterV): return [(c, p, st or v.strict) for x in v.src for c, p, st in self.sources(x)]
        if isinstance(v, OptV): return self.sources(v.v)
        if isinstance(v, GenSrc): return v.src
        return []
    def iterable(self, v):
        """(SeqV snapshot, element accessor yielding references for mutable elements)"""
        ref = v if isinstance(v, Ref) else None
        t = self.get(v)
        if isinstance(t, OptV):
            self.guard(Not(t.none), "TypeError", "iteration over None"); t = t.v
        if isinstance(t, IterV): return t.seq, t.elem
        if isinstance(t, KeysView): return self.iterable(t.o)
        if isinstance(t, (CMapV, MapV)):
            s = map_keys(t); return s, s.at
        if isinstance(t, SetV): return SeqV(t.n, t.enum, "list", t.kty, t.pos), t.enum
        if isinstance(t, str): t = cseq(list(t))
        if is_z(t) and t.sort() == core.Str:
            n = z3.Function("len:Str", core.Str, z3.IntSort())(t)
            self.assume(n >= 0)
            s = SeqV(n, lambda i: z3.Function("char", core.Str, z3.IntSort(), core.Str)(t, zint(i)), "str", core.TStr)
            return s, s.at
        if isinstance(t, tuple):
            return cseq(t, "tuple"), (lambda i: t[i] if not is_z(i) else cseq([self._imm(x) for x in t]).at(i))
        if isinstance(t, SeqV): return t, (lambda i: self.at_path(ref, ("i", i), t.at(i)))
        if t is None: self.guard(False, "TypeError", "iteration over None")
        raise Unsupported("iteration over %r" % (t,))

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body: self.exec(st)

    def exec(self, st):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(st).__name__)
        self.line = st.lineno
        m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant): return
        if isinstance(st.value, (ast.ListComp, ast.SetComp)):
            # a comprehension run for its effects only: the loop it stands for
            f = self.loop_of.get(id(st))
            if f is None: f = self.loop_of[id(st)] = (comp_loop(st), st)
            return self.exec(f[0])
        self.eval(st.value)
    def s_Pass(self, st): pass
    def s_Global(self, st): raise Unsupported("global")
    def s_Nonlocal(self, st): self.frames[-1].nonlocals |= set(st.names)
    def s_Import(self, st):
        for a in st.names: self.setvar(a.asname or a.name.split(".")[0], self.module(a.name))
    def s_Return(self, st): raise _Ret(self.eval(st.value) if st.value else None)
    def s_Break(self, st): raise _Break()
    def s_Continue(self, st): raise _Cont()
    def s_Assert(self, st):
        c = self.truth(self.eval(st.test))
        self.guard(c, "AssertionError", "assert")
    def s_FunctionDef(self, st):
        if st.decorator_list: raise Unsupported("decorated nested function")
        f = FuncV(st, self.frames[-1].module, self.frames[-1], self._q(st.name), None, self._defaults(st.args))
        self.setvar(st.name, f)
    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets: self.assign(t, v)
    def s_AnnAssign(self, st):
        if st.value is not None: self.assign(st.target, self.eval(st.value))
    def s_AugAssign(self, st):
        op = type(st.op)
        if isinstance(st.target, ast.Name):
            old = self.lookup(st.target.id)
            if isinstance(old, Ref) and isinstance(self.get(old), SeqV) and self.get(old).kind == "list" and op is ast.Add:
                self.B.method(self, old, "extend", [self.eval(st.value)], {}); return
            self.setvar(st.target.id, self.binop(op, old, self.eval(st.value)))
        elif isinstance(st.target, ast.Subscript):
            o, k = self.eval(st.target.value), self.eval(st.target.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, old, self.eval(st.value)))
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value)
            old = self.getattr(o, st.target.attr)
            if isinstance(old, Ref) and op is ast.Add and isinstance(self.get(old), SeqV) and self.get(old).kind == "list":
                self.B.method(self, old, "extend", [self.eval(st.value)], {}); return
            self.setattr(o, st.target.attr, self.binop(op, old, self.eval(st.value)))
        else: raise Unsupported("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, len(t.elts) if not star else None)
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                self.guard(len(vals) >= len(t.elts) - 1, "ValueError", "unpacking")
                vals = list(vals[:i]) + [self.newlist(list(vals[i:len(vals) - after]))] + list(vals[len(vals) - after:])
                for x, y in zip(t.elts, vals): self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            for x, y in zip(t.elts, vals): self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice): raise Unsupported("slice assignment")
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value), t.attr, v)
        else: raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if n is not None: self.guard(len(v) == n, "ValueError", "unpacking")
            return list(v)
        s = self.iterable(v)
        if n is None:
            if s[0].items is None: raise Unsupported("starred unpacking of a symbolic sequence")
            return [s[1](i) for i in range(len(s[0].items))]
        self.guard(conc(zint(s[0].n) == n), "ValueError", "unpacking")
        return [s[1](i) for i in range(n)]

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript): self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Name): del self.frames[-1].vars[t.id]
            else: raise Unsupported("del")

    def s_If(self, st):
        if self.branch(self.truth(self.eval(st.test))): self.exec_block(st.body)
        else: self.exec_block(st.orelse)

    def s_Raise(self, st):
        if st.exc is None: raise Unsupported("re-raise")
        e = st.exc
        if isinstance(e, ast.Call):
            for a in e.args: self.eval(a)
            e = e.func
        v = self.eval(e) if not isinstance(e, ast.Name) or e.id in self.B.BUILTINS else self.lookup(e.id)
        raise PyExc(v.name if isinstance(v, (ExtV, ClassV)) else "Exception", ast.unparse(st))

    def s_Try(self, st):
        types = []
        for h in st.handlers:
            if h.type is None: types.append("Exception")
            elif isinstance(h.type, ast.Tuple): types += [ast.unparse(x) for x in h.type.elts]
            else: types.append(ast.unparse(h.type))
        self.handlers.append(types)
        depth = len(self.handlers)
        try:
            try: self.exec_block(st.body)
            finally:
                if len(self.handlers) >= depth: del self.handlers[depth - 1:]
        except PyExc as ex:
            for h in st.handlers:
                ts = ["Exception"] if h.type is None else [ast.unparse(x) for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [ast.unparse(h.type)]
                if any(exc_is(ex.etype, t) for t in ts):
                    if h.name: self.setvar(h.name, ExtV("exc"))
                    self.exec_block(h.body)
                    break
            else:
                self.exec_block(st.finalbody)
                raise
        else: self.exec_block(st.orelse)
        self.exec_block(st.finalbody)

    def s_For(self, st):
        v = self.eval(st.iter)
        s, elem = self.iterable(v)
        self.frames[-1].loops += 1
        n = conc(s.n)
        if not is_z(n) and n <= self.UNROLL:
            src = self.root(v) if isinstance(v, Ref) else None
            olds = [(Ref(c, p, self.nev), self.get(Ref(c, p, self.nev)), q) for c, p, q in self.sources(v)] if src is None else []
            i = 0
            while True:
                if src is not None:            # a list may grow while it is iterated
                    cur = self.get(src)
                    nn = conc(length(cur)) if not isinstance(cur, IterV) else n
                    if is_z(nn): raise Unsupported("iterated container changed")
                    if isinstance(cur, (MapV, CMapV)):
                        if nn != n: self.guard(False, "RuntimeError", "dict changed during iteration")
                    else: n = nn
                if i >= n: break
                if i > 4 * self.UNROLL: raise Unsupported("unrolling")
                if src is not None and isinstance(self.get(src), SeqV): s, elem = self.iterable(src)
                try:
                    self.assign(st.target, elem(i))
                    self.exec_block(st.body)
                except _Break: return
                except _Cont: pass
                i += 1
                for r, t0, strict in olds:
                    t1 = self.get(r)
                    if t1 is not t0:
                        if isinstance(t0, SeqV) and isinstance(t1, SeqV) and not is_z(t0.n) and eqv(t0.n, t1.n) is True and all(conc(zb(eqv(t0.at(j), t1.at(j)))) is True for j in range(0 if strict else i, t0.n)): continue
                        if isinstance(t0, CMapV) and isinstance(t1, CMapV) and list(t0.d) == list(t1.d) and all(conc(zb(eqv(t0.d[k], t1.d[k]))) is True for k in list(t0.d)[0 if strict else i:]): continue
                        raise Unsupported("a container is modified while it is iterated")
            self.exec_block(st.orelse)
            return
        from .loops import sym_for
        sym_for(self, st, s, elem, n, v)

    def s_While(self, st):
        self.frames[-1].loops += 1
        from .loops import sym_while
        sym_while(self, st)

    def s_With(self, st): raise Unsupported("with")


class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class _Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.m.get(n.id, n.id), n.ctx), n)


def comp_loop(st):
    import copy
    e = copy.deepcopy(st.value)
    names = {x.id: x.id + "$c" for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for y in [e.elt] + e.generators for x in ast.walk(y)): raise Unsupported("nested scopes in a comprehension run for its effects")
    R = _Rename(names)
    first = e.generators[0].iter                   # evaluated outside the scope of the comprehension
    body = [ast.copy_location(ast.Expr(R.visit(e.elt)), st)]
    for k, g in reversed(list(enumerate(e.generators))):
        for c in reversed(g.ifs): body = [ast.copy_location(ast.If(R.visit(c), body, []), st)]
        body = [ast.copy_location(ast.For(R.visit(g.target), first if k == 0 else R.visit(g.iter), body, []), st)]
    return ast.fix_missing_locations(body[0])


class GenSrc:
    def __init__(self, src): self.src = src


class IterV:
    """an iterable view: a SeqV and an accessor that may yield references"""
    def __init__(self, seq, elem, src=(), strict=False): self.seq, self.elem, self.src, self.strict = seq, elem, src, strict      # src: the containers it looks at


class KeysView:
    """a live view of a dict's keys"""
    def __init__(self, o): self.o = o


class _Skip: pass
_SKIP = _Skip()


def _sums():
    from .builtins import SUMS
    return SUMS


class Skolem:
    """constants created since `mark` (they depend on the index K) become functions of K"""
    def __init__(self, K, mark): self.K, self.mark, self.map, self.memo = K, mark, {}, {}
    skip = ()
    def late(self, e):
        nm = e.decl().name()
        if "!" not in nm: return False
        for h in self.skip:
            if nm == h or nm.startswith(h + "."): return False
        try: return int(nm.split("!")[-1].split(".")[0]) > self.mark
        except ValueError: return False
    def islate(self, d):
        """a function created since the mark"""
        nm = d.name()
        if "!" not in nm: return False
        for h in self.skip:
            if nm == h or nm.startswith(h + "."): return False
        try: return int(nm.split("!")[-1].split(".")[0]) > self.mark
        except ValueError: return False
    def z(self, e):
        if not self.has_late(e): return e
        return self.rw(e)
    def has_late(self, e):
        sums = _sums()
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if self.late(x) and not x.eq(self.K): return True
                    if x.num_args() and x.decl().name() in sums.defs: todo.append(sums.defs[x.decl().name()][2])
                    elif any(self.has_late(b) for b in core.hidden(x.decl().name())): raise Unsupported("a symbol of the iteration inside %s" % x.decl().name())
                todo.extend(x.children())
        return False
    def rw(self, e):
        memo = self.memo
        k = e.get_id()
        if k in memo: return memo[k][1]
        if z3.is_quantifier(e):
            from .core import NAMES
            vs = [z3.Const("rwq:%s" % NAMES("x").replace("!", "_"), e.var_sort(i)) for i in range(e.num_vars())]
            inst = lambda b: z3.substitute_vars(b, *vs[::-1])
            body = self.rw(inst(e.body()))
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                ts = [self.rw(inst(c)) for c in p.children()]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            if e.is_lambda(): raise Unsupported("lambda")
            r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats) if pats else (z3.ForAll if e.is_forall() else z3.Exists)(vs, body)
        elif z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and self.late(e) and not e.eq(self.K):
                if e.num_args() == 0: r = self.fn(e)
                else:
                    nm = d.name()
                    if nm not in self.map: self.map[nm] = z3.Function("sk:" + nm, z3.IntSort(), *[d.domain(i) for i in range(d.arity())], d.range())
                    r = self.map[nm](self.K, *[self.rw(c) for c in e.children()])
            elif d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and d.name() in _sums().defs and self.has_late(_sums().defs[d.name()][2]):
                j = z3.Int("rwk")
                r = _sums().sum(self.rw(_sums().body(e, j)), j)(self.rw(e.children()[-1]))
            elif e.num_args() == 0: r = e
            else:
                ch = e.children(); cs = [self.rw(c) for c in ch]
                r = e if all(a.eq(b) for a, b in zip(ch, cs)) else d(*cs) if d.kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(e, *[(a, b) for a, b in zip(ch, cs) if not a.eq(b)])
        else: r = e
        memo[k] = (e, r)
        return r
    def fn(self, c):
        nm = c.decl().name()
        if nm not in self.map: self.map[nm] = z3.Function("sk:" + nm, z3.IntSort(), c.sort())
        return self.map[nm](self.K)
    def v(self, v):
        if is_z(v): return self.z(v)
        if isinstance(v, AttrV): return AttrV(self.z(v.t))
        if isinstance(v, tuple): return tuple(self.v(x) for x in v)
        if isinstance(v, SeqV):
            if v.items is not None: return cseq([self.v(x) for x in v.items], v.kind)
            def at(i):
                j = fresh_int("sj!0"); return subst(self.v_late(v.at(j), j), [(j, zint(i))])
            return SeqV(self.v(v.n), at, v.kind, v.ety, v.pos)
        if isinstance(v, OptV): return OptV(self.v(v.none), self.v(v.v))
        if isinstance(v, CMapV): return CMapV({k: self.v(x) for k, x in v.d.items()}, self.v(v.rest) if v.rest is not None else None)
        if isinstance(v, RecV): return RecV(v.cls, {k: self.v(x) for k, x in v.f.items()})
        if isinstance(v, MapV):
            late = False
            for nm in decls(v):
                if "!" in nm and nm != self.K.decl().name() and not nm.startswith(("kk!", "dj!")):
                    try: late = late or int(nm.split("!")[-1].split(".")[0]) > self.mark
                    except ValueError: pass
            if not late: return v
            def keyed(f):
                def g(x):
                    k, vs = core.bound_key(v.kty)
                    return subst(self.v_late(f(k), *vs), list(zip(vs, core.keyterms(x, v.kty))))
                return g
            def at(i):
                j = fresh_int("sj!0"); return subst(self.v_late(v.key(j), j), [(j, zint(i))])
            return MapV(self.v(v.n), at, keyed(v.has), keyed(v.pos), keyed(v.val), v.kty, v.vty)
        return v
    def v_late(self, v, *js):
        keep = {j.decl().name() for j in js}
        sub = Skolem(self.K, self.mark); sub.map = self.map; sub.skip = self.skip
        orig = sub.late
        sub.late = lambda e: orig(e) and e.decl().name() not in keep
        return sub.v(v)


def _has_q(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    v = z3.is_quantifier(e) or any(_has_q(c) for c in e.children())
    cache[k] = (e, v)
    return v


def _shape_mismatch(k, kty):
    try: ks = flat(k)
    except Unsupported: return True
    ss = flat_sorts(kty)
    if len(ks) != len(ss): return True
    for a, s in zip(ks, ss):
        if a.sort() != s and not ({a.sort(), s} <= {z3.IntSort(), z3.RealSort(), z3.BoolSort()}): return True
    return False


def _inner(v): return v.v if isinstance(v, OptV) else v


def _may_prefix(p, path, strict):
    """may p be a prefix of path?"""
    if len(p) > len(path): return False
    if strict and len(p) >= len(path): return False
    for (ta, ka), (tb, kb) in zip(p, path):
        if ta != tb: return False
        if ka is None or kb is None: continue
        e = eqv(ka, kb) if not (isinstance(ka, str) or isinstance(kb, str)) else ka == kb
        if conc(e) is False: return False
    return True


def _is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
    return False


# Python's floor division and modulo for a symbolic positive divisor (ground facts are added where they occur)
DIV = z3.Function("pydiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("pymod", z3.IntSort(), z3.IntSort(), z3.IntSort())

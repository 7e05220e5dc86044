"""Types, symbolic values and the operations on them.

A scalar value is a Python int/bool/str/None/Fraction (concrete) or a z3 expression.  Containers are immutable value
trees (SeqV, MapV, SetV, RecV, OptV); mutable Python containers and objects are `Ref`s to a cell of the store that
holds such a tree.  Python ints are mathematical integers (exact), floats are reals (an assumption, reported)."""
import itertools
from fractions import Fraction
import os
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset: the proof cannot be redone (never a violation)."""


# ---------------------------------------------------------------- types
class Ty:
    def __repr__(self): return str(self)
    def __eq__(self, o): return type(self) is type(o) and self.__dict__ == o.__dict__
    def __hash__(self): return hash(str(self))


class _Scalar(Ty):
    def __init__(self, name, sort): self.name, self._sort = name, sort
    def __str__(self): return self.name
    def sort(self): return self._sort


TInt, TReal, TBool = _Scalar("int", z3.IntSort()), _Scalar("real", z3.RealSort()), _Scalar("bool", z3.BoolSort())
_sorts = {}


# effort is counted in z3's own steps and in processor time, so that answers do not depend on how busy the machine is;
# the wall-clock limits (WALL times as long) are only a safety net
STEPS = int(os.environ.get("DV_STEPS", "3000000"))
WALL = 3.0


def cpu():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


def step_limit(s, secs):
    s.set("rlimit", int(secs * STEPS))
    s.set("timeout", int(secs * WALL * 1000))


def usort(name):
    if name not in _sorts: _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


def TSort(name): return _Scalar(name, usort(name))


class TNone(Ty):
    def __str__(self): return "None"


class TConst(Ty):
    """exactly this concrete value"""
    def __init__(self, v): self.v = v
    def __str__(self): return "const %r" % (self.v,)


class TList(Ty):
    def __init__(self, e, kind="list"): self.e, self.kind = e, kind
    def __str__(self): return "%s[%s]" % (self.kind, self.e)


class TDict(Ty):
    def __init__(self, k, v): self.k, self.v = k, v
    def __str__(self): return "dict[%s,%s]" % (self.k, self.v)


class TSet(Ty):
    def __init__(self, e): self.e = e
    def __str__(self): return "set[%s]" % self.e


class TTuple(Ty):
    def __init__(self, *es): self.es = es
    def __str__(self): return "tuple[%s]" % ",".join(map(str, self.es))


class TRec(Ty):
    def __init__(self, cls, **fields): self.cls, self.fields = cls, fields
    def __str__(self): return "%s{%s}" % (self.cls, ",".join("%s:%s" % f for f in self.fields.items()))
    def __eq__(self, o): return type(self) is type(o) and self.cls is o.cls and self.fields == o.fields
    __hash__ = Ty.__hash__


class TStruct(Ty):
    """a dict whose keys are a known set of constants"""
    def __init__(self, fields): self.fields = dict(fields)
    def __str__(self): return "struct{%s}" % ",".join("%s:%s" % f for f in self.fields.items())


class TOpt(Ty):
    def __init__(self, t): self.t = t
    def __str__(self): return "opt[%s]" % self.t


class TBottom(Ty):
    def __str__(self): return "bottom"


class TOpaque(Ty):
    """a python-level value with no symbolic content (function, class, ...)"""
    def __init__(self, v): self.v = v
    def __str__(self): return "opaque %r" % (self.v,)
    def __eq__(self, o): return type(self) is type(o) and self.v is o.v
    __hash__ = Ty.__hash__


# ---------------------------------------------------------------- values
def is_z(v): return isinstance(v, z3.ExprRef)


class SeqV:
    """an immutable sequence: length n, element function at(i) (i python int or z3 Int); kind list/tuple/str/nd.
    pos, if given, is the inverse of at (the elements are then distinct)."""
    __slots__ = ("n", "at", "kind", "ety", "pos", "items", "kpos", "multi", "made")
    def __init__(self, n, at, kind="list", ety=None, pos=None, items=None):
        self.made = None            # how it was made from others: ("append", s, x), ("concat", a, b), ("remove", s, i)
        self.kpos = None            # for sequences of pairs: inverse of the first components
        self.n, self.at, self.kind, self.ety, self.pos, self.items = n, at, kind, ety, pos, items
    def __repr__(self): return "Seq(%s,n=%s)" % (self.kind, self.n)


def cseq(items, kind="list"):
    items = list(items)
    def at(i):
        if isinstance(i, int) and not isinstance(i, bool): return items[i]
        i = z3.simplify(i) if is_z(i) else i
        if is_z(i) and z3.is_int_value(i): return items[i.as_long()]
        if not items: raise Unsupported("element of an empty list at a symbolic index")
        r = items[-1]
        for j in range(len(items) - 2, -1, -1): r = ite(i == j, items[j], r)
        return r
    return SeqV(len(items), at, kind, items=items)


class MapV:
    """an immutable insertion-ordered dict: size n, i-th key, membership, position of a key, value of a key"""
    __slots__ = ("n", "key", "has", "pos", "val", "kty", "vty")
    def __init__(self, n, key, has, pos, val, kty, vty=None):
        self.n, self.key, self.has, self.pos, self.val, self.kty, self.vty = n, key, has, pos, val, kty, vty
    def __repr__(self): return "Map(n=%s)" % (self.n,)


class CMapV:
    """a dict whose keys are concrete; `rest`: opaque user attributes kept beside the known keys (or None)"""
    __slots__ = ("d", "rest")
    def __init__(self, d, rest=None): self.d, self.rest = dict(d), rest
    def __repr__(self): return "CMap(%r)" % (self.d,)


class SetV:
    """a set: membership; n its size; enum(i) an arbitrary but fixed enumeration with inverse pos"""
    __slots__ = ("n", "has", "enum", "pos", "kty")
    def __init__(self, n, has, enum, pos, kty): self.n, self.has, self.enum, self.pos, self.kty = n, has, enum, pos, kty


class RecV:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls, self.f = cls, dict(f)
    def __repr__(self): return "Rec(%s)" % (getattr(self.cls, "name", self.cls),)


class OptV:
    __slots__ = ("none", "v")
    def __init__(self, none, v): self.none, self.v = none, v
    def __repr__(self): return "Opt(%s,%s)" % (self.none, self.v)


class Ref:
    __slots__ = ("cell", "path", "stamp")
    def __init__(self, cell, path=(), stamp=0): self.cell, self.path, self.stamp = cell, tuple(path), stamp
    def __repr__(self): return "Ref(%s%s)" % (self.cell, "".join("[%s]" % (p,) for p in self.path))


class AttrV:
    """an opaque dict of keyword attributes (by value)"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t


Attr = usort("Attrs")
TAttr = _Scalar("attrs", Attr)
ATTR_EMPTY = z3.Const("attrs_empty", Attr)
ATTR_UPD = z3.Function("attrs_update", Attr, Attr, Attr)      # {**a, **b}


# ---------------------------------------------------------------- scalars
def zint(v):
    if is_z(v): return v
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    raise Unsupported("not an int: %r" % (v,))


def is_scalar(v): return is_z(v) or v is None or isinstance(v, (int, bool, str, Fraction))


def to_z(v, sort=None):
    """a z3 term for a scalar value, coerced to `sort` when given"""
    if isinstance(v, AttrV): v = v.t
    if isinstance(v, bool): v = z3.BoolVal(v)
    elif isinstance(v, int): v = z3.IntVal(v)
    elif isinstance(v, Fraction): v = z3.RealVal(str(v))
    elif isinstance(v, str): v = strconst(v)
    elif not is_z(v): raise Unsupported("no term for %r" % (v,))
    if sort is not None and v.sort() != sort:
        if sort == z3.RealSort() and v.sort() == z3.IntSort(): return z3.ToReal(v)
        if sort in (z3.IntSort(), z3.RealSort()) and v.sort() == z3.BoolSort():
            return z3.If(v, *((z3.IntVal(1), z3.IntVal(0)) if sort == z3.IntSort() else (z3.RealVal(1), z3.RealVal(0))))
        raise Unsupported("cannot use %s as %s" % (v.sort(), sort))
    return v


Str = usort("Str")
TStr = _Scalar("str", Str)
_strs = {}


CHR = z3.Function("chr", z3.IntSort(), Str)       # the digit character of 0..35
ORD = z3.Function("ord", Str, z3.IntSort())


def strconst(s):
    if len(s) == 1 and s in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ": return CHR(z3.IntVal(int(s, 36)))
    if s not in _strs: _strs[s] = z3.Const("str:%s" % s, Str)
    return _strs[s]


def common(a, b):
    """two scalar terms coerced to a common sort (None if they have none)"""
    a, b = to_z(a), to_z(b)
    if a.sort() == b.sort(): return a, b
    sa, sb = a.sort(), b.sort()
    num = (z3.BoolSort(), z3.IntSort(), z3.RealSort())
    if sa in num and sb in num:
        s = z3.RealSort() if z3.RealSort() in (sa, sb) else z3.IntSort()
        return to_z(a, s), to_z(b, s)
    return None


def subterms(*es):
    """all subterms (quantifier bodies included)"""
    seen, todo = set(), [e for e in es if is_z(e)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        yield e
        if z3.is_quantifier(e): todo.append(e.body())
        elif z3.is_app(e): todo.extend(e.children())


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    return z3.And(*xs) if len(xs) > 1 else xs[0] if xs else True


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    return z3.Or(*xs) if len(xs) > 1 else xs[0] if xs else False


def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def Implies(a, b): return Or(Not(a), b) if isinstance(a, bool) or isinstance(b, bool) else z3.Implies(a, b)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def conc(v):
    """a concrete python value for a closed z3 term where that is syntactically evident"""
    if not is_z(v): return v
    v = z3.simplify(v)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def iadd(a, b): return a + b if not (is_z(a) or is_z(b)) else conc(zint(a) + zint(b))
def isub(a, b): return a - b if not (is_z(a) or is_z(b)) else conc(zint(a) - zint(b))


# ---------------------------------------------------------------- structure
_cnt = itertools.count()
class _Names:
    """fresh names; reset at the start of every path so that replays produce the same terms"""
    def __init__(self): self.n = 0
    def __call__(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)


NAMES = _Names()


def fresh_int(base): return z3.Int(NAMES(base))


def flat(v):
    """the z3 terms of a key value (scalar or tuple of scalars)"""
    if isinstance(v, tuple): return [t for x in v for t in flat(x)]
    if isinstance(v, SeqV) and v.items is not None: return [t for x in v.items for t in flat(x)]
    return [to_z(v)]


def flat_sorts(ty):
    if isinstance(ty, TTuple): return [s for e in ty.es for s in flat_sorts(e)]
    if isinstance(ty, _Scalar): return [ty.sort()]
    raise Unsupported("key type %s" % ty)


def unflat(ty, ts):
    ts = list(ts)
    def go(t):
        if isinstance(t, TTuple): return tuple(go(e) for e in t.es)
        return ts.pop(0)
    return go(ty)


def keyterms(k, ty):
    ks = flat(k)
    ss = flat_sorts(ty)
    if len(ks) != len(ss): raise Unsupported("key shape %s for %s" % (k, ty))
    return [to_z(a, s) for a, s in zip(ks, ss)]


def bound_key(ty, base="kk"):
    """fresh variables for a quantified key"""
    vs = [z3.Const(NAMES(base), s) for s in flat_sorts(ty)]
    return unflat(ty, vs), vs


def fresh(ty, name, args=(), facts=None):
    """a fresh symbolic value of type ty; with args, a family of values indexed by these z3 terms.
    Well-formedness facts (sizes >= 0, dict key tables) are appended to `facts` (a list), universally closed."""
    args = tuple(args)
    sorts = [a.sort() for a in args]
    def fn(suffix, *more_then_sort):
        more, sort = more_then_sort[:-1], more_then_sort[-1]
        if not sorts and not more: return lambda: z3.Const(name + suffix, sort)
        f = z3.Function(name + suffix, *sorts, *more, sort)
        return lambda *xs: f(*args, *xs)
    def close(vs, body):
        # facts are stated for all values of the family indices
        if facts is None: return
        if args:
            ps = [z3.Const("p%d!%s" % (i, name), s) for i, s in enumerate(sorts)]
            body = z3.substitute(body, *[(a, p) for a, p in zip(args, ps)]) if all(z3.is_const(a) for a in args) else None
            if body is None: raise Unsupported("family over non-constant indices")
            vs = ps + list(vs)
        facts.append(z3.ForAll(vs, body) if vs else body)
    if isinstance(ty, _Scalar):
        t = fn("", ty.sort())()
        return AttrV(t) if ty == TAttr else t
    if isinstance(ty, TNone): return None
    if isinstance(ty, TConst): return ty.v
    if isinstance(ty, TOpaque): return ty.v
    if isinstance(ty, TTuple): return tuple(fresh(e, "%s.%d" % (name, i), args, facts) for i, e in enumerate(ty.es))
    if isinstance(ty, TRec): return RecV(ty.cls, {k: fresh(t, "%s.%s" % (name, k), args, facts) for k, t in ty.fields.items()})
    if isinstance(ty, TStruct):
        return CMapV({k: fresh(t, "%s.%s" % (name, k), args, facts) for k, t in ty.fields.items() if k != "**"}, fresh(TAttr, name + ".rest", args, facts) if "**" in ty.fields else None)
    if isinstance(ty, TOpt): return OptV(fn(".none", z3.BoolSort())(), fresh(ty.t, name + ".v", args, facts))
    if isinstance(ty, TDict) and isinstance(ty.k, TBottom): return CMapV({})
    if isinstance(ty, TList):
        if isinstance(ty.e, TBottom): return cseq([], ty.kind)
        n = fn(".len", z3.IntSort())()
        close([], n >= 0)
        i0 = z3.Int("ix!%s" % name)
        inner = []
        proto = fresh(ty.e, name + ".at", args + (i0,), facts)
        return SeqV(n, lambda i: subst(proto, [(i0, zint(i))]), ty.kind, ty.e)
    if isinstance(ty, TDict):
        ks = flat_sorts(ty.k)
        n = fn(".n", z3.IntSort())()
        close([], n >= 0)
        hasf = fn(".has", *ks, z3.BoolSort()); posf = fn(".pos", *ks, z3.IntSort())
        keyfs = [fn(".key%d" % j, z3.IntSort(), s) for j, s in enumerate(ks)]
        kvs = [z3.Const("kx%d!%s" % (j, name), s) for j, s in enumerate(ks)]
        def key(i): return unflat(ty.k, [f(zint(i)) for f in keyfs])
        def has(k): return hasf(*keyterms(k, ty.k))
        def pos(k): return posf(*keyterms(k, ty.k))
        proto = fresh(ty.v, name + ".val", args + tuple(kvs), facts)
        def val(k): return subst(proto, list(zip(kvs, keyterms(k, ty.k))))
        m = MapV(n, key, has, pos, val, ty.k, ty.v)
        if facts is not None:
            i = z3.Int("ki!%s" % name)
            k, kv = bound_key(ty.k)
            ki = key(i)
            close([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(ki), pos(ki) == i)))
            close(kv, z3.Implies(has(k), z3.And(0 <= pos(k), pos(k) < n, zb(eqv(key(pos(k)), k)))))
        return m
    if isinstance(ty, TSet):
        d = fresh(TDict(ty.e, TConst(None)), name, args, facts)
        return SetV(d.n, d.has, d.key, d.pos, ty.e)
    if isinstance(ty, TBottom): raise Unsupported("no type known for %s" % name)
    raise Unsupported("fresh of %s" % ty)


def subst(v, pairs):
    """v with z3 constants replaced"""
    if not pairs: return v
    if is_z(v): return z3.substitute(v, *[(a, to_z(b, a.sort())) for a, b in pairs])
    if isinstance(v, AttrV): return AttrV(subst(v.t, pairs))
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    s = lambda x: subst(x, pairs)
    if isinstance(v, SeqV):
        if v.items is not None: return cseq([s(x) for x in v.items], v.kind)
        # an index may itself mention the constants being replaced: go through a fresh index
        def at(i):
            j = fresh_int("sj"); return subst(s(v.at(j)), [(j, zint(i))])
        def pos(x):
            return _subst_fn(v.pos, x, pairs)
        return SeqV(s(v.n), at, v.kind, v.ety, pos if v.pos else None)
    if isinstance(v, MapV):
        def on_key(f): return lambda k: _subst_fn(f, k, pairs, v.kty)
        def key(i):
            j = fresh_int("sj"); return subst(s(v.key(j)), [(j, zint(i))])
        return MapV(s(v.n), key, on_key(v.has), on_key(v.pos), on_key(v.val), v.kty, v.vty)
    if isinstance(v, SetV):
        def on_key(f): return lambda k: _subst_fn(f, k, pairs, v.kty)
        def key(i):
            j = fresh_int("sj"); return subst(s(v.enum(j)), [(j, zint(i))])
        return SetV(s(v.n), on_key(v.has), key, on_key(v.pos), v.kty)
    if isinstance(v, CMapV): return CMapV({k: s(x) for k, x in v.d.items()}, s(v.rest) if v.rest is not None else None)
    if isinstance(v, RecV): return RecV(v.cls, {k: s(x) for k, x in v.f.items()})
    if isinstance(v, OptV): return OptV(s(v.none), s(v.v))
    return v


def _subst_fn(f, k, pairs, kty=None):
    ks = flat(k)
    vs = [z3.Const(NAMES("sk"), t.sort()) for t in ks]
    kk = unflat(kty, vs) if kty is not None else (vs[0] if len(vs) == 1 else tuple(vs))
    return subst(subst(f(kk), pairs), list(zip(vs, ks)))


def ite(c, a, b):
    c = conc(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if is_scalar(a) and is_scalar(b):
        if a is None or b is None:
            if a is None and b is None: return None
            return OptV(c, b) if a is None else OptV(z3.Not(c), a)
        if not is_z(a) and not is_z(b) and type(a) is type(b) and a == b: return a
        p = common(a, b)
        if p is None: raise Unsupported("merge of %s and %s" % (a, b))
        return z3.If(c, p[0], p[1])
    if isinstance(a, AttrV) and isinstance(b, AttrV): return AttrV(z3.If(c, a.t, b.t))
    if isinstance(a, OptV) or isinstance(b, OptV) or a is None or b is None:
        oa = a if isinstance(a, OptV) else OptV(a is None, a)
        ob = b if isinstance(b, OptV) else OptV(b is None, b)
        v = ob.v if oa.v is None else oa.v if ob.v is None else ite(c, oa.v, ob.v)
        return OptV(conc(z3.If(c, zb(oa.none), zb(ob.none))), v)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return cseq([ite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if a.n == 0 and not is_z(a.n): at = b.at
        elif b.n == 0 and not is_z(b.n): at = a.at
        else: at = once(lambda i: ite(c, a.at(i), b.at(i)))
        return SeqV(ite(c, a.n, b.n), at, a.kind, a.ety or b.ety)
    if isinstance(a, CMapV) and isinstance(b, CMapV) and set(a.d) == set(b.d):
        return CMapV({k: ite(c, a.d[k], b.d[k]) for k in a.d}, ite(c, a.rest or AttrV(ATTR_EMPTY), b.rest or AttrV(ATTR_EMPTY)) if a.rest is not None or b.rest is not None else None)
    if isinstance(a, RecV) and isinstance(b, RecV) and a.cls is b.cls and set(a.f) == set(b.f):
        return RecV(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, (MapV, CMapV)) and isinstance(b, (MapV, CMapV)):
        kty = a.kty if isinstance(a, MapV) else b.kty if isinstance(b, MapV) else TInt
        a, b = to_map(a, kty), to_map(b, kty)
        def val(k):
            x = a.val(k) if not _nomap(a) else b.val(k)
            y = b.val(k) if not _nomap(b) else x
            return ite(c, x, y)
        return MapV(ite(c, a.n, b.n), lambda i: ite(c, a.key(i), b.key(i)), lambda k: zb_ite(c, a.has(k), b.has(k)),
                    lambda k: ite(c, a.pos(k), b.pos(k)), val, kty, a.vty or b.vty)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
        return Ref(a.cell, tuple(x if x is y else ite(c, x, y) for x, y in zip(a.path, b.path)), max(a.stamp, b.stamp))
    raise Unsupported("merge of %r and %r" % (a, b))


def _nomap(m): return not is_z(m.n) and m.n == 0
def zb_ite(c, a, b): return conc(z3.If(c, zb(a), zb(b)))


def to_map(m, kty=None):
    """a symbolic MapV for a concrete-key dict"""
    if isinstance(m, MapV): return m
    items = list(m.d.items())
    if kty is None:
        if all(isinstance(k, int) for k, _ in items): kty = TInt
        elif all(isinstance(k, str) for k, _ in items): kty = TStr
        else: kty = typeof(items[0][0])
    n = len(items)
    def key(i):
        if not items: return unflat(kty, [z3.Const("nokey!%s" % s, s) for s in flat_sorts(kty)])
        return cseq([k for k, _ in items]).at(i)
    def has(k): return Or(*[eqv(k, kk) for kk, _ in items]) if items else False
    def pos(k):
        r = z3.IntVal(0)
        for j in range(n - 1, -1, -1): r = ite(eqv(k, items[j][0]), j, r)
        return r
    def val(k):
        if not items: raise Unsupported("value of an empty dict")
        r = items[-1][1]
        for kk, vv in reversed(items[:-1]): r = ite(eqv(k, kk), vv, r)
        return r
    return MapV(n, key, has, pos, val, kty, joinall([typeof(v) for _, v in items]) if items else TBottom())


def eqv(a, b):
    """Python == between two values, as a Bool term or bool"""
    if a is b: return True
    if isinstance(a, AttrV) and isinstance(b, AttrV): return a.t == b.t
    if isinstance(a, OptV) or isinstance(b, OptV):
        oa = a if isinstance(a, OptV) else OptV(a is None, a)
        ob = b if isinstance(b, OptV) else OptV(b is None, b)
        both = And(Not(oa.none), Not(ob.none))
        inner = True if both is False else eqv(oa.v, ob.v)
        return Or(And(oa.none, ob.none), And(both, inner))
    if a is None or b is None: return False
    if is_scalar(a) and is_scalar(b):
        if not is_z(a) and not is_z(b): return a == b
        p = common(a, b)
        if p is None: return False
        return conc(p[0] == p[1])
    if isinstance(a, tuple): a = cseq(a, "tuple")
    if isinstance(b, tuple): b = cseq(b, "tuple")
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if a.kind != b.kind and not {a.kind, b.kind} <= {"list", "nd"} : return False
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): return False
            return And(*[eqv(x, y) for x, y in zip(a.items, b.items)])
        la, lb = zint(a.n), zint(b.n)
        if (a.items is not None and not a.items) or (b.items is not None and not b.items): return conc(la == lb)
        c = a if a.items is not None else b if b.items is not None else None
        if c is not None:
            return And(la == lb, *[eqv(a.at(j), b.at(j)) for j in range(len(c.items))])
        i = fresh_int("ei")
        return z3.And(la == lb, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < la), zb(eqv(a.at(i), b.at(i))))))
    if isinstance(a, CMapV) and isinstance(b, CMapV):
        if set(a.d) != set(b.d): return False
        r = [eqv(a.d[k], b.d[k]) for k in a.d]
        if a.rest is not None or b.rest is not None:
            r.append(eqv(a.rest or AttrV(ATTR_EMPTY), b.rest or AttrV(ATTR_EMPTY)))
        return And(*r)
    if isinstance(a, (MapV, CMapV)) and isinstance(b, (MapV, CMapV)):
        kty = a.kty if isinstance(a, MapV) else b.kty
        a, b = to_map(a, kty), to_map(b, kty)
        if _nomap(a): return conc(zint(b.n) == 0)
        if _nomap(b): return conc(zint(a.n) == 0)
        k, vs = bound_key(kty)
        return z3.And(zint(a.n) == zint(b.n),
                      z3.ForAll(vs, z3.And(zb(a.has(k)) == zb(b.has(k)),
                                           z3.Implies(zb(a.has(k)), zb(eqv(a.val(k), b.val(k)))))))
    if isinstance(a, SetV) and isinstance(b, SetV):
        k, vs = bound_key(a.kty)
        return z3.ForAll(vs, zb(a.has(k)) == zb(b.has(k)))
    if isinstance(a, RecV) and isinstance(b, RecV) and a.cls is b.cls:
        return And(*[eqv(a.f[k], b.f[k]) for k in a.f])
    if type(a) is not type(b): return False
    raise Unsupported("equality of %r and %r" % (a, b))


def typeof(v):
    if isinstance(v, bool): return TBool
    if isinstance(v, int): return TInt
    if isinstance(v, Fraction): return TReal
    if isinstance(v, str): return TConst(v)
    if v is None: return TNone()
    if isinstance(v, AttrV): return TAttr
    if is_z(v):
        s = v.sort()
        return TInt if s == z3.IntSort() else TReal if s == z3.RealSort() else TBool if s == z3.BoolSort() else TStr if s == Str else TSort(s.name())
    if isinstance(v, tuple): return TTuple(*[typeof(x) for x in v])
    if isinstance(v, SeqV):
        if v.items is not None: return TList(joinall([typeof(x) for x in v.items]) if v.items else TBottom(), v.kind)
        if v.ety is not None and not isinstance(v.ety, TBottom): return TList(v.ety, v.kind)
        return TList(typeof(v.at(fresh_int("ty"))), v.kind)
    if isinstance(v, CMapV):
        if not v.d: return TDict(TBottom(), TBottom())
        return TStruct(dict({k: typeof(x) for k, x in v.d.items()}, **({"**": TAttr} if v.rest is not None else {})))
    if isinstance(v, MapV):
        return TDict(v.kty, v.vty if v.vty is not None else typeof(v.val(bound_key(v.kty)[0])))
    if isinstance(v, SetV): return TSet(v.kty)
    if isinstance(v, RecV): return TRec(v.cls, **{k: typeof(x) for k, x in v.f.items()})
    if isinstance(v, OptV): return TNone() if v.none is True else TOpt(typeof(v.v))
    return TOpaque(v)


def join(a, b):
    if a == b: return a
    if isinstance(a, TBottom): return b
    if isinstance(b, TBottom): return a
    num = [TBool, TInt, TReal]
    if any(a == x for x in num) and any(b == x for x in num): return num[max(num.index(a), num.index(b))]
    if isinstance(a, TNone): return b if isinstance(b, TOpt) else TOpt(b)
    if isinstance(b, TNone): return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        return TOpt(join(a.t if isinstance(a, TOpt) else a, b.t if isinstance(b, TOpt) else b))
    if isinstance(a, TConst) and isinstance(b, TConst): return TStr
    if isinstance(a, TConst) and b == TStr or isinstance(b, TConst) and a == TStr: return TStr
    if isinstance(a, TList) and isinstance(b, TList): return TList(join(a.e, b.e), a.kind)
    if isinstance(a, TTuple) and isinstance(b, TTuple) and len(a.es) == len(b.es):
        return TTuple(*[join(x, y) for x, y in zip(a.es, b.es)])
    if isinstance(a, TStruct) and isinstance(b, TStruct):
        if set(a.fields) - {"**"} == set(b.fields) - {"**"}: return TStruct({k: join(a.fields.get(k, TAttr), b.fields.get(k, TAttr)) for k in {**a.fields, **b.fields}})
        ks = list(a.fields) + list(b.fields)
        vt = joinall(list(a.fields.values()) + list(b.fields.values()))
        return TDict(joinall([typeof(k) for k in ks]), vt)
    if isinstance(a, TDict) and isinstance(b, TDict): return TDict(join(a.k, b.k), join(a.v, b.v))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, TDict) and isinstance(y, TStruct):
            return TDict(join(x.k, joinall([typeof(k) for k in y.fields])), join(x.v, joinall(list(y.fields.values()))))
    if isinstance(a, TRec) and isinstance(b, TRec) and a.cls is b.cls and set(a.fields) == set(b.fields):
        return TRec(a.cls, **{k: join(a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, TSet) and isinstance(b, TSet): return TSet(join(a.e, b.e))
    raise Unsupported("no common type of %s and %s" % (a, b))


def joinall(ts):
    r = TBottom()
    for t in ts: r = join(r, t)
    return r


SHAPES = {}       # hash -> the term a function named ...!h<hash> stands for


def hidden(name):
    """the terms behind a function that is named after its definition"""
    if "!h" not in name: return []
    return [SHAPES[h] for h in name.rsplit("!h", 1)[1].split("_") if h in SHAPES]


def decls(v, acc=None):
    """names of the uninterpreted symbols a value mentions (probing containers at generic points)"""
    acc = set() if acc is None else acc
    if is_z(v):
        seen, todo = set(), [v]
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_quantifier(e): todo.append(e.body()); continue
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = e.decl().name()
                    if nm not in acc: todo.extend(hidden(nm))
                    acc.add(nm)
                todo.extend(e.children())
    elif isinstance(v, AttrV): decls(v.t, acc)
    elif isinstance(v, tuple): [decls(x, acc) for x in v]
    elif isinstance(v, SeqV):
        decls(v.n, acc)
        if v.items is not None: [decls(x, acc) for x in v.items]
        elif is_z(v.n) or v.n: decls(v.at(fresh_int("dj")), acc)
    elif isinstance(v, MapV):
        decls(v.n, acc)
        k, _ = bound_key(v.kty)
        decls(v.key(fresh_int("dj")), acc); decls(v.has(k), acc); decls(v.val(k), acc)
    elif isinstance(v, CMapV):
        [decls(x, acc) for x in v.d.values()]
        if v.rest is not None: decls(v.rest, acc)
    elif isinstance(v, SetV): decls(v.has(bound_key(v.kty)[0]), acc)
    elif isinstance(v, RecV): [decls(x, acc) for x in v.f.values()]
    elif isinstance(v, OptV): decls(v.none, acc); decls(v.v, acc)
    elif isinstance(v, Ref): [decls(p, acc) for p in v.path if is_z(p)]
    return acc


# ---------------------------------------------------------------- functional updates
def seq_append(s, x):
    if s.items is not None: return cseq(s.items + [x], s.kind)
    n = zint(s.n)
    r = SeqV(n + 1, lambda i: ite(zint(i) == n, x, s.at(i)), s.kind, s.ety)
    r.made = ("append", s, x)
    return r


def offset(t):
    """t as (term, constant): t == term + constant"""
    if z3.is_add(t) and t.num_args() == 2:
        for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if z3.is_int_value(b): return a, b.as_long()
    if z3.is_sub(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)): return t.arg(0), -t.arg(1).as_long()
    return t, 0


def same_index(i, j):
    (a, c), (b, d) = offset(i), offset(j)
    return c == d if a.eq(b) else i == j


def once(f):
    """f, evaluated once for every argument term"""
    memo = {}
    def g(j):
        k = j.get_id() if is_z(j) else ("c", j)
        if k not in memo: memo[k] = (j, f(j))      # the term is kept: its number is not used again
        return memo[k][1]
    return g


def seq_set(s, i, x):
    if s.items is not None and not is_z(i):
        it = list(s.items); it[i] = x
        return cseq(it, s.kind)
    return SeqV(s.n, once(lambda j: ite(same_index(zint(j), zint(i)), x, s.at(j))), s.kind, s.ety)


def seq_concat(a, b):
    if a.items is not None and b.items is not None: return cseq(a.items + b.items, a.kind)
    if not is_z(a.n) and a.n == 0: return SeqV(b.n, b.at, a.kind, b.ety, None, b.items)
    if not is_z(b.n) and b.n == 0: return a
    n = a.n
    r = SeqV(iadd(n, b.n), lambda i: ite(zint(i) < zint(n), a.at(i), b.at(isub(i, n))), a.kind, a.ety or b.ety)
    r.made = ("concat", a, b)
    return r


def seq_slice(s, lo, hi):
    """s[lo:hi] with 0 <= lo <= hi <= n"""
    if s.items is not None and not is_z(lo) and not is_z(hi): return cseq(s.items[lo:hi], s.kind)
    return SeqV(isub(hi, lo), lambda i: s.at(iadd(i, lo)), s.kind, s.ety)


def seq_rev(s):
    if s.items is not None: return cseq(s.items[::-1], s.kind)
    n = s.n
    return SeqV(n, lambda i: s.at(isub(isub(n, 1), i)), s.kind, s.ety)


def seq_remove_at(s, i):
    if s.items is not None and not is_z(i): return cseq(s.items[:i] + s.items[i + 1:], s.kind)
    r = SeqV(isub(s.n, 1), lambda j: ite(zint(j) < zint(i), s.at(j), s.at(iadd(j, 1))), s.kind, s.ety)
    r.made = ("remove", s, i)
    return r


def seq_insert(s, i, x):
    if s.items is not None and not is_z(i):
        it = list(s.items); it.insert(i, x); return cseq(it, s.kind)
    return SeqV(iadd(s.n, 1), lambda j: ite(zint(j) < zint(i), s.at(j), ite(zint(j) == zint(i), x, s.at(isub(j, 1)))), s.kind, s.ety)


def _conc_key(k): return isinstance(k, (int, str, bool, Fraction)) or k is None or (isinstance(k, tuple) and all(map(_conc_key, k)))


def map_set(m, k, v):
    if isinstance(m, CMapV):
        if _conc_key(k):
            d = dict(m.d); d[k] = v
            return CMapV(d, m.rest)
        m = to_map(m, typeof(k) if not m.d else None)
    n, had = zint(m.n), m.has(k)
    kty = m.kty
    def val(x):
        if _nomap(m): return v
        return ite(eqv(x, k), v, m.val(x))
    return MapV(conc(z3.If(zb(had), n, n + 1)),
                lambda i: ite(And(Not(had), zint(i) == n), k, m.key(i)) if not _nomap(m) else k,
                lambda x: Or(eqv(x, k), m.has(x)),
                lambda x: ite(And(eqv(x, k), Not(had)), n, m.pos(x)),
                val, kty, None)


def map_del(m, k):
    if isinstance(m, CMapV):
        if _conc_key(k):
            d = dict(m.d); del d[k]
            return CMapV(d, m.rest)
        m = to_map(m)
    p = m.pos(k)
    return MapV(isub(m.n, 1), lambda i: ite(zint(i) < p, m.key(i), m.key(iadd(i, 1))),
                lambda x: And(Not(eqv(x, k)), m.has(x)),
                lambda x: ite(zint(m.pos(x)) > p, isub(m.pos(x), 1), m.pos(x)), m.val, m.kty, m.vty)


def map_keys(m):
    if isinstance(m, CMapV):
        if m.rest is not None: raise Unsupported("keys of a dict with opaque attributes")
        return cseq(list(m.d))
    return SeqV(m.n, m.key, "list", m.kty, m.pos)


def length(v):
    if isinstance(v, (SeqV, MapV, SetV)): return v.n
    if isinstance(v, CMapV):
        if v.rest is not None: raise Unsupported("len of a dict with opaque attributes")
        return len(v.d)
    if isinstance(v, (tuple, str)): return len(v)
    raise Unsupported("len of %r" % (v,))

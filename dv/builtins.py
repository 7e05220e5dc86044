"""Models of the Python builtins and library functions that the verified code uses (the trusted boundary: each model
states what the library call returns; they are listed in the evidence when used)."""
import ast, hashlib
from fractions import Fraction
import z3
from .core import *
from . import core

BUILTINS = {"range", "enumerate", "zip", "len", "sum", "list", "tuple", "dict", "set", "frozenset", "isinstance", "callable",
            "min", "max", "sorted", "int", "str", "float", "bool", "abs", "divmod", "bin", "map", "reversed", "any", "all", "print",
            "round", "type", "iter", "next", "repr", "filter", "divmod", "object", "Exception", "KeyError", "ValueError",
            "IndexError", "TypeError", "AssertionError", "StopIteration", "RuntimeError", "NotImplementedError",
            "AttributeError", "ZeroDivisionError", "BaseException", "LookupError", "pow", "super", "hasattr", "getattr"}
REC_METHODS = set()
TRUSTED = {}


def trust(eng, what): eng.trusted_used.add(what)


# ---------------------------------------------------------------- aggregates
class Sums:
    """prefix sums  C(n) = sum_{0<=i<n} body(i): one function per body shape, its free constants being parameters"""
    def __init__(self): self.defs = {}
    def sum(self, body, K):
        body = z3.simplify(to_z(body))
        if body.sort() == z3.BoolSort(): body = z3.If(body, z3.IntVal(1), z3.IntVal(0))
        h, consts, ps, PK, ab = self.abstract(body, K)
        name = "Sum!h%s" % h
        f = z3.Function(name, *[p.sort() for p in ps], z3.IntSort(), body.sort())
        self.defs[name] = (ps, PK, ab)
        return lambda n: f(*consts, zint(n))
    def abstract(self, body, K):
        """the shape of a family of terms indexed by K, and its parameters"""
        consts, memo = [], {}
        def free(e):
            """does e mention K or a bound variable?"""
            k = e.get_id()
            if k not in memo:
                memo[k] = (e, e.eq(K) or z3.is_var(e) or (free(e.body()) if z3.is_quantifier(e) else any(free(c) for c in e.children())))
            return memo[k][1]
        keys, made = {}, {}
        def shape(e):
            """e up to the names of what does not depend on K"""
            k = e.get_id()
            if k not in keys:
                if not free(e): r = "1" if not (z3.is_int_value(e) or z3.is_rational_value(e)) else "0%s" % e
                elif z3.is_quantifier(e): r = "3" + e.sexpr()
                else: r = "2(%s %s)" % (e.decl().name(), " ".join(map(shape, e.children())))
                keys[k] = (e, r if len(r) < 200 else "2#" + hashlib.md5(r.encode()).hexdigest())
            return keys[k][1]
        def ordered(e):
            """the arguments of symmetric operations in the order of their shapes"""
            if not z3.is_app(e) or not free(e) or not e.num_args(): return e
            k = e.get_id()
            if k not in made:
                cs = [ordered(c) for c in e.children()]
                if e.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR): cs = sorted(cs, key=shape, reverse=True)
                r = e
                if any(not a.eq(b) for a, b in zip(cs, e.children())):
                    kind = e.decl().kind()
                    r = cs[0] == cs[1] if kind == z3.Z3_OP_EQ else z3.And(cs) if kind == z3.Z3_OP_AND else z3.Or(cs) if kind == z3.Z3_OP_OR else e.decl()(*cs)
                made[k] = (e, r)
            return made[k][1]
        body = ordered(body)
        seen = set()
        def walk(e):
            # maximal subterms without K are the parameters
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_quantifier(e): walk(e.body()); return
            if not z3.is_app(e): return
            if not free(e):
                if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e): return
                if e.num_args() == 0 and (e.decl().name().startswith("str:") or e.decl().name() == "attrs_empty"): return
                if e.decl().name() == "chr" and z3.is_int_value(e.arg(0)): return
                consts.append(e); return
            for c in e.children(): walk(c)
        walk(body)
        ps = [z3.Const("P%d" % i, c.sort()) for i, c in enumerate(consts)]
        PK = z3.Int("PK")
        ab = z3.substitute(body, *([(c, p) for c, p in zip(consts, ps)] + [(K, PK)]))
        key = ab.sexpr() + "|" + "".join(p.sort().name() for p in ps)
        h = hashlib.md5(key.encode()).hexdigest()[:10]
        core.SHAPES[h] = ab
        return h, consts, ps, PK, ab
    def body(self, app, i):
        """body of the sum application `app` at index i"""
        ps, PK, ab = self.defs[app.decl().name()]
        args = app.children()
        return z3.substitute(ab, *([(p, a) for p, a in zip(ps, args)] + [(PK, zint(i))]))


    # ---- sums over filtered and flattened sequences, in terms of their sources
    def total(self, body, K, n):
        """sum_{0<=K<n} body: a sum over a filtered sequence is the conditional sum over its source, one over a
        concatenation of rows the sum over the rows of their sums"""
        body = to_z(body)
        if body.sort() == z3.BoolSort(): body = z3.If(body, z3.IntVal(1), z3.IntVal(0))
        n = zint(n)
        if not z3.is_int_value(n):
            for a in core.subterms(body):
                if not (z3.is_app(a) and a.num_args() and a.children()[-1].eq(K)) and not (z3.is_app(a) and a.num_args() == 2 and a.arg(0).eq(K)): continue
                nm = a.decl().name()
                J = fresh_int("tj")
                if nm.startswith("fidx!h"):
                    C = "Sum!h" + nm[6:]
                    ns = z3.simplify(n)
                    if not (z3.is_app(ns) and ns.decl().name() == C and all(x.eq(y) for x, y in zip(ns.children()[:-1], a.children()[:-1]))): continue
                    b2 = z3.substitute(body, (a, J))
                    if _mentions(b2, K): continue
                    cond = self.body(ns, J)
                    return self.total(z3.If(cond == 1, b2, z3.IntVal(0) if b2.sort() == I else z3.RealVal(0)), J, ns.children()[-1])
                fl = FLATS.get(nm) if nm.startswith("row!h") else FLATS.get(("c", z3.simplify(n).sexpr())) if nm in ("pydiv", "pymod") else None
                if fl is None: continue
                if nm.startswith("row!h"):
                    ps, on, ln, PK = fl
                    args = a.children()[:-1]
                    sb = lambda e: z3.substitute(e, *list(zip(ps, args)))
                    col = z3.Function("col" + nm[3:], *[x.sort() for x in args], I, I)(*args, K)
                    I2 = fresh_int("ti")
                    outer = sb(on)
                    inner = z3.substitute(sb(ln), (PK, I2))
                    if not z3.simplify(n).eq(z3.simplify(self.sum(sb(ln), PK)(outer))): continue
                    b2 = z3.substitute(body, (a, I2), (col, J))
                else:
                    from .interp import DIV, MOD
                    outer, inner = fl
                    I2 = fresh_int("ti")
                    b2 = z3.substitute(body, (DIV(K, zint(inner)), I2), (MOD(K, zint(inner)), J))
                if _mentions(b2, K): continue
                return self.total(self.total(b2, J, inner), I2, outer)
        return self.sum(body, K)(n)


SUMS = Sums()
FLATS = {}
I = z3.IntSort()
POW = z3.Function("pow", I, I, I)                 # b**e, e >= 0
NDIG = z3.Function("ndigits", I, I, I)            # number of base-b digits of x
CHR = core.CHR
ORD = core.ORD
STRI = z3.Function("str_int", I, Str)
STRINV = z3.Function("str_int_inverse", Str, I)   # str(int) is injective: int(str(n)) == n
R = z3.RealSort()
SQRTF = z3.Function("sqrt", R, R)


def SQRT(x): return SQRTF(x)


def DIG(x, b, j):
    from .interp import DIV, MOD
    x, b, j = zint(x), zint(b), zint(j)
    return MOD(DIV(x, POW(b, j)), b)


def seqsum(eng, s, start=0):
    if s.items is not None:
        r = start
        for x in s.items: r = eng.binop(ast.Add, r, x)
        return r
    K = fresh_int("sk")
    b = s.at(K)
    if not is_scalar(b): raise Unsupported("sum of %r" % (b,))
    b = to_z(b)
    if b.sort() == z3.BoolSort(): b = to_z(b, I)
    if b.sort() not in (I, R): raise Unsupported("sum of values of sort %s" % b.sort())
    t = SUMS.total(b, K, s.n)
    if not is_z(start) and start == 0: return t
    return eng.binop(ast.Add, start, t)


def count(eng, s, x):
    """number of occurrences of x in s"""
    if s.items is not None:
        r = 0
        for y in s.items: r = eng.binop(ast.Add, r, ite(eqv(x, y), 1, 0))
        return r
    K = fresh_int("ck")
    e = eqv(s.at(K), x)
    if e is False: return 0
    return SUMS.total(z3.If(zb(e), z3.IntVal(1), z3.IntVal(0)), K, s.n)


# ---------------------------------------------------------------- sets and dicts from sequences
def set_of(eng, s, mutable=True):
    """the set of the elements of s"""
    kty = typeof(s.at(0)) if s.items else (joinall([typeof(x) for x in s.items]) if s.items is not None else typeof(s.at(fresh_int("ty"))))
    if s.items is not None:
        if not s.items: sv = SetV(0, lambda x: False, lambda i: unflat(kty, []), lambda x: 0, TInt)
        else:
            kty = joinall([typeof(x) for x in s.items])
            if isinstance(kty, TConst): kty = TStr
            # distinct elements kept at their first position
            its = s.items
            dist = [And(*[Not(eqv(its[j], its[i])) for j in range(i)]) for i in range(len(its))]
            cd = [conc(d) for d in dist]
            if all(isinstance(d, bool) for d in cd):
                u = [x for x, d in zip(its, cd) if d]
                cs = cseq(u)
                def pos(x):
                    r = z3.IntVal(0)
                    for j in range(len(u) - 1, -1, -1): r = ite(eqv(x, u[j]), j, r)
                    return r
                sv = SetV(len(u), lambda x: Or(*[eqv(x, y) for y in u]), cs.at, pos, kty)
            else:
                n = 0
                for d in dist: n = iadd(n, ite(d, 1, 0))
                sv = _fresh_set(eng, kty)
                eng.assume(zint(sv.n) == zint(n))
                k, vs = bound_key(kty)
                eng.pc.append(("f", z3.ForAll(vs, zb(sv.has(k)) == zb(Or(*[eqv(k, y) for y in its])))))
                sv = SetV(sv.n, lambda x: Or(*[eqv(x, y) for y in its]), sv.enum, sv.pos, kty)
    elif s.pos is not None:
        sv = SetV(s.n, lambda x: And(0 <= zint(s.pos(x)), zint(s.pos(x)) < zint(s.n), zb(eqv(s.at(s.pos(x)), x))), s.at, s.pos, kty)
    else:
        if isinstance(kty, TConst): kty = TStr
        f, w = _set_fn(eng, kty, s)
        eng.assume(zint(f.n) <= z3.If(zint(s.n) > 0, zint(s.n), 0))
        eng.assume(z3.Implies(zint(s.n) > 0, zint(f.n) > 0))
        k, vs = bound_key(kty)
        i = fresh_int("i")
        wk = w(*flat(k))
        eng.pc.append(("f", z3.ForAll(vs, z3.Implies(zb(f.has(k)), z3.And(0 <= wk, wk < zint(s.n), zb(eqv(s.at(wk), k)))))))
        eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(s.n)), zb(f.has(s.at(i)))))))
        sv = f
    return eng.new(sv) if mutable else sv


def seq_shape(s):
    """(name, parameters) of the content of a sequence of (tuples of) scalars: equal names and parameters mean equal content"""
    K = fresh_int("so")
    hs, consts = [], []
    for e in flat(s.at(K)):
        h, c, ps, PK, ab = SUMS.abstract(z3.simplify(e), K)
        hs.append(h); consts += c
    return "_".join(hs), consts + [zint(s.n)]


def _set_fn(eng, kty, s):
    """the set of the elements of s as a function of s (an enumeration in an arbitrary but fixed order), and a witness position"""
    ks = flat_sorts(kty)
    try: h, ps = seq_shape(s)
    except Unsupported: h, ps = NAMES("x"), []
    so = [p.sort() for p in ps]
    B = z3.BoolSort()
    n = z3.Function("set.n!h" + h, *so, I)(*ps) if ps else z3.Int("set.n!h" + h)
    hasf, posf, w = z3.Function("set.has!h" + h, *so, *ks, B), z3.Function("set.pos!h" + h, *so, *ks, I), z3.Function("set.wit!h" + h, *so, *ks, I)
    en = [z3.Function("set.enum%d!h%s" % (j, h), *so, I, k) for j, k in enumerate(ks)]
    key = lambda i: unflat(kty, [f(*ps, zint(i)) for f in en])
    has = lambda k: hasf(*ps, *keyterms(k, kty))
    pos = lambda k: posf(*ps, *keyterms(k, kty))
    i = fresh_int("i"); k, vs = bound_key(kty)
    eng.assume(n >= 0)
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(key(i)), pos(key(i)) == i)))))
    eng.pc.append(("f", z3.ForAll(vs, z3.Implies(has(k), z3.And(0 <= pos(k), pos(k) < n, zb(eqv(key(pos(k)), k)))))))
    return SetV(n, has, key, pos, kty), lambda *t: w(*ps, *t)


def _fresh_set(eng, kty):
    facts = []
    r = fresh(TSet(kty), NAMES("set"), (), facts)
    for f in facts: eng.pc.append(("f", f))
    return r


def _pick(xs, j):
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1): r = ite(j == i, xs[i], r)
    return r


def undivided(e):
    """simplified, with x % c for x - c * (x // c)"""
    from .interp import DIV, MOD
    e = z3.simplify(e, som=True)
    sub = [(a, a.arg(0) - a.arg(1) * DIV(a.arg(0), a.arg(1))) for a in core.subterms(e) if z3.is_app(a) and a.decl().eq(MOD)]
    return z3.simplify(z3.substitute(e, *sub), som=True) if sub else e


def dict_of_pairs(eng, s, init=None):
    """a new dict from a sequence of (key, value) pairs, later pairs winning"""
    def pair(x):
        x = x.items if isinstance(x, SeqV) and x.items is not None else x
        if len(x) != 2: raise Unsupported("dict item")
        return x
    if s.items is not None:
        m = init if init is not None else CMapV({})
        for x in s.items:
            k, v = pair(x)
            m = map_set(m, k, v)
        return eng.new(m)
    if init is not None and not (isinstance(init, CMapV) and not init.d): raise Unsupported("update of a non-empty dict by a symbolic sequence")
    K = fresh_int("dk")
    k, v = pair(s.at(K))
    kty = typeof(k)
    if isinstance(kty, TConst): kty = TStr
    keyat = lambda i: pair(s.at(i))[0]
    kpos = getattr(s, "kpos", None)
    inj = kpos
    if inj is None and is_scalar(k) and is_z(k) and k.eq(K): inj = lambda x: zint(x)
    if inj is None and is_scalar(k) and is_z(k) and k.sort() == I:
        off = undivided(k - K)
        if "dk" not in str(off) and not _mentions(off, K): inj = lambda x: zint(x) - off
        else:
            neg = undivided(k + K)
            if "dk" not in str(neg) and not _mentions(neg, K): inj = lambda x: neg - zint(x)
    if inj is not None:
        n = conc(z3.If(zint(s.n) > 0, zint(s.n), 0)) if is_z(s.n) else max(0, s.n)
        has = lambda x: And(0 <= zint(inj(x)), zint(inj(x)) < zint(n), zb(eqv(keyat(inj(x)), x)))
        vty = None
        try: vty = typeof(v)
        except Unsupported: pass
        return eng.new(MapV(n, keyat, has, inj, lambda x: pair(s.at(inj(x)))[1], kty, vty))
    facts = []
    m = fresh(TDict(kty, TConst(None)), NAMES("dict"), (), facts)
    for f in facts: eng.pc.append(("f", f))
    last = z3.Function(NAMES("last"), *flat_sorts(kty), I)
    kk, vs = bound_key(kty)
    lk = last(*flat(kk))
    i = fresh_int("i")
    n = zint(s.n)
    multi = getattr(s, "multi", None)
    if multi is not None:
        # several items per round: the last item with the key is item lj of round lk
        cnt, keys, vals = multi
        item = z3.Function(NAMES("item"), *flat_sorts(kty), I)
        pick = lambda fs, r, j: fs(r)[-1] if len(fs(r)) == 1 else _pick(fs(r), j)
        cnt = zint(cnt)
        q = len(keys(i))
        eng.assume(zint(m.n) <= z3.If(cnt > 0, q * cnt, 0)); eng.assume(z3.Implies(cnt > 0, zint(m.n) > 0))
        lj = item(*flat(kk))
        eng.pc.append(("f", z3.ForAll(vs, z3.Implies(zb(m.has(kk)), z3.And(0 <= lk, lk < cnt, 0 <= lj, lj < q, zb(eqv(pick(keys, lk, lj), kk)))))))
        for j, k in enumerate(keys(i)):
            t = keyterms(k, kty)
            eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(zb(m.has(k)), z3.Or(last(*t) > i, z3.And(last(*t) == i, item(*t) >= j)))))))
        return eng.new(MapV(m.n, m.key, m.has, m.pos, lambda x: pick(vals, last(*keyterms(x, kty)), item(*keyterms(x, kty))), kty, None))
    eng.assume(zint(m.n) <= z3.If(n > 0, n, 0)); eng.assume(z3.Implies(n > 0, zint(m.n) > 0))
    eng.pc.append(("f", z3.ForAll(vs, z3.Implies(zb(m.has(kk)), z3.And(0 <= lk, lk < n, zb(eqv(keyat(lk), kk)))))))
    li = last(*keyterms(keyat(i), kty))
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(zb(m.has(keyat(i))), li >= i)))))
    return eng.new(MapV(m.n, m.key, m.has, m.pos, lambda x: pair(s.at(last(*keyterms(x, kty))))[1], kty, None))


def _mentions(e, c):
    return any(x.eq(c) for x in core.subterms(e))


def flatten(eng, s):
    """the concatenation of a sequence of sequences"""
    if s.items is not None:
        r = cseq([])
        for x in s.items: r = seq_concat(r, x if isinstance(x, SeqV) else cseq(x))
        return SeqV(r.n, r.at, "list", r.ety, None, r.items)
    K = fresh_int("fl")
    inner = s.at(K)
    if isinstance(inner, tuple): inner = cseq(inner)
    m = conc(inner.n)
    if is_z(m) and _mentions(m, K): return flatten_rows(eng, s, K, m)
    from .interp import DIV, MOD
    n = conc(zint(s.n) * zint(m))
    FLATS[("c", z3.simplify(zint(n)).sexpr())] = (s.n, m)
    def at(i):
        if not is_z(m) and not is_z(i): q, r = i // m, i % m
        else: q, r = DIV(zint(i), zint(m)), MOD(zint(i), zint(m))
        return s.at(q).at(r) if isinstance(s.at(q), SeqV) else cseq(s.at(q)).at(r)
    return SeqV(n, at, "list", None)


def flatten_rows(eng, s, K, m):
    """rows of different lengths"""
    h, consts, ps, PK, ab = SUMS.abstract(z3.simplify(zint(m)), K)
    P = SUMS.sum(zint(m), K)
    so = [x.sort() for x in ps] + [I]
    rowf, colf = z3.Function("row!h" + h, *so, I, I), z3.Function("col!h" + h, *so, I, I)
    on = zint(s.n)
    po = z3.Int("PO")
    FLATS["row!h" + h] = (ps + [po], po, ab, PK)
    row = lambda p: rowf(*consts, on, zint(p))
    col = lambda p: colf(*consts, on, zint(p))
    n = P(on)
    ln = lambda i: z3.substitute(zint(m), (K, zint(i)))
    p, i, j = fresh_int("p"), fresh_int("i"), fresh_int("j")
    eng.assume(n >= 0)
    eng.pc.append(("f", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= row(p), row(p) < on, 0 <= col(p), col(p) < ln(row(p)), p == P(row(p)) + col(p))), patterns=[row(p)])))
    ix = z3.Function("flatix!h" + h, *so, I, I, I)
    eng.pc.append(("f", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < on, 0 <= j, j < ln(i)), z3.And(ix(*consts, on, i, j) == P(i) + j, P(i) >= 0, P(i) + j < n, row(P(i) + j) == i, col(P(i) + j) == j)), patterns=[ix(*consts, on, i, j)])))
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= on), z3.And(P(i) >= 0, P(i) <= n)), **({'patterns': [P(i)]} if z3.is_app_of(P(i), z3.Z3_OP_UNINTERPRETED) else {}))))
    def at(i):
        r = s.at(row(i))
        return r.at(col(i)) if isinstance(r, SeqV) else cseq(r).at(col(i))
    return SeqV(n, at, "list", None)


# ---------------------------------------------------------------- methods of builtin containers
def kwargs_dict(eng, extra):
    if not extra: return eng.new(AttrV(ATTR_EMPTY)) if eng.opaque_attrs else eng.new(CMapV({}))
    ref = eng.new(CMapV({}))
    for k, v in extra.items(): eng.setitem(ref, k, v)
    return ref


def _find(eng, s, x, what):
    """index of the first occurrence of x (ValueError if there is none)"""
    if s.items is not None:
        found = Or(*[eqv(x, y) for y in s.items]) if s.items else False
        eng.guard(found, "ValueError", what)
        r = len(s.items) - 1
        for j in range(len(s.items) - 2, -1, -1): r = ite(eqv(x, s.items[j]), j, r)
        return r
    if s.pos is not None:
        p = s.pos(x)
        eng.guard(And(0 <= zint(p), zint(p) < zint(s.n), zb(eqv(s.at(p), x))), "ValueError", what)
        return p
    ref = cseq([]); ref = s
    c = eng.contains(s, x)
    eng.guard(c, "ValueError", what)
    p = fresh_int("idx"); i = fresh_int("i")
    eng.assume(0 <= p); eng.assume(p < zint(s.n)); eng.assume(eqv(s.at(p), x))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), zb(Not(eqv(s.at(i), x))))))
    return p


def method(eng, o, name, args, kw):
    t = eng.get(o)
    if isinstance(t, OptV):
        eng.guard(Not(t.none), "AttributeError", "method of None"); t = t.v
        if isinstance(t, Ref): o, t = t, eng.get(t)
    if t is None: eng.guard(False, "AttributeError", "%s of None" % name)
    if isinstance(t, SeqV) and t.kind in ("list", "nd"): 
        r = _seq_method(eng, o, t, name, args, kw)
        if r is not NotImplemented: return r
    if isinstance(t, SeqV) and t.kind in ("str",) or isinstance(t, str) or (is_z(t) and t.sort() == Str):
        r = _str_method(eng, t, name, args, kw)
        if r is not NotImplemented: return r
    if isinstance(t, tuple) or (isinstance(t, SeqV) and t.kind == "tuple"):
        s = eng.seq(t)
        if name == "count": return count(eng, s, eng._imm(args[0]))
        if name == "index": return _find(eng, s, eng._imm(args[0]), "tuple.index")
    if isinstance(t, (MapV, CMapV)):
        r = _dict_method(eng, o, t, name, args, kw)
        if r is not NotImplemented: return r
    if isinstance(t, SetV):
        if name == "add":
            x = eng._imm(args[0])
            eng.put(o, set_add(t, x)); eng.log(o, "add", x); return None
    if isinstance(t, AttrV):
        if name == "update":
            a = eng.get(args[0]) if args else None
            if a is None and kw: a = kw.get("**") if "**" in kw else AttrV(attr_of(kw))
            if isinstance(a, CMapV): a = AttrV(attr_of(a.d))
            if not isinstance(a, AttrV): raise Unsupported("attribute update")
            eng.put(o, AttrV(ATTR_UPD(t.t, a.t))); eng.log(o, "whole"); return None
        if name == "copy": return eng.new(t)
    if isinstance(t, RecV) and isinstance(t.cls, str):
        h = REC_HANDLERS.get((t.cls, name))
        if h: return h(eng, o, t, args, kw)
    raise Unsupported("method %s of %r" % (name, t))


REC_HANDLERS = {}
ATTR_SET = {}


def attr_of(d):
    """the opaque attributes term of a concrete keyword dict"""
    t = ATTR_EMPTY
    for k in d:
        v = to_z(d[k])
        f = z3.Function("attr_set:%s:%s" % (k, v.sort()), Attr, v.sort(), Attr)
        t = f(t, v)
    return t


def set_add(t, x):
    had = t.has(x)
    n = zint(t.n)
    return SetV(conc(z3.If(zb(had), n, n + 1)), lambda y: Or(eqv(x, y), t.has(y)),
                lambda i: ite(And(Not(had), zint(i) == n), x, t.enum(i)) if not (not is_z(t.n) and t.n == 0) else x,
                lambda y: ite(And(eqv(x, y), Not(had)), n, t.pos(y)), t.kty if not (not is_z(t.n) and t.n == 0) else typeof(x))


def _seq_method(eng, o, t, name, args, kw):
    if name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear") and not isinstance(o, Ref):
        raise Unsupported("mutation of a value without identity")
    if name == "append":
        x = eng._imm(args[0])
        n = t.n
        eng.put(o, seq_append(t, x)); eng.log(o, "append", x)
        r = eng.root(o)
        eng.place(Ref(r.cell, r.path + (("i", n),), eng.nev), args[0]); return None
    if name == "extend":
        s, _ = eng.iterable(args[0])
        if isinstance(args[0], Ref) and not (is_z(s.n) is False and s.n == 0):
            probe = s.at(fresh_int("x")) if s.items is None else (s.items[0] if s.items else None)
            if eng.is_mut(probe): eng.freeze(args[0])
        eng.put(o, seq_concat(t, SeqV(s.n, s.at, "list", s.ety, None, s.items))); eng.log(o, "extend", s); return None
    if name == "insert":
        i, x = eng.num(args[0]), eng._imm(args[1])
        if not is_z(i) and not is_z(t.n): i = max(0, min(t.n, i + t.n if i < 0 else i))
        else:
            zi, n = zint(i), zint(t.n)
            i = conc(z3.If(zi < 0, z3.If(zi + n < 0, 0, zi + n), z3.If(zi > n, n, zi)))
        eng.put(o, seq_insert(t, i, x), shape=True); eng.log(o, "whole"); eng.freeze(args[1]); return None
    if name == "pop":
        i = eng.index(t, args[0] if args else -1, "pop")
        v = t.at(i)
        if eng.is_mut(v): raise Unsupported("pop of a mutable element")
        last = not is_z(t.n) and not is_z(i) and i == t.n - 1
        eng.put(o, seq_remove_at(t, i), shape=not last); eng.log(o, "whole"); return v
    if name == "remove":
        i = _find(eng, t, eng._imm(args[0]), "list.remove")
        eng.put(o, seq_remove_at(t, i), shape=True); eng.log(o, "whole"); return None
    if name == "reverse": eng.put(o, seq_rev(t), shape=True); eng.log(o, "whole"); return None
    if name == "clear": eng.put(o, cseq([]), shape=True); eng.log(o, "whole"); return None
    if name == "index": return _find(eng, t, eng._imm(args[0]), "list.index")
    if name == "count": return count(eng, t, eng._imm(args[0]))
    if name == "copy": return eng.new(SeqV(t.n, t.at, t.kind, t.ety, t.pos, t.items))
    if name == "sort":
        if kw: raise Unsupported("sort with arguments")
        eng.put(o, sort_seq(eng, t), shape=True); eng.log(o, "whole"); return None
    if name == "tolist": return eng.new(_deep_kind(t, "list"))
    if name == "astype": return eng.new(t) if isinstance(o, Ref) else t
    if name == "reshape": return nd_reshape(eng, t, args)
    if name == "flatten" and t.kind == "nd" and not args and not kw:
        if len(nd_dims(t)) <= 2: return nd_flat(eng, t)
    if name == "sum" and t.kind == "nd": return seqsum(eng, t)
    if name == "rotate":
        # deque: rotate right by k
        k = eng.num(args[0]) if args else 1
        from .interp import MOD
        n = zint(t.n)
        if not is_z(t.n) and not is_z(k) and t.items is not None:
            m = t.n
            eng.put(o, cseq([t.items[(i - k) % m] for i in range(m)])) if m else None
            eng.log(o, "whole"); return None
        old = t
        eng.put(o, SeqV(t.n, lambda i: old.at(MOD(zint(i) - zint(k), n)), "list", t.ety), shape=True); eng.log(o, "whole")
        return None
    return NotImplemented


def _deep_kind(s, kind):
    if s.items is not None: return cseq([_deep_kind(x, kind) if isinstance(x, SeqV) and x.kind in ("nd", "list") else x for x in s.items], kind)
    def at(i):
        x = s.at(i)
        return _deep_kind(x, kind) if isinstance(x, SeqV) and x.kind in ("nd", "list") else x
    ety = s.ety
    if isinstance(ety, TList): ety = None
    return SeqV(s.n, at, kind, ety)


def sort_seq(eng, s):
    """sorted(s) for ints: an ascending permutation"""
    if s.items is not None and all(isinstance(x, (int, Fraction)) for x in s.items): return cseq(sorted(s.items))
    if s.items is not None and all(isinstance(x, str) for x in s.items): return cseq(sorted(s.items))
    K = fresh_int("so")
    e = s.at(K)
    if not (is_z(e) and e.sort() in (I, R)) and not (s.items is not None and len(s.items) <= 1): 
        if isinstance(e, tuple) and e and is_z(e[0]) and e[0].sort() in (I, R) and s.kpos is not None:
            # pairs with different first items: these decide
            return _perm_sorted(eng, s, lambda a, b: a <= b, lambda x: x[0])
        if not is_scalar(e): raise Unsupported("sorting of %r" % (e,))
    if s.items is not None and len(s.items) <= 1: return s
    if is_z(e) and e.sort() not in (I, R): return _perm_sorted(eng, s, None)
    if is_z(e) and e.eq(K): return s
    d = z3.simplify(to_z(e) - K) if is_z(e) and e.sort() == I else None
    if d is not None and not _mentions(d, K): return s       # already ascending by construction
    return _perm_sorted(eng, s, lambda a, b: a <= b)


def perm_of(eng, s, base="perm", fns=None):
    """a fresh permutation of the sequence s: (seq, p, inverse)"""
    n = zint(s.n)
    if fns: p, q = fns
    else: p = z3.Function(NAMES(base), I, I); q = z3.Function(NAMES(base + "inv"), I, I)
    i = fresh_int("pi")
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)])))
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)])))
    pos = (lambda x: q(zint(s.pos(x)))) if s.pos is not None else None
    at = lambda j: s.at(p(zint(j)))
    return SeqV(s.n, at, s.kind, s.ety, pos), p, q


def _perm_sorted(eng, s, le, by=lambda x: x):
    K = fresh_int("so")
    h, consts, ps, PK, ab = SUMS.abstract(z3.simplify(to_z(by(s.at(K)))), K)
    so = [x.sort() for x in ps]
    n0 = zint(s.n)
    P, Q = z3.Function("sorted!h%s" % h, *so, I, I, I), z3.Function("rank!h%s" % h, *so, I, I, I)     # sorting is a function of the sequence
    r, p, q = perm_of(eng, SeqV(s.n, s.at, "list", s.ety, s.pos, None), "sort", (lambda i: P(*consts, n0, i), lambda i: Q(*consts, n0, i)))
    if le is not None:
        i, j = fresh_int("i"), fresh_int("j")
        eng.pc.append(("f", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zint(s.n)), le(to_z(by(r.at(i))), to_z(by(r.at(j))))),
                                      patterns=[z3.MultiPattern(p(i), p(j))])))
        # what is in ascending order stays as it is
        e = lambda x: to_z(by(s.at(x)))
        eng.pc.append(("f", z3.Implies(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n0), le(e(i), e(j)))),
                                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), e(p(i)) == e(i)), patterns=[p(i)]))))
    return r


def _str_method(eng, t, name, args, kw):
    if isinstance(t, str):
        if name == "join":
            s = eng.iterable(args[0])[0]
            if s.items is not None and all(isinstance(x, str) for x in s.items): return t.join(s.items)
            if t == "": return str_join(eng, s)
            raise Unsupported("join")
        if name in ("zfill", "lower", "upper", "strip", "split", "count", "index", "find", "startswith", "endswith", "replace") and \
                all(isinstance(a, (str, int)) for a in args):
            r = getattr(t, name)(*args)
            return eng.newlist(r) if isinstance(r, list) else r
        t = cseq(list(t), "str")
    if is_z(t) and name == "zfill": return z3.Function("str_zfill", Str, I, Str)(t, zint(eng.num(args[0])))
    if is_z(t): raise Unsupported("method %s of a string" % name)
    if name == "zfill":
        w = eng.num(args[0])
        # (no sign characters: these strings hold digits only)
        n = zint(t.n)
        tot = conc(z3.If(n < zint(w), zint(w), n))
        pad = conc(zint(tot) - n)
        return SeqV(tot, lambda i: ite(zint(i) < zint(pad), "0", t.at(isub(i, pad))), "str", TStr)
    if name == "count": return count(eng, t, args[0])
    return NotImplemented


def str_join(eng, s):
    """''.join(s) where every part is a single character"""
    if s.items is not None and all(isinstance(x, str) for x in s.items): return "".join(s.items)
    K = fresh_int("jk")
    e = s.at(K)
    if isinstance(e, SeqV): raise Unsupported("join of strings")
    if is_z(e) and e.sort() == Str:
        inner = e
        if z3.is_app(inner) and inner.decl().name() == "str_int":
            d = inner.arg(0)
            # single digits only
            rng = z3.And(0 <= K, K < zint(s.n))
            sub = z3.Implies(rng, z3.And(0 <= d, d <= 9))
            if eng.entails_all([K], sub): return SeqV(s.n, lambda i: CHR(z3.substitute(d, (K, zint(i)))), "str", TStr)
        if z3.is_app(inner) and inner.decl().name() == "chr": return SeqV(s.n, s.at, "str", TStr)
        # strings as wholes: joining is a function of the sequence of parts
        h, consts, ps, PK, ab = SUMS.abstract(z3.simplify(inner), K)
        J = z3.Function("join!h%s" % h, *[p.sort() for p in ps], I, Str)
        i = fresh_int("ji")
        eng.assume(J(*consts, 0) == strconst(""))
        eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(s.n)), J(*consts, i + 1) == str_concat(eng, J(*consts, i), to_z(s.at(i)))), patterns=[J(*consts, i + 1)])))
        return J(*consts, zint(s.n))
    raise Unsupported("join")


def str_concat(eng, a, b):
    a, b = to_z(a), to_z(b)
    if a.sort() != Str or b.sort() != Str:
        eng.guard(False, "TypeError", "concatenation of a string and something else")
    return z3.Function("str_concat", Str, Str, Str)(a, b)


def _dict_method(eng, o, t, name, args, kw):
    if name == "items":
        if isinstance(t, CMapV):
            if t.rest is not None: raise Unsupported("items of opaque attributes")
            ks = list(t.d)
            s = cseq([(k, t.d[k]) for k in ks])
            from .interp import IterV
            return IterV(s, lambda i: (ks[i], eng.at_path(o if isinstance(o, Ref) else None, ("k", ks[i]), t.d[ks[i]])) if not is_z(i) else s.at(i), [o])
        from .interp import IterV
        s = SeqV(t.n, lambda i: (t.key(i), t.val(t.key(i))), "list", None, lambda kv: t.pos(kv[0] if isinstance(kv, tuple) else kv.at(0)))
        s.kpos = t.pos
        def elem(i):
            k = t.key(i)
            return (k, eng.at_path(o if isinstance(o, Ref) else None, ("k", k), t.val(k)))
        return IterV(s, elem, [o])
    if name == "keys":
        from .interp import IterV
        return KeysV(eng, o, t)
    if name == "values":
        from .interp import IterV
        if isinstance(t, CMapV):
            ks = list(t.d); s = cseq([t.d[k] for k in ks])
            return IterV(s, lambda i: eng.at_path(o if isinstance(o, Ref) else None, ("k", ks[i]), t.d[ks[i]]) if not is_z(i) else s.at(i), [o])
        s = SeqV(t.n, lambda i: t.val(t.key(i)), "list", t.vty)
        return IterV(s, lambda i: eng.at_path(o if isinstance(o, Ref) else None, ("k", t.key(i)), t.val(t.key(i))), [o])
    if name == "get":
        k = eng._imm(args[0]); d = args[1] if len(args) > 1 else None
        if eng.branch(zb(eng.contains(t, k)) if is_z(eng.contains(t, k)) else eng.contains(t, k)): return eng.getitem(o, k)
        return d
    if name == "pop":
        k = eng._imm(args[0])
        c = eng.contains(t, k)
        if len(args) > 1:
            v = eng.pure_pop(o, t, k, c, args[1])
            return v
        eng.guard(c, "KeyError", "pop")
        v = eng.get(eng.getitem(o, k))
        eng.delitem(o, k)
        return eng.new(v) if eng.is_mut(v) else v
    if name == "update":
        if kw: 
            for k, v in kw.items():
                if k == "**":
                    if isinstance(t, CMapV):
                        d = dict(t.d)
                        eng.put(o, CMapV(d, AttrV(ATTR_UPD((t.rest or AttrV(ATTR_EMPTY)).t, v.t))))
                        eng.log(o, "whole")
                    else: raise Unsupported("update of a dict with opaque attributes")
                else: eng.setitem(o, k, v)
        for a in args:
            m = eng.get(a)
            if isinstance(m, CMapV) and m.rest is None:
                for k in list(m.d): eng.setitem(o, k, eng.at_path(a if isinstance(a, Ref) else None, ("k", k), m.d[k]) if isinstance(a, Ref) else m.d[k])
            elif isinstance(m, AttrV):
                if isinstance(t, CMapV):
                    # opaque attributes: assumed not to override the bookkeeping keys
                    eng.put(o, CMapV(t.d, AttrV(ATTR_UPD((t.rest or AttrV(ATTR_EMPTY)).t, m.t)))); eng.log(o, "whole")
                else: raise Unsupported("update with opaque attributes")
            elif isinstance(m, MapV):
                if isinstance(t, CMapV) and not t.d: eng.put(o, m); eng.log(o, "whole")
                else:
                    t0 = to_map(t, m.kty) if not isinstance(t, MapV) else t
                    eng.put(o, map_merge(eng, t0, m)); eng.log(o, "whole")
            else: raise Unsupported("dict.update")
        return None
    if name == "copy": return eng.new(t)
    if name == "setdefault":
        k = eng._imm(args[0])
        c = eng.contains(t, k)
        if not eng.branch(c): eng.setitem(o, k, args[1] if len(args) > 1 else None)
        return eng.getitem(o, k)
    if name == "clear": eng.put(o, CMapV({}), shape=True); eng.log(o, "whole"); return None
    return NotImplemented


def map_merge(eng, a, b):
    """{**a, **b} with an unspecified (but fixed) order of the added keys at the end"""
    facts = []
    r = fresh(TDict(a.kty, TConst(None)), NAMES("merge"), (), facts)
    for f in facts: eng.pc.append(("f", f))
    k, vs = bound_key(a.kty)
    eng.pc.append(("f", z3.ForAll(vs, zb(r.has(k)) == z3.Or(zb(a.has(k)), zb(b.has(k))))))
    i = fresh_int("i")
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(a.n)), zb(eqv(r.key(i), a.key(i)))))))
    return MapV(r.n, r.key, lambda x: Or(a.has(x), b.has(x)), r.pos,
                lambda x: ite(b.has(x), b.val(x), a.val(x)) if not core._nomap(a) else b.val(x), a.kty, None)


def KeysV(eng, o, t):
    """a live view of the keys"""
    from .interp import KeysView
    return KeysView(o)


# ---------------------------------------------------------------- attributes
def attr_has(c, x):
    if not isinstance(x, str): raise Unsupported("attribute name")
    return z3.Function("attr_has", Attr, Str, z3.BoolSort())(c.t, strconst(x))


def attr_get(eng, c, k):
    if not isinstance(k, str) and not (is_z(k) and k.sort() == Str): raise Unsupported("attribute name")
    eng.guard(attr_has(c, k) if isinstance(k, str) else z3.Function("attr_has", Attr, Str, z3.BoolSort())(c.t, k), "KeyError", "attribute %s" % k)
    return z3.Function("attr_get", Attr, Str, eng.attr_sort)(c.t, to_z(k))


# ---------------------------------------------------------------- integers
def bitop(eng, op, a, b):
    if op is ast.Pow:
        za = to_z(a)
        if is_z(a) and za.sort() == R or (is_z(b) and b.sort() == R):
            if not is_z(b) and isinstance(b, int) and b >= 0:
                r = z3.RealVal(1)
                for _ in range(b): r = r * za
                return r
            if not is_z(b) and b == Fraction(1, 2):
                return sqrt(eng, za)
            raise Unsupported("power")
        if not is_z(b):
            if not isinstance(b, int): 
                if b == Fraction(1, 2): return sqrt(eng, z3.ToReal(zint(a)))
                raise Unsupported("power")
            if b >= 0:
                r = 1
                for _ in range(b): r = eng.binop(ast.Mult, r, a)
                return r
        eng.guard(zint(b) >= 0, "TypeError", "negative exponent")     # would be a float
        return POW(zint(a), zint(b))
    if op is ast.LShift:
        eng.guard(zint(b) >= 0, "ValueError", "negative shift count")
        return conc(zint(a) * POW(z3.IntVal(2), zint(b)))
    if op is ast.RShift:
        from .interp import DIV
        eng.guard(zint(b) >= 0, "ValueError", "negative shift count")
        return DIV(zint(a), POW(z3.IntVal(2), zint(b)))
    if op in (ast.BitXor, ast.BitAnd, ast.BitOr):
        za, zb_ = to_z(a), to_z(b)
        if za.sort() == z3.BoolSort() and zb_.sort() == z3.BoolSort():
            return {ast.BitXor: z3.Xor, ast.BitAnd: z3.And, ast.BitOr: z3.Or}[op](za, zb_)
        za, zb_ = zint(a), zint(b)
        two = z3.And(0 <= za, za <= 1, 0 <= zb_, zb_ <= 1)
        f = z3.Function("bit" + op.__name__, I, I, I)
        small = {ast.BitXor: z3.If(za == zb_, z3.IntVal(0), z3.IntVal(1)), ast.BitAnd: za * zb_ if False else z3.If(z3.And(za == 1, zb_ == 1), z3.IntVal(1), z3.IntVal(0)),
                 ast.BitOr: z3.If(z3.Or(za == 1, zb_ == 1), z3.IntVal(1), z3.IntVal(0))}[op]
        return z3.If(two, small, f(za, zb_))
    raise Unsupported("operator %s" % op.__name__)


def sqrt(eng, x):
    x = to_z(x, R)
    r = SQRTF(x)
    eng.guard(x >= 0, "ValueError", "sqrt of a negative number")
    eng.assume(r >= 0); eng.assume(r * r == x)
    trust(eng, "math.sqrt / **0.5: the non-negative real square root (floats as reals)")
    return r


def to_int(eng, v, base=None):
    if isinstance(v, Ref): v = eng.get(v)
    if base is not None or isinstance(v, str) or (is_z(v) and v.sort() == Str) or (isinstance(v, SeqV) and v.kind == "str"):
        base = 10 if base is None else base
        if isinstance(v, str) and not is_z(base):
            try: return int(v, base)
            except ValueError: eng.guard(False, "ValueError", "int(%r)" % v)
        if isinstance(v, str) and len(v) == 1: v = strconst(v)
        if is_z(v) and v.sort() == Str:
            if z3.is_app(v) and v.decl().name() == "str_int": return v.arg(0)
            d = ORD(v)
            if z3.is_app(v) and v.decl().name() == "chr": d = v.arg(0)
            eng.guard(z3.And(0 <= d, d < zint(base)), "ValueError", "int() of a character that is no digit")
            return d
        raise Unsupported("int of a string")
    v = eng.num(v)
    if isinstance(v, OptV): eng.guard(Not(v.none), "TypeError", "int(None)"); v = v.v
    if isinstance(v, Fraction): return int(v)
    if is_z(v) and v.sort() == R:
        f = z3.ToInt(v)
        return z3.If(v >= 0, f, -z3.ToInt(-v))
    if v is None: eng.guard(False, "TypeError", "int(None)")
    if not (isinstance(v, int) or (is_z(v) and v.sort() == I)): raise Unsupported("int of %r" % (v,))
    return v


def to_str(eng, v):
    if isinstance(v, Ref): v = eng.get(v)
    if isinstance(v, bool): return str(v)
    if isinstance(v, int): return str(v)
    if isinstance(v, str) or (is_z(v) and v.sort() == Str): return v
    if isinstance(v, SeqV) and v.kind == "str": return v
    if is_z(v) and v.sort() == I: return STRI(v)
    if is_z(v): return z3.Function("str:%s" % v.sort(), v.sort(), Str)(v)
    return z3.Const(NAMES("fmt"), Str)


def base_repr(eng, x, b):
    if not is_z(x) and not is_z(b):
        import numpy as np
        return np.base_repr(x, b)
    x, b = zint(x), zint(b)
    eng.guard(z3.And(2 <= b, b <= 36), "ValueError", "base_repr base")
    eng.guard(x >= 0, "Unsupported", "base_repr of a negative number")
    n = NDIG(x, b)
    eng.assume(n >= 1); eng.assume(x < POW(b, n)); eng.assume(z3.Or(n == 1, POW(b, n - 1) <= x))
    return SeqV(n, lambda i: CHR(DIG(x, b, n - 1 - zint(i))), "str", TStr)


# ---------------------------------------------------------------- numpy arrays
def nd_elementwise(eng, a, b, f):
    sa, sb = isinstance(a, SeqV), isinstance(b, SeqV)
    if sa and sb:
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): raise Unsupported("numpy broadcasting")
            return cseq([nd_elementwise(eng, x, y, f) for x, y in zip(a.items, b.items)], "nd")
        if not eng.entails(zint(a.n) == zint(b.n)): raise Unsupported("numpy broadcasting")
        return SeqV(a.n, lambda i: nd_elementwise(eng, a.at(i), b.at(i), f), "nd")
    if sa:
        if a.items is not None: return cseq([nd_elementwise(eng, x, b, f) for x in a.items], "nd")
        return SeqV(a.n, lambda i: nd_elementwise(eng, a.at(i), b, f), "nd")
    if sb:
        if b.items is not None: return cseq([nd_elementwise(eng, a, x, f) for x in b.items], "nd")
        return SeqV(b.n, lambda i: nd_elementwise(eng, a, b.at(i), f), "nd")
    return f(a, b)


def nd_binop(eng, op, a, b):
    if isinstance(a, tuple): a = cseq(a, "nd")
    if isinstance(b, tuple): b = cseq(b, "nd")
    def f(x, y):
        eng.quiet += 0
        return eng.binop(op, x, y)
    if op in (ast.Div, ast.FloorDiv, ast.Mod): raise Unsupported("numpy division")
    return nd_elementwise(eng, a, b, f)


def nd_getitem(eng, o, c, k):
    if isinstance(k, SeqV): raise Unsupported("fancy indexing")
    v = o
    for x in k: v = eng.getitem(v, x)
    return v


def nd_setitem(eng, o, c, k, v):
    x = o
    for j in k[:-1]: x = eng.getitem(x, j)
    eng.setitem(x, k[-1], v)


def nd_cast(v, ety): return to_z(v, ety.sort()) if ety == TReal and is_scalar(v) and not isinstance(v, Fraction) and ety == TReal else v


def nd_zeros(eng, shape, kind="nd"):
    if isinstance(shape, tuple):
        if len(shape) == 1: return nd_zeros(eng, shape[0])
        inner = nd_zeros(eng, shape[1:])
        n = shape[0]
        if not is_z(n) and n <= 8: return cseq([inner] * n, "nd")
        return SeqV(n, lambda i: inner, "nd", None)
    n = eng.num(shape)
    eng.guard(zint(n) >= 0 if is_z(n) else n >= 0, "ValueError", "negative dimensions")
    if not is_z(n) and n <= 64: return cseq([0] * n, "nd")
    return SeqV(n, lambda i: 0, "nd", TInt)


def nd_dims(t):
    d = []
    while isinstance(t, SeqV) and t.kind == "nd":
        d.append(t.n)
        if not is_z(t.n) and t.n == 0: break
        t = t.at(0)
    return d


def nd_flat(eng, t):
    if len(nd_dims(t)) == 1: return eng.new(t)
    c = rect(eng, t)
    r = flatten(eng, SeqV(t.n, lambda i: SeqV(c, t.at(i).at, "nd", t.at(i).ety), "nd", None))
    return eng.new(SeqV(r.n, r.at, "nd", r.ety, None, r.items))


def rect(eng, t):
    """the length of all rows of a matrix"""
    k = fresh_int("rc")
    m = conc(zint(t.at(k).n))
    if not (is_z(m) and _mentions(m, k)): return m
    c = conc(zint(t.at(0).n))
    for cand in [c] + [x for _, f in eng.pc if z3.is_quantifier(f) for x in core.subterms(f.body()) if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]:
        if eng.entails_all([k], z3.Implies(z3.And(0 <= k, k < zint(t.n)), m == cand)): return cand
    raise Unsupported("a matrix with rows of different lengths")


def nd_reshape(eng, t, args):
    shape = args[0] if len(args) == 1 else tuple(args)
    from .interp import DIV, MOD
    if not isinstance(shape, tuple): shape = (shape,)
    d = nd_dims(t)
    if any(not is_z(x) and x < 0 for x in shape):
        if len(shape) != 1 or len(d) > 2: raise Unsupported("reshape")
        return nd_flat(eng, t)
    if len(d) == 1 and len(shape) == 2:
        r, c = shape
        eng.guard(zint(t.n) == zint(r) * zint(c), "ValueError", "reshape")
        return eng.new(SeqV(r, lambda i: SeqV(c, lambda j: t.at(zint(i) * zint(c) + zint(j)), "nd"), "nd"))
    if len(d) == 2 and len(shape) == 1:
        c = d[1]
        eng.guard(zint(t.n) * zint(c) == zint(shape[0]), "ValueError", "reshape")
        def at(i):
            return t.at(DIV(zint(i), zint(c))).at(MOD(zint(i), zint(c)))
        return eng.new(SeqV(shape[0], at, "nd"))
    raise Unsupported("reshape")


ND_ATTRS = {"size", "shape", "T", "ndim"}


def nd_attr(eng, o, t, name):
    d = nd_dims(t)
    if name == "shape": return tuple(d)
    if name == "ndim": return len(d)
    if name == "size":
        r = 1
        for x in d: r = eng.binop(ast.Mult, r, x)
        return r
    raise Unsupported("array attribute %s" % name)


def nd_pad(eng, s, widths, value):
    lo, hi = (eng.num(x) for x in (widths if isinstance(widths, tuple) else (widths, widths)))
    eng.guard(And(zint(lo) >= 0, zint(hi) >= 0), "ValueError", "index can't contain negative values")
    return SeqV(iadd(iadd(lo, s.n), hi), lambda i: ite(zint(i) < zint(lo), value, ite(zint(i) < zint(iadd(lo, s.n)), s.at(isub(i, lo)), value)), "nd", None)


# ---------------------------------------------------------------- calls of builtins and libraries
def rng(eng, args):
    a = [eng.num(x) for x in args]
    for x in a:
        if isinstance(x, OptV) or x is None: raise Unsupported("range of an optional")
        if isinstance(x, Fraction) or (is_z(x) and x.sort() != I):
            eng.guard(False, "TypeError", "range of a non-integer")
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: (lo, hi), st = a, 1
    else: lo, hi, st = a
    if is_z(st): raise Unsupported("range step")
    if not is_z(lo) and not is_z(hi):
        r = range(lo, hi, st)
        if len(r) <= 4096: return cseq(list(r), "list")
        return SeqV(len(r), lambda i: conc(zint(lo) + zint(i) * st), "list", TInt)
    zlo, zhi = zint(lo), zint(hi)
    if st == 1:
        n = conc(z3.If(zhi > zlo, zhi - zlo, 0))
        if is_z(n) and eng.entails(zhi >= zlo): n = conc(zhi - zlo)
    elif st == -1:
        n = conc(z3.If(zlo > zhi, zlo - zhi, 0))
        if is_z(n) and eng.entails(zlo >= zhi): n = conc(zlo - zhi)
    elif st > 1: n = conc(z3.If(zhi > zlo, (zhi - zlo + (st - 1)) / st, 0))
    else: raise Unsupported("range step")
    def pos(x):
        if st == 1: return zint(x) - zlo
        if st == -1: return zlo - zint(x)
        return (zint(x) - zlo) / st
    return SeqV(n, lambda i: conc(zlo + zint(i) * st), "list", TInt, pos)


def isinst(eng, v, ty):
    """isinstance(v, ty)"""
    from .interp import ExtV, ClassV, FuncV, UserFn, BoundM, IterV
    if isinstance(ty, tuple):
        return Or(*[isinst(eng, v, t) for t in ty])
    if isinstance(v, OptV): return And(Not(v.none), isinst(eng, v.v, ty))
    t = eng.get(v)
    if isinstance(t, OptV): return And(Not(t.none), isinst(eng, t.v, ty))
    if isinstance(ty, ClassV):
        if isinstance(t, RecV) and isinstance(t.cls, ClassV): return any(c is ty for c in t.cls.mro())
        if is_z(t) and t.sort() not in (I, R, z3.BoolSort(), Str):
            return z3.Function("isinstance:%s:%s" % (ty.name, t.sort()), t.sort(), z3.BoolSort())(t)
        return False
    if not isinstance(ty, ExtV): raise Unsupported("isinstance with %r" % (ty,))
    n = ty.name.split(".")[-1]
    if is_z(t) and t.sort() not in (I, R, z3.BoolSort(), Str):
        return z3.Function("isinstance:%s:%s" % (n, t.sort()), t.sort(), z3.BoolSort())(t)
    k = None
    if isinstance(t, bool) or (is_z(t) and t.sort() == z3.BoolSort()): k = {"bool", "int", "object"}
    elif isinstance(t, int) or (is_z(t) and t.sort() == I): k = {"int", "object"}
    elif isinstance(t, Fraction) or (is_z(t) and t.sort() == R): k = {"float", "object"}
    elif isinstance(t, str) or (is_z(t) and t.sort() == Str) or (isinstance(t, SeqV) and t.kind == "str"): k = {"str", "Sequence", "object"}
    elif isinstance(t, tuple) or (isinstance(t, SeqV) and t.kind == "tuple"): k = {"tuple", "Sequence", "object"}
    elif isinstance(t, SeqV): k = {"list", "Sequence", "object"} if t.kind == "list" else {"ndarray", "object"}
    elif isinstance(t, (MapV, CMapV, AttrV)): k = {"dict", "object"}
    elif isinstance(t, SetV): k = {"set", "object"}
    elif t is None: k = {"object"}
    elif isinstance(t, RecV): k = {"object"}
    elif isinstance(t, (FuncV, UserFn, BoundM)): k = {"object"}
    if k is None: raise Unsupported("isinstance of %r" % (t,))
    return n in k


def is_callable(eng, v):
    from .interp import FuncV, UserFn, BoundM, ClassV, ExtV, MethodV
    t = eng.get(v)
    if isinstance(t, OptV): return And(Not(t.none), is_callable(eng, t.v))
    if isinstance(t, (FuncV, UserFn, BoundM, ClassV, MethodV)): return True
    if isinstance(t, RecV): return bool(isinstance(t.cls, ClassV) and t.cls.find("m", "__call__")[0])
    if is_z(t) and t.sort() not in (I, R, z3.BoolSort(), Str): return z3.Function("callable:%s" % t.sort(), t.sort(), z3.BoolSort())(t)
    return False


def fresh_real(base): return z3.Real(NAMES(base))


def call_ext(eng, name, args, kw):
    from .interp import IterV, ExtV, FuncV, PyExc, PathEnd
    h = eng.ext_models.get(name)
    if h is not None: return h(eng, args, kw)
    if name.startswith("np."): name = "numpy." + name[3:]
    short = name
    g = eng.get
    A = args
    # ---- builtins
    if name == "range": return rng(eng, A)
    if name == "len":
        t = g(A[0])
        if isinstance(t, OptV): eng.guard(Not(t.none), "TypeError", "len of None"); t = g(t.v)
        if t is None: eng.guard(False, "TypeError", "len of None")
        from .interp import KeysView
        if isinstance(t, KeysView): t = g(t.o)
        if isinstance(t, RecV):
            m = t.cls.find("m", "__len__")[0] if not isinstance(t.cls, str) else None
            if m:
                from .interp import BoundM
                return eng.call(BoundM(A[0], m), [], {})
        if isinstance(t, IterV): return t.seq.n
        if isinstance(t, (int, Fraction)) or (is_z(t) and t.sort() in (I, R)): eng.guard(False, "TypeError", "len of a number")
        if is_z(t): return z3.Function("len:%s" % t.sort(), t.sort(), I)(t)
        return length(t)
    if name == "enumerate":
        s, el = eng.iterable(A[0])
        st = A[1] if len(A) > 1 else kw.get("start", 0)
        sv = SeqV(s.n, lambda i: (iadd(i, st), s.at(i)), "list", None, None, [(iadd(i, st), x) for i, x in enumerate(s.items)] if s.items is not None else None)
        if not is_z(st): sv.kpos = lambda k: zint(k) - st
        return IterV(sv, lambda i: (iadd(i, st), el(i)), [A[0]])
    if name == "iter" and len(A) == 1:
        s, el = eng.iterable(A[0])
        return IterV(s, el, [A[0]])
    if name == "zip":
        its = [eng.iterable(a) for a in A]
        n = its[0][0].n
        for s, _ in its[1:]: n = conc(z3.If(zint(s.n) < zint(n), zint(s.n), zint(n)))
        if is_z(n):
            for s, _ in its:
                if all(eng.entails(zint(s.n) == zint(x.n)) for x, _ in its): n = its[0][0].n; break
        return IterV(SeqV(n, lambda i: tuple(s.at(i) for s, _ in its), "list", None, None,
                          [tuple(s.at(i) for s, _ in its) for i in range(n)] if not is_z(n) and n <= 64 else None), lambda i: tuple(e(i) for _, e in its), A)
    if name == "map":
        f = A[0]
        if len(A) != 2: raise Unsupported("map")
        s, el = eng.iterable(A[1])
        return IterV_of(eng, eng.comp_body(s, lambda i: eng._imm(eng.call(f, [el(i)], {})), False))
    if name == "sum":
        s = eng.iterable(A[0])[0]
        return seqsum(eng, s, A[1] if len(A) > 1 else 0)
    if name == "list":
        if not A: return eng.newlist([])
        s, el = eng.iterable(A[0])
        if s.items is not None: return eng.newlist([el(i) for i in range(len(s.items))]) if not isinstance(A[0], Ref) else _shallow(eng, A[0], s)
        return _shallow(eng, A[0], s)
    if name == "tuple":
        if not A: return ()
        s, el = eng.iterable(A[0])
        if s.items is not None: return tuple(el(i) for i in range(len(s.items)))
        if isinstance(A[0], Ref) and eng.is_mut(s.at(fresh_int("x"))): eng.freeze(A[0])
        return SeqV(s.n, s.at, "tuple", s.ety, s.pos)
    if name == "dict":
        if not A: return kwargs_dict(eng, kw) if kw else eng.new(CMapV({}))
        t = g(A[0])
        if isinstance(t, (MapV, CMapV, AttrV)) and not kw: return eng.new(t)
        if not kw: return dict_of_pairs(eng, eng.iterable(A[0])[0])
        raise Unsupported("dict()")
    if name in ("set", "frozenset"):
        if not A: return eng.new(SetV(0, lambda x: False, lambda i: 0, lambda x: 0, TInt))
        return set_of(eng, eng.iterable(A[0])[0], name == "set")
    if name == "isinstance": return conc(isinst(eng, A[0], A[1]))
    if name == "callable": return conc(is_callable(eng, A[0]))
    if name in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and len(A) == 1 and not kw:
        s = eng.iterable(A[0])[0]
        if isinstance(s.at(fresh_int("i")) if s.items is None else s.items[0] if s.items else 0, (SeqV, tuple)): raise Unsupported("numpy.max of a table")
        name = name.replace("amax", "max").replace("amin", "min")[6:]
    if name in ("min", "max"):
        if len(A) == 1:
            s = eng.iterable(A[0])[0]
            if s.items is None:
                eng.guard(zint(s.n) > 0, "ValueError", "%s of an empty sequence" % name)
                w = fresh_int("w"); i = fresh_int("i")
                eng.assume(0 <= w); eng.assume(w < zint(s.n))
                e, x = s.at(w), s.at(i)
                if not (is_z(e) and e.sort() in (I, R)): raise Unsupported("min/max")
                eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(s.n)), (x <= e) if name == "max" else (x >= e))))
                return e
            eng.guard(len(s.items) > 0, "ValueError", "%s of an empty sequence" % name)
            A = s.items
        r = eng.num(A[0])
        for x in A[1:]:
            x = eng.num(x)
            p = common(r, x)
            if p is None: raise Unsupported("min/max")
            c = conc(p[1] < p[0]) if name == "min" else conc(p[1] > p[0])
            r = ite(c, x, r)
        return r
    if name == "sorted":
        s = eng.iterable(A[0])[0]
        if kw: raise Unsupported("sorted with a key")
        q = SeqV(s.n, s.at, "list", s.ety, s.pos, s.items)
        q.kpos = s.kpos
        r = sort_seq(eng, q)
        return eng.new(SeqV(r.n, r.at, "list", r.ety, r.pos, r.items))
    if name == "reversed":
        s = eng.iterable(A[0])[0]
        return IterV(seq_rev(s), seq_rev(s).at, [A[0]], True)
    if name in ("int", "numpy.int", "numpy.int64"):
        if not A: return 0
        return to_int(eng, A[0], eng.num(A[1]) if len(A) > 1 else None)
    if name == "str":
        return to_str(eng, A[0])
    if name in ("float", "numpy.float"):
        v = eng.num(A[0])
        if isinstance(v, int): return Fraction(v)
        if is_scalar(v) and not isinstance(v, (str,)) and v is not None: return to_z(v, R) if is_z(v) else v
        raise Unsupported("float()")
    if name == "bool": return eng.truth(A[0])
    if name == "divmod":
        import ast as _a
        return (eng.binop(_a.FloorDiv(), A[0], A[1]), eng.binop(_a.Mod(), A[0], A[1]))
    if name in ("abs", "numpy.abs", "math.fabs"):
        v = eng.num(A[0])
        if not is_z(v): return abs(v)
        return conc(z3.If(v < 0, -v, v))
    if name == "bin":
        x = eng.num(A[0])
        if not is_z(x): return bin(x)
        eng.guard(x >= 0, "Unsupported", "bin of a negative number")
        s = base_repr(eng, x, 2)
        return SeqV(zint(s.n) + 2, lambda i: ite(zint(i) == 0, "0", ite(zint(i) == 1, strconst("b"), s.at(isub(i, 2)))), "str", TStr)
    if name in ("any", "all"):
        s = eng.iterable(A[0])[0]
        if s.items is not None:
            ts = [eng.truth(x) for x in s.items]
            return conc((Or if name == "any" else And)(*ts)) if ts else name == "all"
        i = fresh_int("i")
        b = eng.truth(s.at(i))
        rg = z3.And(0 <= i, i < zint(s.n))
        return z3.Exists([i], z3.And(rg, zb(b))) if name == "any" else z3.ForAll([i], z3.Implies(rg, zb(b)))
    if name == "print": return None
    if name == "type":
        t = g(A[0])
        return typeval(eng, t)
    if name == "hasattr":
        raise Unsupported("hasattr")
    if name == "dict.fromkeys":
        s = set_of(eng, eng.iterable(A[0])[0], False)
        v = A[1] if len(A) > 1 else None
        return eng.new(MapV(s.n, s.enum, s.has, s.pos, lambda x: v, s.kty, None))
    # ---- numpy
    if name in ("numpy.sum",):
        t = g(A[0])
        s = eng.iterable(A[0])[0] if not isinstance(t, SeqV) else t
        if kw: raise Unsupported("numpy.sum with arguments")
        trust(eng, "numpy.sum of a list/array of numbers: their sum")
        K = fresh_int("x")
        probe = s.at(K) if s.items is None else (s.items[0] if s.items else 0)
        if isinstance(probe, SeqV): s = SeqV(s.n, lambda i: seqsum(eng, s0.at(i)), "nd") if (s0 := s) else s
        return seqsum(eng, s)
    if name in ("numpy.array", "numpy.asarray"):
        t = g(A[0])
        if isinstance(t, IterV): t = t.seq
        if isinstance(t, tuple): t = cseq(t)
        if not isinstance(t, SeqV): raise Unsupported("numpy.array of %r" % (t,))
        return eng.new(_deep_kind(t, "nd"))
    if name == "numpy.zeros": return eng.new(nd_zeros(eng, A[0] if not isinstance(A[0], Ref) else tuple(g(A[0]).items)))
    if name == "numpy.arange" and len(A) == 1:
        r = rng(eng, A); return eng.new(SeqV(r.n, r.at, "nd", TInt, r.pos, r.items))
    if name == "numpy.pad":
        s = eng.iterable(A[0])[0]
        v = kw.get("constant_values", 0)
        if len(A) < 3 or A[2] != "constant": raise Unsupported("numpy.pad mode")
        trust(eng, "numpy.pad(a, (l, r), 'constant'): l and r constants around a")
        return eng.new(nd_pad(eng, s, A[1], v))
    if name == "numpy.base_repr":
        trust(eng, "numpy.base_repr: the digits of a non-negative number, most significant first")
        return base_repr(eng, eng.num(A[0]), eng.num(A[1] if len(A) > 1 else kw.get("base", 2)))
    if name == "numpy.concatenate":
        parts = A[0] if isinstance(A[0], tuple) else eng.iterable(A[0])[0].items
        if parts is None: raise Unsupported("concatenate")
        r = cseq([], "nd")
        for p in parts: r = seq_concat(r, eng.seq(p))
        return eng.new(SeqV(r.n, r.at, "nd", r.ety, None, r.items))
    if name in ("numpy.random.choice", "random.choice"):
        s = eng.iterable(A[0])[0]
        if len(A) > 1 or kw: raise Unsupported("random.choice with arguments")
        eng.guard(zint(s.n) > 0 if is_z(s.n) else s.n > 0, "ValueError" if "numpy" in name else "IndexError", "choice from an empty sequence")
        w = fresh_int("choice")
        eng.assume(0 <= w); eng.assume(w < zint(s.n))
        trust(eng, "random.choice: some element of the sequence")
        return s.at(w)
    if name in ("numpy.random.random", "random.random"):
        r = fresh_real("rnd"); eng.assume(r >= 0); eng.assume(r < 1)
        trust(eng, "random.random: a real in [0, 1)")
        return r
    if name == "numpy.random.randint" and len(A) == 1 and "size" not in kw:
        r = fresh_int("rnd"); k = zint(eng.num(A[0]))
        eng.guard(k > 0, "ValueError", "low >= high")
        eng.assume(r >= 0); eng.assume(r < k)
        trust(eng, "numpy.random.randint(k): an integer in 0..k-1")
        return r
    if name == "numpy.random.randint" and len(A) == 1:
        k = zint(eng.num(A[0])); n = eng.num(kw["size"])
        f = z3.Function(NAMES("rnds"), I, I); i = fresh_int("i")
        eng.guard(k > 0, "ValueError", "low >= high")
        eng.pc.append(("f", z3.ForAll([i], z3.And(0 <= f(i), f(i) < k))))
        trust(eng, "numpy.random.randint(k, size): integers in 0..k-1")
        return eng.new(SeqV(n, lambda j: f(zint(j)), "nd", TInt))
    if name in ("numpy.random.shuffle", "random.shuffle"):
        t = g(A[0])
        trust(eng, "random.shuffle: a permutation in place")
        r, p, q = perm_of(eng, SeqV(t.n, t.at, t.kind, t.ety, t.pos), "shuffle")
        eng.put(A[0], r, shape=True); eng.log(A[0], "whole")
        eng.last_perm = (p, q, t)
        return None
    if name == "numpy.random.seed" or name == "random.seed": return None
    if name in ("numpy.asscalar",):
        v = A[0]
        if is_z(v) and v.sort() not in (I, R, z3.BoolSort(), Str):
            trust(eng, "numpy.asscalar: the Python scalar of a numpy scalar (uninterpreted)")
            return z3.Function("asscalar:%s" % v.sort(), v.sort(), v.sort())(v)
        return v
    if name == "numpy.issubdtype":
        return z3.Function("issubdtype", Str, z3.BoolSort())(strconst(str(A[0]))) if False else eng.models.get("issubdtype", True)
    if name == "numpy.nonzero":
        raise Unsupported("numpy.nonzero")
    if name in ("numpy.logical_and", "numpy.logical_or"):
        cmb = And if name.endswith("and") else Or
        a, b = g(A[0]), g(A[1])
        if not isinstance(a, SeqV) and not isinstance(b, SeqV): return cmb(eng.truth(a), eng.truth(b))
        return eng.new(nd_elementwise(eng, a, b, lambda x, y: cmb(eng.truth(x), eng.truth(y))))
    if name == "numpy.mean":
        s = eng.iterable(A[0])[0]
        if s.items is None:
            x0 = s.at(fresh_int("x"))
            if isinstance(x0, bool) or (is_z(x0) and x0.sort() == z3.BoolSort()): s = SeqV(s.n, lambda i, s0=s: ite(s0.at(i), 1, 0), "nd", TInt)
        trust(eng, "numpy.mean: sum / length")
        eng.guard(zint(s.n) > 0 if is_z(s.n) else s.n > 0, "ValueError", "mean of an empty sequence")
        return conc(to_z(seqsum(eng, s), R) / to_z(zint(s.n), R))
    if name in ("numpy.tanh", "math.tanh"): return _real_fn(eng, "tanh", A)
    if name in ("math.sin", "math.cos", "math.radians", "math.exp", "numpy.exp", "numpy.sin", "numpy.cos"): return _real_fn(eng, name.split(".")[1], A)
    if name in ("math.log",):
        b = A[1] if len(A) > 1 else None
        x = to_z(eng.num(A[0]), R)
        eng.guard(x > 0, "ValueError", "log of a non-positive number")
        trust(eng, "math.log / numpy.log2 as one uninterpreted function")
        if b is None: return z3.Function("ln", R, R)(x)
        if not is_z(b) and b == 2: return z3.Function("log2", R, R)(x)
        raise Unsupported("log base")
    if name in ("numpy.log2", "math.log2"):
        x = to_z(eng.num(A[0]), R)
        eng.guard(x > 0, "ValueError", "log of a non-positive number")
        trust(eng, "math.log / numpy.log2 as one uninterpreted function")
        return z3.Function("log2", R, R)(x)
    if name in ("math.sqrt", "numpy.sqrt"): return sqrt(eng, eng.num(A[0]))
    if name == "math.factorial":
        x = eng.num(A[0])
        eng.guard(zint(x) >= 0 if is_z(x) else x >= 0, "ValueError", "factorial of a negative number")
        if not is_z(x):
            import math
            return math.factorial(x)
        r = z3.Function("factorial", I, I)(x)
        trust(eng, "math.factorial: an uninterpreted positive function")
        eng.assume(r >= 1)
        return r
    if name in ("math.floor",):
        return z3.ToInt(to_z(eng.num(A[0]), R))
    if name == "numpy.argmax":
        s = eng.iterable(A[0])[0]
        eng.guard(zint(s.n) > 0 if is_z(s.n) else s.n > 0, "ValueError", "argmax of an empty sequence")
        w = fresh_int("argmax"); i = fresh_int("i")
        e, x = s.at(w), s.at(i)
        eng.assume(0 <= w); eng.assume(w < zint(s.n))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(s.n)), z3.And(x <= e, z3.Implies(i < w, x < e)))))
        trust(eng, "numpy.argmax: the first index of the maximum")
        return w
    # ---- collections
    if name == "collections.Counter": return counter(eng, eng.iterable(A[0])[0])
    if name == "collections.deque":
        s = eng.iterable(A[0])[0] if A else cseq([])
        return eng.new(SeqV(s.n, s.at, "list", s.ety, s.pos, s.items))
    if name == "copy.copy" or name == "copy.deepcopy": return eng.new(g(A[0]))
    if name in ("gc.disable", "gc.enable"): return None
    raise Unsupported("call of %s" % name)


def _real_fn(eng, nm, A):
    trust(eng, "%s: an uninterpreted real function" % nm)
    v = eng.num(A[0])
    if isinstance(v, SeqV): raise Unsupported(nm)
    return z3.Function(nm, R, R)(to_z(v, R))


def IterV_of(eng, s):
    from .interp import IterV
    return IterV(s, s.at)


def _shallow(eng, a, s):
    """list(a): a new list of the same elements"""
    probe = s.at(fresh_int("x")) if s.items is None else (s.items[0] if s.items else None)
    if isinstance(a, Ref) and eng.is_mut(probe): eng.freeze(a)
    return eng.new(SeqV(s.n, s.at, "list", s.ety, s.pos, s.items))


def typeval(eng, t):
    from .interp import ExtV, ClassV
    if isinstance(t, RecV): return t.cls
    if isinstance(t, bool): return eng.ext("bool")
    if isinstance(t, int) or (is_z(t) and t.sort() == I): return eng.ext("int")
    if isinstance(t, str) or (is_z(t) and t.sort() == Str): return eng.ext("str")
    if isinstance(t, Fraction) or (is_z(t) and t.sort() == R): return eng.ext("float")
    if isinstance(t, SeqV): return eng.ext({"list": "list", "nd": "numpy.ndarray", "tuple": "tuple", "str": "str"}[t.kind])
    if isinstance(t, tuple): return eng.ext("tuple")
    if isinstance(t, (MapV, CMapV)): return eng.ext("dict")
    raise Unsupported("type()")


def counter(eng, s):
    """collections.Counter(s): the distinct elements (in order of first occurrence) with their numbers of occurrences"""
    trust(eng, "collections.Counter: numbers of occurrences; most_common: by decreasing count")
    if s.items is not None and all(core._conc_key(x) for x in s.items):
        d = {}
        for x in s.items: d[x] = d.get(x, 0) + 1
        return eng.new(RecV("Counter", {"seq": s, "map": CMapV(d)}))
    kty = typeof(s.at(fresh_int("ty"))) if s.items is None else joinall([typeof(x) for x in s.items])
    facts = []
    m = fresh(TDict(kty, TConst(None)), NAMES("cnt"), (), facts)
    for f in facts: eng.pc.append(("f", f))
    k, vs = bound_key(kty)
    K = fresh_int("ck")
    C = lambda x: count(eng, s, x)
    first = z3.Function(NAMES("first"), *flat_sorts(kty), I)
    i = fresh_int("i")
    n = zint(s.n)
    fk = first(*flat(k))
    eng.assume(zint(m.n) <= n)
    eng.pc.append(("f", z3.ForAll(vs, z3.Implies(zb(m.has(k)), z3.And(0 <= fk, fk < n, zb(eqv(s.at(fk), k)), C(k) >= 1)))))
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(zb(m.has(s.at(i))), C(s.at(i)) >= 1)))))
    # an element that does not occur has count 0
    eng.pc.append(("f", z3.ForAll(vs, z3.And(C(k) >= 0, z3.Implies(zb(Not(m.has(k))), C(k) == 0)), patterns=[to_z(C(k))])))
    return eng.new(RecV("Counter", {"seq": s, "map": MapV(m.n, m.key, m.has, m.pos, C, kty, TInt)}))


def _counter_most_common(eng, o, t, args, kw):
    s, m = t.f["seq"], t.f["map"]
    if isinstance(m, CMapV): 
        import collections
        c = collections.Counter(m.d)
        return eng.newlist([tuple(x) for x in c.most_common(*args)])
    top = eng.num(args[0]) if args else None
    if top not in (1, 2): raise Unsupported("most_common(%s)" % top)
    n = zint(s.n)
    i = fresh_int("i")
    case = eng.choose(3 if top == 2 else 2)
    C = m.val
    if case == 0:
        eng.assume(n == 0, "g")
        if not eng.feasible(z3.BoolVal(True)): raise _pathend()
        return eng.newlist([])
    eng.assume(n > 0, "g")
    w = fresh_int("mc"); e0 = s.at(w)
    eng.assume(0 <= w); eng.assume(w < n)
    ei = s.at(i)
    inr = z3.And(0 <= i, i < n)
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(inr, C(ei) <= C(e0)))))
    eng.assume(C(e0) >= 1)
    if top == 1: return eng.newlist([(e0, C(e0))])
    if case == 1:
        eng.pc.append(("g", z3.ForAll([i], z3.Implies(inr, zb(eqv(ei, e0))))))
        return eng.newlist([(e0, C(e0))])
    w1 = fresh_int("mc"); e1 = s.at(w1)
    eng.assume(0 <= w1); eng.assume(w1 < n); eng.assume(Not(eqv(e1, e0)), "g")
    eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(inr, zb(Not(eqv(ei, e0)))), C(ei) <= C(e1)))))
    eng.assume(C(e1) >= 1)
    return eng.newlist([(e0, C(e0)), (e1, C(e1))])


def _pathend():
    from .interp import PathEnd
    return PathEnd("dead")


REC_HANDLERS[("Counter", "most_common")] = _counter_most_common
REC_HANDLERS[("Counter", "items")] = lambda eng, o, t, a, k: _dict_method(eng, None, t.f["map"], "items", a, k)
REC_METHODS |= set(REC_HANDLERS)

"""Shared pieces of the contracts."""
import z3
from dv.core import *
from dv import core
from dv.builtins import SUMS, POW, DIG, CHR, ORD, NDIG, STRI
from dv.interp import DIV, MOD
from dv.session import unit, invariant, S

EV = "netomaton.evolution"
VAL = TSort("Val")
LAB = TSort("Label")


def ctx(s, **fields):
    """a NodeContext with the given fields"""
    base = dict(node_label=None, timestep=None, activities=None, neighbour_labels=None, neighbourhood_activities=None, connection_states=None,
                current_activity=None, past_activities=None, input=None)
    base.update(fields)
    base.setdefault("added_nodes", s.new(cseq([])))
    base.setdefault("removed_nodes", s.new(cseq([])))
    return s.obj(EV + ":NodeContext", **base)


def ilist(s, name, lo=None, hi=None):
    """a list of ints (each in lo..hi)"""
    l = s.fresh(TList(TInt), name)
    v = s.v(l)
    if lo is not None: s.assume(s.forall(lambda i: z3.And(lo <= v.at(i), v.at(i) <= hi), 0, v.n))
    return l, v


def div_lemma(s):
    """x // (c p) = (x // p) // c"""
    I = z3.IntSort()
    mono = s.clean("a < b and p >= 1 give p a + p <= p b", lambda a, b, p: ([a < b, p >= 1], p * a + p <= p * b), I, I, I)
    def f(x, p, c):
        q = DIV(x, p)
        return [x >= 0, p >= 1, c >= 1], DIV(x, c * p) == DIV(q, c)
    vs = z3.Ints("lm0 lm1 lm2")
    x, p, c = vs
    q2, Q = DIV(DIV(x, p), c), DIV(x, c * p)
    pc = s.eng.pc
    s.eng.pc = [("f", h) for h in (x >= 0, p >= 1, c >= 1)]
    s.use(mono(q2, Q, c * p), mono(Q, q2, c * p), mono(MOD(DIV(x, p), c), c, p))
    s.lemma("the remainder of the two-step division is less than c p", z3.And(p * MOD(DIV(x, p), c) + MOD(x, p) < c * p, c * p >= 1))
    s.lemma("two-step division", x == c * p * q2 + (p * MOD(DIV(x, p), c) + MOD(x, p)))
    s.lemma("x // (c p) = (x // p) // c", Q == q2)
    s.eng.pc = pc
    def inst(*a):
        h, g = f(*a)
        return z3.Implies(z3.And(*h), g)
    return inst


def one_pair(s, cond, n, m, X, Y):
    """sum over i < n, j < m(i) of [i == X and j == Y and cond(i, j)], proved to be 1 if cond(X, Y) and they are in range, else 0"""
    inner = lambda i, k: zint(s.count(lambda j: z3.And(i == X, j == Y, zb(cond(i, j))), k))
    val = lambda i, k: z3.If(z3.And(i == X, 0 <= zint(Y), zint(Y) < zint(k), zb(cond(X, Y))), 1, 0)
    def pr(R):
        s.induct("the columns of a row", lambda k: inner(R, k) == val(R, k), m(R))
        return inner(R, m(R)) == val(R, m(R))
    s.general([z3.IntSort()], lambda R: [0 <= R, R < zint(n)], pr)
    outer = lambda k: zint(s.sum(lambda i: inner(i, m(i)), k))
    s.induct("the rows", lambda k: outer(k) == z3.If(z3.And(0 <= zint(X), zint(X) < zint(k)), val(zint(X), m(zint(X))), 0), n)
    return outer(n)


def unrolled(eng, C, n, times=2):
    """facts: the definition of a sum C(n), a few steps back from n"""
    for j in range(times):
        t = to_z(C(z3.simplify(zint(n) - j)))
        if not z3.is_app(t) or not t.decl().name().startswith("Sum!"): return
        m = z3.simplify(zint(n) - j - 1)
        eng.pc.append(("f", z3.Implies(m >= 0, t == to_z(C(m)) + SUMS.body(t, m))))


def match_sums(s, r, *wants):
    """the term with its sums replaced by those of the contract they are proved equal to"""
    r = to_z(r)
    sums = [e for e in core.subterms(r) if z3.is_app(e) and e.decl().name().startswith("Sum!")]
    sums.sort(key=lambda e: next((j for j, w in enumerate(wants) if e.eq(to_z(w))), -1))
    sub, left, wants = {}, list(sums), [to_z(w) for w in wants]
    for budget in (0, 0.6, 2.0, 8.0):
        for e in list(left):
            for w in wants:
                if e.eq(w) or budget and e.sort() == w.sort() and not any(w.eq(x) for x in sub.values()) and s.hint("the sum", e == w, budget):
                    sub[e] = w
                    left.remove(e)
                    break
    return z3.substitute(r, *sub.items()) if sub else r

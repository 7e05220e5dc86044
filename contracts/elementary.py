"""C15, C16, C17, C18: the local rules."""
from .common import *

AR = "netomaton.rules.activity_rule:"


@unit("C17", "game_of_life_rule", "binary neighbourhood containing the cell")
def gol(s):
    l, v = ilist(s, "nb", 0, 1)
    me = s.int("me", 0, 1)
    c = ctx(s, neighbourhood_activities=l, current_activity=me)
    total = s.sum(lambda i: v.at(i), v.n)
    live = total - me
    s.assume(live >= 0)                       # the neighbourhood contains the cell itself
    r = s.call(AR + "game_of_life_rule", c)
    want = z3.If(z3.Or(z3.And(me == 1, z3.Or(live == 2, live == 3)), z3.And(me == 0, live == 3)), 1, 0)
    s.ensure("returns 1 exactly for survival with 2 or 3 and birth with 3", eqv(r, want))


@unit("C17", "wireworld_rule")
def wire(s):
    l, v = ilist(s, "nb", 0, 3)
    me = s.int("me", 0, 3)
    c = ctx(s, neighbourhood_activities=l, current_activity=me)
    heads = s.count(lambda i: v.at(i) == 1, v.n)
    r = s.call(AR + "wireworld_rule", c)
    want = z3.If(me == 0, 0, z3.If(me == 1, 2, z3.If(me == 2, 3, z3.If(z3.Or(heads == 1, heads == 2), 1, 3))))
    s.ensure("empty stays, head to tail, tail to conductor, conductor to head exactly with 1 or 2 heads", eqv(r, want))


@unit("C17", "majority_rule")
def maj(s):
    l = s.fresh(TList(VAL), "nb")
    v = s.v(l)
    s.assume(v.n >= 1)
    c = ctx(s, neighbourhood_activities=l)
    r = s.call(AR + "majority_rule", c)
    x = z3.Const("x", VAL.sort())
    cnt = lambda y: s.count(lambda i: v.at(i) == y, v.n)
    s.ensure("the result is an activity of the neighbourhood", s.exists(lambda i: v.at(i) == r, 0, v.n))
    a = z3.Const("a", VAL.sort())
    w = z3.Const("w", VAL.sort())
    # if some activity w occurs strictly more often than every other one, it is the result
    s.assume(z3.ForAll([a], z3.Implies(a != w, cnt(a) < cnt(w))))
    s.assume(s.exists(lambda i: v.at(i) == w, 0, v.n))
    s.ensure("a strictly most frequent activity is the result", r == w)


@unit("C16", "totalistic_ca", "in-range activities and rule number")
def tot(s):
    k, rule = s.int("k", 2, 36), s.int("rule", 0)
    l, v = ilist(s, "nb", 0, k - 1)
    n = v.n
    c = ctx(s, neighbourhood_activities=l)
    sm = s.sum(lambda i: v.at(i), n)
    s.induct("the neighbourhood sum is at most n(k-1)", lambda i: z3.And(0 <= s.sum(lambda j: v.at(j), i), s.sum(lambda j: v.at(j), i) <= i * (k - 1)), n)
    f = s.call(AR + "totalistic_ca", k, rule)
    r = s.outcome(lambda: s.call(f, c))
    ok = rule < POW(k, n * (k - 1) + 1)
    if r[0] == "exc": s.ensure("only rule numbers that are out of range are rejected", z3.Not(ok)); return
    s.ensure("rule numbers out of range are rejected", ok)
    s.ensure("the digit of weight k^s", eqv(r[1], DIG(rule, k, sm)))
    s.ensure("in 0..k-1", z3.And(0 <= r[1], r[1] < k))


def bits_value(s, v):
    """the number denoted in base 2 by the sequence v, first digit most significant"""
    return s.sum(lambda j: z3.If(v.at(v.n - 1 - j) == 1, POW(2, j), 0), v.n)


@unit("C15", "bits_to_int")
def b2i(s):
    l, v = ilist(s, "bits", 0, 1)
    s.ensure("the value in base 2, first bit most significant", eqv(s.call(AR + "bits_to_int", l), bits_value(s, v)))


@unit("C15", "int_to_bits")
def i2b(s):
    num, d = s.int("num", 0), s.int("d", 1)
    s.assume(num < POW(2, d))
    r = s.v(s.call(AR + "int_to_bits", num, d))
    s.ensure("exactly d digits", eqv(r.n, d))
    s.ensure("digit p has weight 2^(d-1-p)", s.forall(lambda p: eqv(r.at(p), DIG(num, 2, d - 1 - p)), 0, d))


def binary(nks):
    def u(s):
        R = s.int("R", 0)
        l, v = ilist(s, "nb", 0, 1)
        m = v.n
        s.assume(m >= 1, R < POW(2, POW(2, m)))
        c = ctx(s, neighbourhood_activities=l)
        P = lambda i: s.sum(lambda j: z3.If(v.at(m - 1 - j) == 1, POW(2, j), 0), i)
        s.induct("0 <= value of the last i bits < 2^i", lambda i: z3.And(0 <= P(i), P(i) < POW(2, i)), m)
        sv = P(m)
        f = s.call(AR + "nks_ca_rule", R) if nks else s.call(AR + "binary_ca_rule", R)
        r = s.call(f, c)
        want = DIG(R, 2, sv if nks else POW(2, m) - 1 - sv)
        s.ensure("bit %s of the rule number" % ("s" if nks else "2^m-1-s"), eqv(r, want))
        s.ensure("0 or 1", z3.And(0 <= zint(r), zint(r) <= 1))
    return u


unit("C15", "nks_ca_rule")(binary(True))
unit("C15", "binary_ca_rule, default scheme")(binary(False))


@unit("C15", "bits and back")
def roundtrip(s):
    num, d = s.int("num", 0), s.int("d", 1)
    s.assume(num < POW(2, d))
    bits = s.call(AR + "int_to_bits", num, d)
    r = s.call(AR + "bits_to_int", bits)
    P = lambda i: s.sum(lambda j: z3.If(DIG(num, 2, j) == 1, POW(2, j), 0), i)
    half = div_lemma(s)
    one = s.clean("one digit more", lambda P, P2, p, p2, D, a, m: ([P + p * D == num, D == 2 * a + m, 0 <= m, m <= 1, p2 == 2 * p, P2 == P + z3.If(m == 1, p, 0)],
                                                                P2 + p2 * a == num), *[z3.IntSort()] * 7)
    def next_digit(i):
        p, p2, D, a = POW(2, i), POW(2, i + 1), DIV(num, POW(2, i)), DIV(num, POW(2, i + 1))
        m, halves, more = MOD(D, 2), half(num, p, 2), one(P(i), P(i + 1), p, p2, D, a, MOD(D, 2))
        s.use(halves, more)
        s.derive("twice the divisor", [p2 == 2 * p], a == DIV(num, 2 * p))
        s.derive("one digit more", [halves, p2 == 2 * p, p >= 1, a == DIV(num, 2 * p), D == 2 * DIV(D, 2) + m, 0 <= m, m <= 1], D == 2 * a + m)
        s.derive("the value of one digit more", [P(i) + p * D == num, D == 2 * a + m, p2 == 2 * p, 0 <= m, m <= 1, P(i + 1) == P(i) + z3.If(m == 1, p, 0), more], P(i + 1) + p2 * a == num)
        return []
    s.induct("the lowest i digits give num mod 2^i", lambda i: P(i) + POW(2, i) * DIV(num, POW(2, i)) == num, d, using=next_digit)
    s.ensure("bits_to_int(int_to_bits(num, d)) = num", eqv(r, num))


@unit("C18", "ReversibleRule.__call__")
def rev(s):
    acts = s.fresh(TList(TInt), "nb")
    label = z3.Const("label", LAB.sort())
    pty = TDict(LAB, TInt)
    p1 = s.value(TList(pty), "past")
    p = s.new(p1)
    s.assume(p1.n >= 1)
    last = p1.at(p1.n - 1)
    prev = last.val(label)
    s.assume(last.has(label), 0 <= prev, prev <= 1)
    calls = []
    out = s.int("wrapped", 0, 1)
    def handler(eng, args, kw):
        calls.append(args[0])
        return out
    inner = s.userfn("activity_rule", handler)
    rule = s.construct("netomaton.reversible_rule:ReversibleRule", inner)
    c = ctx(s, neighbourhood_activities=acts, past_activities=p, node_label=label, timestep=s.int("t"))
    r = s.call(rule, c)
    s.ensure("the wrapped rule is called once", len(calls) == 1)
    s.ensure("with the same context", len(calls) == 1 and s.eng.identical(calls[0], c))
    xor = lambda a, b: z3.If(a == b, 0, 1)
    s.ensure("its result XOR the activity two timesteps before", eqv(r, xor(out, prev)))
    # the same neighbourhood with this result as the past gives the old past back
    x = s.value(TDict(LAB, TInt), "past2")
    s.assume(x.has(label), x.val(label) == zint(r))
    c2 = ctx(s, neighbourhood_activities=acts, past_activities=s.new(cseq([x])), node_label=label, timestep=s.int("t2"))
    s.ensure("undone by the same rule", eqv(s.call(rule, c2), prev))

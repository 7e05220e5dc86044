"""C20 rule tables: strings are taken as wholes (their library functions by what they are documented to return)."""
from .common import *
from .wolfram import Z_all, Z_exists

RT = "netomaton.rule_tables:"
I = z3.IntSort()
LEN, CHAR, REV, ZF = z3.Function("len:Str", Str, I), z3.Function("char", Str, I, Str), z3.Function("str_reversed", Str, Str), z3.Function("str_zfill", Str, I, Str)
DIFF = z3.Function("different characters", Str, I)
REPR = z3.Function("base_repr", I, I, Str)
IDX, MIRROR = z3.Function("number of", Str, I), z3.Function("mirror", I, I)


def strings(s):
    """what is assumed of strings"""
    x, y, i = z3.Const("sx", Str), z3.Const("sy", Str), z3.Int("si")
    s.eng.trusted_used.add("str: reversal twice gives the string, it has the same characters; len(set(x)) == 1 exactly when all characters are the same")
    s.assume(z3.ForAll([x], z3.And(REV(REV(x)) == x, LEN(REV(x)) == LEN(x), DIFF(REV(x)) == DIFF(x)), patterns=[REV(x)]))
    s.assume(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < LEN(x)), CHAR(REV(x), i) == CHAR(x, LEN(x) - 1 - i)), patterns=[CHAR(REV(x), i)]))
    s.assume(z3.ForAll([x], (DIFF(x) == 1) == z3.And(LEN(x) >= 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(x)), CHAR(x, i) == CHAR(x, 0)))), patterns=[DIFF(x)]))
    def set_(e, a, kw):
        v = e.get(a[0]) if isinstance(a[0], Ref) else a[0] if a else None
        if not (is_z(v) and v.sort() == Str): return e.B.call_ext(e, "set", a, kw)
        s_ = e.iterable(v)[0]
        return e.new(SetV(DIFF(v), lambda c: Z_exists(lambda i: s_.at(i) == c, 0, s_.n), lambda i: z3.Function("member", Str, I, Str)(v, zint(i)), lambda c: z3.Function("place", Str, Str, I)(v, c), TStr))
    s.external("set", set_)


def states(s, k, n):
    """the strings of n digits in base k: the padded representations of 0 .. k**n - 1, each once; closed under reversal"""
    i = z3.Int("ti")
    s.eng.trusted_used.add("numpy.base_repr(i, k).zfill(n), 0 <= i < k**n: the strings of n digits in base k, each once")
    s.external("numpy.base_repr", lambda e, a, kw: REPR(zint(a[0]), zint(a[1])))
    D = lambda i: ZF(REPR(i, k), n)
    N = POW(k, n)
    rng = lambda i: z3.And(0 <= i, i < N)
    s.assume(N >= 1, z3.ForAll([i], z3.Implies(rng(i), z3.And(IDX(D(i)) == i, LEN(D(i)) == n, rng(MIRROR(i)), REV(D(i)) == D(MIRROR(i)))), patterns=[REPR(i, k)]))
    j = z3.Int("tj")
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), 0 <= j, j < n), z3.And(0 <= ORD(CHAR(D(i), j)), ORD(CHAR(D(i), j)) < k)), patterns=[CHAR(D(i), j)]))
    s.general([I], lambda i: [rng(i)], lambda i: (s.lemma("mirroring twice", MIRROR(MIRROR(i)) == i), MIRROR(MIRROR(i)) == i)[1])
    s.general([I], lambda i: [rng(i), DIFF(D(i)) == 1], lambda i: (s.lemma("the first character", CHAR(REV(D(i)), 0) == CHAR(D(i), 0)), CHAR(D(MIRROR(i)), 0) == CHAR(D(i), 0))[1])
    return D, N


T = {}


@invariant(RT + "random_rule_table", ("table", "quiescent_state_count"), force=True)
def filling(E):
    t, c, i = core.to_map(E.v("table"), TStr), E.v("quiescent_state_count"), zint(E.k)
    if not T or not eqv(E.loop.n, T["N"]) is True: raise KeyError("another loop")
    D, k, q = T["D"], T["k"], E.old("quiescent_state")
    tv = t.val if is_z(t.n) or t.n else z3.Function("no value", Str, I)
    x = z3.Const("ix", Str)
    dom = [("the keys so far", z3.ForAll([x], zb(t.has(x)) == z3.And(0 <= IDX(x), IDX(x) < i, x == D(IDX(x))))),
           ("values are states", Z_all(lambda j: And(0 <= tv(D(j)), tv(D(j)) < k), 0, i)),
           ("uniform neighbourhoods", Z_all(lambda j: z3.Implies(z3.And(T["strong"], DIFF(D(j)) == 1), tv(D(j)) == ORD(CHAR(D(j), 0))), 0, i)),
           ("mirror images", Z_all(lambda j: z3.Implies(z3.And(T["iso"], MIRROR(j) < i), tv(D(j)) == tv(D(MIRROR(j)))), 0, i))]
    K = fresh_int("cj")
    return dom + [("entries counted", zint(c) == zint(SUMS.sum(z3.If(zint(tv(D(K))) == zint(q), 1, 0), K)(i)))]


@unit("C20", "random_rule_table", "strings taken as wholes")
def random_table(s): filled(s, True)


@unit("C20", "random_rule_table without lambda and quiescent state", "strings taken as wholes")
def random_table_default(s): filled(s, False)


def filled(s, given):
    k, r = s.int("k", 2), s.int("r", 0)
    strings(s)
    n = 2 * r + 1
    D, N = states(s, k, n)
    lam = z3.Const("lambda", z3.RealSort()) if given else None
    q = s.int("q") if given else None
    strong, iso = z3.Bool("strong"), z3.Bool("isotropic")
    T.update(D=D, N=N, k=k, strong=strong, iso=iso)
    kind, res = s.outcome(lambda: s.call(RT + "random_rule_table", k, r, lam, q, strong, iso))
    valid = z3.And(0 <= q, q < k) if given else True
    if kind == "exc":
        s.ensure("rejected only when the quiescent state is none of the states", Not(valid))
        return
    s.ensure("a quiescent state outside the states is rejected", valid)
    tab, lam2, q2 = s.v(res)
    t = s.v(tab)
    if given: s.ensure("the quiescent state used", eqv(q2, q))
    s.ensure("the quiescent state is a state", And(0 <= q2, q2 < k))
    x = z3.Const("x", Str)
    s.ensure("the keys are the neighbourhood strings", zb(t.has(x)) == z3.And(0 <= IDX(x), IDX(x) < N, x == D(IDX(x))))
    s.assume(t.has(x))
    s.ensure("values are states", And(0 <= t.val(x), t.val(x) < k))
    s.ensure("strong quiescence", z3.Implies(z3.And(strong, DIFF(x) == 1), t.val(x) == ORD(CHAR(x, 0))))
    s.ensure("isotropy", z3.Implies(iso, z3.And(zb(t.has(REV(x))), t.val(REV(x)) == t.val(x))))
    c = zint(s.count(lambda j: t.val(D(j)) == q2, N))
    s.ensure("the reported lambda", eqv(lam2, z3.ToReal(N - c) / z3.ToReal(N)))


@unit("C20", "table_rule")
def lookup(s):
    table = s.fresh(TDict(TStr, TInt), "table"); t = s.v(table)
    acts = s.fresh(TList(VAL), "activities"); a = s.v(acts)
    rule = s.call(RT + "table_rule", table)
    kind, r = s.outcome(lambda: s.eng.call(rule, [ctx(s, neighbourhood_activities=acts)], {}))
    key = s.eng.B.str_join(s.eng, SeqV(a.n, lambda i: s.eng.B.to_str(s.eng, a.at(i)), "list", TStr))
    if kind == "ret":
        s.ensure("the entry of the neighbourhood's string", And(t.has(key), eqv(r, t.val(key))))
    else: s.ensure("rejected only when the string is not in the table", Not(t.has(key)))


@invariant(RT + "table_walk_through", ("rule_table",), force=True)
def walking(E):
    W = T["walk"]
    t, t0, q, k = E.v("rule_table"), W["table"], W["q"], W["k"]
    x = z3.Const("wx", Str)
    has0 = zb(t0.has(x))
    all_ = lambda g: z3.ForAll([x], z3.Implies(has0, zb(g)))
    toq = z3.And(zb(t.has(x)), z3.Or(t.val(x) == t0.val(x), z3.If(W["down"], t.val(x) == q, z3.And(t0.val(x) == q, t.val(x) != q))))
    return [("the keys stay", z3.ForAll([x], zb(t.has(x)) == has0)),
            ("entries change towards the target only", all_(toq)),
            ("values are states", all_(z3.And(0 <= t.val(x), t.val(x) < k))),
            ("uniform neighbourhoods", all_(z3.Implies(z3.And(W["strong"], DIFF(x) == 1), t.val(x) == t0.val(x)))),
            ("mirror images", all_(z3.Implies(W["iso"], t.val(REV(x)) == t.val(x))))]


@unit("C20", "table_walk_through", "strings taken as wholes; a table closed under mirroring when isotropy is asked for")
def walk(s):
    k, r = s.int("k", 2), s.int("r", 0)
    strings(s)
    n = 2 * r + 1
    N = POW(k, n)
    s.assume(N >= 1)
    table = s.fresh(TDict(TStr, TInt), "table"); t0 = s.v(table)
    lam = z3.Const("lambda", z3.RealSort())
    strong, iso = z3.Bool("strong"), z3.Bool("isotropic")
    q = s.int("q", 0); s.assume(q < k)
    x = z3.Const("x", Str)
    s.assume(z3.ForAll([x], z3.Implies(zb(t0.has(x)), z3.And(0 <= t0.val(x), t0.val(x) < k)), patterns=[t0.val(x)]),
             z3.ForAll([x], z3.Implies(z3.And(iso, zb(t0.has(x))), z3.And(zb(t0.has(REV(x))), t0.val(REV(x)) == t0.val(x))), patterns=[zb(t0.has(x))]))
    count = lambda t: zint(s.count(lambda i: t.val(t.key(i)) == q, t.n))
    actual = lambda t: z3.ToReal(N - count(t)) / z3.ToReal(N)
    before = actual(t0)
    T["walk"] = dict(table=t0, q=q, k=k, strong=strong, iso=iso, down=before > lam)
    res = s.call(RT + "table_walk_through", table, lam, k, r, q, strong, iso)
    tab, lam2 = s.v(res)
    t = s.v(tab)
    s.ensure("the keys stay", zb(t.has(x)) == zb(t0.has(x)))
    s.ensure("the reported lambda is the table's", eqv(lam2, actual(t)))
    s.assume(t0.has(x))
    s.ensure("values are states", And(0 <= t.val(x), t.val(x) < k))
    s.ensure("nothing changes when lambda is the target", z3.Implies(before == lam, t.val(x) == t0.val(x)))
    s.ensure("a lower target: entries only become quiescent", z3.Implies(before > lam, z3.Or(t.val(x) == t0.val(x), t.val(x) == q)))
    s.ensure("a higher target: only quiescent entries change", z3.Implies(before < lam, z3.Or(t.val(x) == t0.val(x), z3.And(t0.val(x) == q, t.val(x) != q))))
    s.ensure("strong quiescence is kept", z3.Implies(z3.And(strong, DIFF(x) == 1), t.val(x) == t0.val(x)))
    s.ensure("isotropy is kept", z3.Implies(iso, t.val(REV(x)) == t.val(x)))

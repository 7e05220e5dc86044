"""C23 Turing machines, C26 Hopfield nets."""
from .common import *

TM = "netomaton.turing_machine:"
HS, SYM = TSort("HeadState"), TSort("Symbol")
ENTRY = TTuple(HS, SYM, TInt)
TABLE = TDict(HS, TDict(SYM, ENTRY))


def machine(s):
    """a rule table whose directions are left, stay and right; head state, position and the size of the tape"""
    tab = s.fresh(TABLE, "table")
    t = s.v(tab)
    n = s.int("n", 3)
    q = z3.Const("head", HS.sort())
    pos = s.int("pos", 0)
    s.assume(pos < n)
    return tab, t, n, q, pos


def entry(s, t, q, y):
    """(there is an entry, its three parts)"""
    row = t.val(q)
    return And(t.has(q), row.has(y)), row.val(y)


def moved(d, pos, n):
    """the next position on the periodic tape"""
    return z3.If(d == 0, z3.If(pos == 0, n - 1, pos - 1), z3.If(d == 2, z3.If(pos == n - 1, 0, pos + 1), pos))


@unit("C23", "TapeCentricTuringMachine.activity_rule", "any timestep, any node; the neighbour labels are those of the periodic tape (C12)")
def tape_rule(s):
    tab, t, n, q, pos = machine(s)
    ts, p, g = s.int("t", 1), s.int("p", 0), s.int("g", 0)
    s.assume(p < n, g <= 1)
    sym = z3.Const("sym", SYM.sort())
    hist = s.fresh(TList(TTuple(HS, TInt)), "history")
    h = s.v(hist)
    # ghost g: whether the head has moved in this timestep; every node is presented once per timestep
    s.assume(h.n == ts + g, z3.Implies(p == pos, g == 0), eqv(h.at(ts - 1), (q, pos)))
    ok, e = entry(s, t, q, sym)
    s.assume(z3.Implies(zb(ok), z3.And(0 <= e[2], e[2] <= 2)))
    m = s.obj(TM + "TapeCentricTuringMachine", _n=n, _rule_table=tab, _head_history=hist, _current_timestep=s.int("current"))
    labels = s.new(cseq([z3.If(p == 0, n - 1, p - 1), p, z3.If(p == n - 1, 0, p + 1)]))
    c = ctx(s, node_label=p, timestep=ts, current_activity=sym, neighbour_labels=labels)
    o = s.outcome(lambda: s.method(m, "activity_rule", c))
    here = p == pos
    if o[0] == "exc": s.ensure("an exception only for a missing entry", And(here, Not(ok))); return
    s.ensure("a missing entry raises an exception", Or(Not(here), ok))
    s.ensure("the cell under the head is rewritten with the entry's symbol, every other keeps its own", eqv(o[1], z3.If(here, e[1], sym)))
    h2 = s.v(s.prop(m, "_head_history"))
    s.ensure("one transition at most", h2.n == h.n + z3.If(here, 1, 0))
    s.ensure("the past of the head is kept", s.forall(lambda i: eqv(h2.at(i), h.at(i)), 0, h.n))
    s.ensure("the head takes the entry's state and moves one cell in its direction", z3.Implies(here, zb(eqv(h2.at(ts), (e[0], moved(e[2], pos, n))))))


def head_machine(s, tab, term, maxt, halt, pos):
    """a head-centric machine in any state: the history of its tapes"""
    hist = s.fresh(TList(TList(SYM)), "tapes")
    h = s.v(hist)
    s.assume(h.n >= 1)
    m = s.obj(TM + "HeadCentricTuringMachine", _tape_history=hist, _rule_table=tab, _initial_conditions=None, _head_pos=pos, _terminating_state=term,
              _max_timesteps=maxt, _halt=halt)
    return m, h


@unit("C23", "HeadCentricTuringMachine.activity_rule", "any history of tapes, any entry; with and without a terminating state")
def head_rule(s):
    tab, t, n, q, pos = machine(s)
    term = z3.Const("terminating", HS.sort()) if s.split(z3.Bool("has_term")) else None
    halt = z3.Bool("halt")
    m, h = head_machine(s, tab, term, None, halt, s.int("anywhere"))
    tape = h.at(h.n - 1)
    s.assume(tape.n == n)
    sym = tape.at(pos)
    ok, e = entry(s, t, q, sym)
    c = ctx(s, node_label=0, timestep=s.int("t", 1), current_activity=(q, pos), input=sym)
    o = s.outcome(lambda: s.method(m, "activity_rule", c))
    if o[0] == "exc":
        s.ensure("an exception only for a missing entry or an unknown direction", Or(Not(ok), e[2] < 0, e[2] > 2))
        return
    s.ensure("a missing entry and an unknown direction raise an exception", And(ok, 0 <= e[2], e[2] <= 2))
    nxt = moved(e[2], pos, n)
    s.ensure("the head takes the entry's state and moves one cell in its direction", eqv(o[1], (e[0], nxt)))
    s.ensure("the position read next is the head's", eqv(s.prop(m, "_head_pos"), nxt))
    h2 = s.v(s.prop(m, "_tape_history"))
    s.ensure("one new tape", h2.n == h.n + 1)
    new = h2.at(h.n)
    s.ensure("of the same size", new.n == n)
    s.ensure("exactly the cell under the head is rewritten", s.forall(lambda i: eqv(new.at(i), z3.If(i == pos, e[1], tape.at(i))), 0, n))
    same = lambda a, b: z3.And(a.n == b.n, s.forall(lambda j: eqv(a.at(j), b.at(j)), 0, a.n))
    s.ensure("no earlier tape is altered", s.forall(lambda i: same(h2.at(i), h.at(i)), 0, h.n))
    want = z3.Or(halt, zb(eqv(e[0], term))) if term is not None else halt
    s.ensure("halting exactly at the terminating state", zb(s.eng.truth(s.prop(m, "_halt"))) == want)


@unit("C23", "HeadCentricTuringMachine.input_function", "stops when the terminating state is reached or the history has the maximum number of tapes")
def head_input(s):
    tab, t, n, q, pos = machine(s)
    maxt = s.int("max") if s.split(z3.Bool("has_max")) else None
    halt = z3.Bool("halt")
    m, h = head_machine(s, tab, z3.Const("terminating", HS.sort()), maxt, halt, pos)
    tape = h.at(h.n - 1)
    s.assume(tape.n == n)
    r = s.method(m, "input_function", s.int("t", 0), None, None)
    stop = z3.Or(halt, h.n == maxt) if maxt is not None else halt
    s.ensure("stops exactly then", z3.BoolVal(r is None) == stop)
    if r is None: return
    v = s.v(r)
    s.ensure("one input, for the single node", eqv(v.n, 1))
    s.ensure("the symbol under the head", eqv(v.at(z3.IntVal(0)), tape.at(pos)))
    h2 = s.v(s.prop(m, "_tape_history"))
    s.ensure("reading alters nothing", z3.And(h2.n == h.n, s.forall(lambda j: eqv(h2.at(h.n - 1).at(j), tape.at(j)), 0, n)))


@unit("C23", "HeadCentricTuringMachine starts where it is told")
def head_init(s):
    tab, t, n, q, pos = machine(s)
    tape = s.fresh(TList(SYM), "tape")
    v = s.v(tape)
    s.assume(v.n == n)
    term = z3.Const("terminating", HS.sort()) if s.split(z3.Bool("has_term")) else None
    maxt = s.int("max") if s.split(z3.Bool("has_max")) else None
    o = s.outcome(lambda: s.construct(TM + "HeadCentricTuringMachine", tape, tab, q, pos, term, maxt))
    s.ensure("at least one stopping criterion is required", (o[0] == "exc") == (term is None and maxt is None))
    if o[0] == "exc": return
    m = o[1]
    h = s.v(s.prop(m, "_tape_history"))
    s.ensure("the history holds the initial tape first", And(eqv(h.n, 1), eqv(h.at(z3.IntVal(0)).n, n), s.forall(lambda j: eqv(h.at(z3.IntVal(0)).at(j), v.at(j)), 0, n)))
    i = s.v(s.prop(m, "initial_conditions"))
    s.ensure("a single node with the head's state and position", And(eqv(i.n, 1), eqv(i.at(z3.IntVal(0)), (q, pos))))
    s.ensure("the head is there", eqv(s.prop(m, "_head_pos"), pos))
    s.ensure("running", Not(s.eng.truth(s.prop(m, "_halt"))))
    h1 = s.v(s.prop(s.construct(TM + "TapeCentricTuringMachine", n, tab, q, pos), "_head_history"))
    s.ensure("the tape-centric machine too", And(eqv(h1.n, 1), eqv(h1.at(z3.IntVal(0)), (q, pos))))


@unit("C23", "both forms compute the same step", "the same table, tape and head: the same tape and head afterwards")
def both(s):
    tab, t, n, q, pos = machine(s)
    m, h = head_machine(s, tab, z3.Const("terminating", HS.sort()), None, z3.Bool("halt"), pos)
    tape = h.at(h.n - 1)
    ts, p = s.int("t", 1), s.int("p", 0)
    s.assume(p < n, tape.n == n)
    sym = tape.at(pos)
    ok, e = entry(s, t, q, sym)
    s.assume(ok, 0 <= e[2], e[2] <= 2)
    r = s.method(m, "activity_rule", ctx(s, node_label=0, timestep=ts, current_activity=(q, pos), input=s.v(s.method(m, "input_function", ts, None, None)).at(z3.IntVal(0)) if not s.split(z3.Bool("halt")) else sym))
    new = s.v(s.prop(m, "_tape_history")).at(h.n)
    hist = s.fresh(TList(TTuple(HS, TInt)), "history")
    k = s.v(hist)
    s.assume(k.n == ts + z3.If(p == pos, 0, s.int("g", 0, 1)), eqv(k.at(ts - 1), (q, pos)))
    m1 = s.obj(TM + "TapeCentricTuringMachine", _n=n, _rule_table=tab, _head_history=hist, _current_timestep=s.int("current"))
    labels = s.new(cseq([z3.If(p == 0, n - 1, p - 1), p, z3.If(p == n - 1, 0, p + 1)]))
    r1 = s.method(m1, "activity_rule", ctx(s, node_label=p, timestep=ts, current_activity=tape.at(p), neighbour_labels=labels))
    s.ensure("the same symbol in every cell", eqv(r1, new.at(p)))
    k2 = s.v(s.prop(m1, "_head_history"))
    s.ensure("the same state and position of the head", z3.Implies(p == pos, zb(eqv(k2.at(ts), r))))


HN = "netomaton.hopfield_net:HopfieldNet"


@unit("C26", "HopfieldNet.train", "any number of patterns over n units; from_adjacency_matrix by its contract (C11)")
def htrain(s):
    P = s.fresh(TList(TList(TInt)), "P")
    v = s.v(P)
    n = s.int("n", 1)
    s.assume(v.n >= 1, s.forall(lambda k: v.at(k).n == n, 0, v.n))
    got = []
    net = s.userfn("the network", None)
    s.contract("netomaton.topology.adjacency:from_adjacency_matrix" if False else "netomaton.topology.networks:from_adjacency_matrix", lambda eng, env: (got.append(eng.peek(list(env.values())[0])), net)[1])
    h = s.construct(HN, n)
    s.method(h, "train", P)
    W = s.v(s.prop(h, "adjacency_matrix"))
    i, j = s.int("i", 0), s.int("j", 0)
    s.assume(i < n, j < n)
    s.ensure("n by n", And(eqv(W.n, n), eqv(W.at(i).n, n)))
    want = s.sum(lambda k: v.at(k).at(i) * v.at(k).at(j), v.n)
    s.ensure("Hebbian weights, 0 on the diagonal", eqv(W.at(i).at(j), z3.If(i == j, 0, to_z(want))))
    s.ensure("the network is built from the weights", And(z3.BoolVal(len(got) == 1), s.eng.identical(s.prop(h, "network"), net)))
    if got: s.ensure("exactly these", And(eqv(got[0].n, n), eqv(got[0].at(i).n, n), eqv(got[0].at(i).at(j), W.at(i).at(j))))


@unit("C26", "HopfieldNet._rule", "any neighbours, weights and activities")
def hrule(s):
    n = s.int("n", 1)
    h = s.construct(HN, n)
    labels = s.fresh(TList(LAB), "labels"); lv = s.v(labels)
    conns = s.fresh(TDict(LAB, TList(TStruct({"weight": TInt}))), "connections"); cv = s.v(conns)
    acts = s.fresh(TDict(LAB, TInt), "activities"); av = s.v(acts)
    s.assume(s.forall(lambda k: And(cv.has(lv.at(k)), cv.val(lv.at(k)).n >= 1, av.has(lv.at(k))), 0, lv.n))
    r = s.method(h, "_rule", ctx(s, node_label=z3.Const("me", LAB.sort()), neighbour_labels=labels, connection_states=conns, activities=acts))
    V = s.sum(lambda k: cv.val(lv.at(k)).at(z3.IntVal(0)).d["weight"] * av.val(lv.at(k)), lv.n)
    s.ensure("1 if the weighted sum is at least 0, else -1", eqv(r, z3.If(V >= 0, 1, -1)))


@unit("C26", "the net's activity rule", "the update is applied one node at a time")
def hasync(s):
    n = s.int("n", 1)
    me, cur = s.int("me", 0), s.int("current")
    s.assume(me < n)
    h = s.construct(HN, n)
    s.ensure("the number of units", eqv(s.prop(h, "num_nodes"), n))
    rule = s.prop(h, "activity_rule")
    first = s.v(s.prop(rule, "_update_order")).at(z3.IntVal(0))
    labels = s.fresh(TList(TInt), "labels"); lv = s.v(labels)
    conns = s.fresh(TDict(TInt, TList(TStruct({"weight": TInt}))), "connections"); cv = s.v(conns)
    acts = s.fresh(TDict(TInt, TInt), "activities"); av = s.v(acts)
    s.assume(s.forall(lambda k: And(cv.has(lv.at(k)), cv.val(lv.at(k)).n >= 1, av.has(lv.at(k))), 0, lv.n))
    r = s.eng.call(rule, [ctx(s, node_label=me, neighbour_labels=labels, connection_states=conns, activities=acts, current_activity=cur)], {})
    V = s.sum(lambda k: cv.val(lv.at(k)).at(z3.IntVal(0)).d["weight"] * av.val(lv.at(k)), lv.n)
    s.ensure("only the node whose turn it is takes the update's value", eqv(r, z3.If(me == first, z3.If(V >= 0, 1, -1), cur)))


@unit("C26", "the energy never increases", "symmetric weights with zero diagonal, one node updated by the rule's contract; any number of nodes")
def henergy(s):
    I = z3.IntSort()
    W = z3.Function("W", I, I, I); st = z3.Function("s", I, I)
    n, i = s.int("n", 1), s.int("i", 0)
    s.assume(i < n)
    a, b = z3.Ints("a b")
    s.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n), W(a, b) == W(b, a)), patterns=[W(a, b)]),
             z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), W(a, a) == 0), patterns=[W(a, a)]), s.forall(lambda k: z3.Or(st(k) == 1, st(k) == -1), 0, n))
    R = lambda a, k: zint(s.sum(lambda b: W(a, b) * st(b), k))
    new = z3.If(R(i, n) >= 0, 1, -1)
    d = s.int("d")
    s.assume(d == new - st(i))
    st2 = lambda b: z3.If(b == i, st(i) + d, st(b))
    R2 = lambda a, k: zint(s.sum(lambda b: W(a, b) * st2(b), k))
    def row(A):
        s.induct("the weighted sum after the update", lambda k: R2(A, k) == R(A, k) + z3.If(i < k, W(A, i) * d, 0), n)
        return R2(A, n) == R(A, n) + W(A, i) * d
    rows = s.general([I], lambda A: [0 <= A, A < n], row)
    Q = lambda k: zint(s.sum(lambda a: st(a) * R(a, n), k))
    Q2 = lambda k: zint(s.sum(lambda a: st2(a) * R2(a, n), k))
    T = lambda k: zint(s.sum(lambda a: st(a) * W(a, i), k))
    X = s.clean("a row of the quadratic form", lambda x, r, w, d: ([], x * (r + w * d) == x * r + d * (x * w)), I, I, I, I)
    Z = s.clean("the row of the updated node", lambda x, r, d: ([], (x + d) * r == x * r + d * r), I, I, I)
    D = s.clean("distribution", lambda d, t, u: ([], d * (t + u) == d * t + d * u), I, I, I)
    def step(k):
        s.inst(rows, k)
        return [X(st(k), R(k, n), W(k, i), d), Z(st(i), R(i, n), d), D(d, T(k), st(k) * W(k, i))]
    s.induct("the quadratic form after the update", lambda k: Q2(k) == Q(k) + d * T(k) + z3.If(i < k, d * R(i, n), 0), n, using=step)
    s.induct("the column is the row", lambda k: T(k) == R(i, k), n)
    s.lemma("the change of the quadratic form", Q2(n) == Q(n) + 2 * (d * R(i, n)))
    P = s.clean("the new value agrees in sign with the weighted sum", lambda x, d, r: ([Or(x == 1, x == -1), d == z3.If(r >= 0, 1, -1) - x], d * r >= 0), I, I, I)
    s.use(P(st(i), d, R(i, n)))
    s.ensure("the energy -1/2 sum W s s does not increase", -Q2(n) <= -Q(n))

"""C31 turtle, C29 helpers, C28 information measures, C22 sandpile."""
from .common import *

TU = "netomaton.turtle:Turtle"
SEG = TTuple(TList(TReal), TList(TReal))
STK = TTuple(TReal, TReal, TReal)


def turtle(s):
    x, y, o = z3.Reals("x y o")
    traj, stk = s.fresh(TList(SEG), "traj"), s.fresh(TList(STK), "stk")
    return s.obj(TU, x=x, y=y, orientation=o, trajectory=traj, _stack=stk), x, y, o, traj, stk


def ascending(s, m):
    """the labels of a map in ascending order"""
    from dv.builtins import sort_seq
    return sort_seq(s.eng, map_keys(m))


def same_seq(s, a, b):
    return z3.And(zint(a.n) == zint(b.n), s.forall(lambda i: eqv(a.at(i), b.at(i)), 0, a.n))


SIN, COS, RAD = (z3.Function(n, z3.RealSort(), z3.RealSort()) for n in ("sin", "cos", "radians"))


@unit("C31", "Turtle.forward")
def fwd(s):
    t, x, y, o, traj, stk = turtle(s)
    d = z3.Real("d")
    old, olds = s.v(traj), s.v(stk)
    s.method(t, "forward", d)
    nx, ny = s.prop(t, "x"), s.prop(t, "y")
    s.ensure("x moves by d sin a", nx == x + d * SIN(RAD(o)))
    s.ensure("y moves by d cos a", ny == y + d * COS(RAD(o)))
    s.ensure("the heading is kept", s.prop(t, "orientation") == o)
    new = s.v(s.prop(t, "trajectory"))
    s.ensure("one segment is recorded", zint(new.n) == zint(old.n) + 1)
    s.ensure("recorded segments are not altered", s.forall(lambda i: eqv(new.at(i), old.at(i)), 0, old.n))
    seg = s.v(new.at(old.n))
    xs, ys = s.v(seg[0]), s.v(seg[1])
    s.ensure("the segment has two points", z3.And(zint(length(xs)) == 2, zint(length(ys)) == 2))
    g = lambda q, i: q[i] if isinstance(q, tuple) else q.at(i)
    s.ensure("the segment goes from the old to the new position", z3.And(g(xs, 0) == x, g(xs, 1) == nx, g(ys, 0) == y, g(ys, 1) == ny))
    s.ensure("the stack is untouched", same_seq(s, s.v(s.prop(t, "_stack")), olds))
    s.ensure("pos is the position", eqv(s.prop(t, "pos"), (nx, ny)))


@unit("C31", "Turtle.rotate")
def rot(s):
    t, x, y, o, traj, stk = turtle(s)
    g = z3.Real("g")
    old, olds = s.v(traj), s.v(stk)
    s.method(t, "rotate", g)
    s.ensure("adds to the heading", s.prop(t, "orientation") == o + g)
    s.ensure("moves nothing", z3.And(s.prop(t, "x") == x, s.prop(t, "y") == y))
    s.ensure("records nothing", same_seq(s, s.v(s.prop(t, "trajectory")), old))
    s.ensure("the stack is untouched", same_seq(s, s.v(s.prop(t, "_stack")), olds))


@unit("C31", "Turtle.push and pop", "a balanced sequence leaves the stack as it found it, by the contracts of the four operations")
def pushpop(s):
    t, x, y, o, traj, stk = turtle(s)
    old, olds = s.v(traj), s.v(stk)
    s.method(t, "push")
    s.ensure("push moves nothing", z3.And(s.prop(t, "x") == x, s.prop(t, "y") == y, s.prop(t, "orientation") == o))
    s.ensure("push records nothing", same_seq(s, s.v(s.prop(t, "trajectory")), old))
    st = s.v(s.prop(t, "_stack"))
    s.ensure("push adds one entry to the stack", zint(st.n) == zint(olds.n) + 1)
    s.ensure("push keeps the entries below", s.forall(lambda i: eqv(st.at(i), olds.at(i)), 0, olds.n))
    # anything may happen to position and heading meanwhile, as long as the stack comes back to this height
    x2, y2, o2 = z3.Reals("x2 y2 o2")
    traj2 = s.fresh(TList(SEG), "traj2")
    t2 = s.obj(TU, x=x2, y=y2, orientation=o2, trajectory=traj2, _stack=s.new(st))
    s.method(t2, "pop")
    s.ensure("pop restores position and heading exactly", z3.And(s.prop(t2, "x") == x, s.prop(t2, "y") == y, s.prop(t2, "orientation") == o))
    s.ensure("pop takes just that entry", same_seq(s, s.v(s.prop(t2, "_stack")), olds))
    s.ensure("pop records nothing", same_seq(s, s.v(s.prop(t2, "trajectory")), s.v(traj2)))


@unit("C31", "Turtle starts where it is told")
def tinit(s):
    x, y, o = z3.Reals("x y o")
    t = s.construct(TU, x, y, o)
    s.ensure("position and heading are the given ones", z3.And(s.prop(t, "x") == x, s.prop(t, "y") == y, s.prop(t, "orientation") == o))
    s.ensure("nothing is recorded yet", z3.And(zint(s.v(s.prop(t, "trajectory")).n) == 0, zint(s.v(s.prop(t, "_stack")).n) == 0))


@unit("C29", "init_simple")
def isimple(s):
    n, v = s.int("n", 1), s.int("val")
    r = s.v(s.call(EV + ":init_simple", n, v))
    s.ensure("n entries", zint(r.n) == n)
    s.ensure("the value at n//2, zero elsewhere", s.forall(lambda i: eqv(r.at(i), z3.If(i == DIV(n, 2), v, 0)), 0, n))


@unit("C29", "init_simple2d")
def isimple2(s):
    rows, cols, v = s.int("rows", 1), s.int("cols", 1), s.int("val")
    r = s.v(s.call(EV + ":init_simple2d", rows, cols, v))
    s.ensure("rows*cols entries", zint(r.n) == rows * cols)
    a, b = s.int("a", 0), s.int("b", 0)
    s.assume(a < rows, b < cols)
    s.ensure("the value in the centre, zero elsewhere", eqv(r.at(a * cols + b), z3.If(z3.And(a == DIV(rows, 2), b == DIV(cols, 2)), v, 0)))


@unit("C29", "init_random")
def irandom(s):
    n, k, m, e = s.int("n", 1), s.int("k", 1), s.int("m"), s.int("e")
    r = s.outcome(lambda: s.call(EV + ":init_random", n, k, m, e))
    if r[0] == "exc": s.ensure("only m outside 0..n is rejected", z3.Or(m < 0, m > n)); return
    s.ensure("m outside 0..n is rejected", z3.And(0 <= m, m <= n))
    v = s.v(r[1])
    left = DIV(n - m, 2)
    s.ensure("n entries", zint(v.n) == n)
    s.ensure("the m centred ones are in 0..k-1", s.forall(lambda i: z3.And(0 <= v.at(i), v.at(i) < k), left, left + m))
    s.ensure("the others are e", z3.And(s.forall(lambda i: eqv(v.at(i), e), 0, left), s.forall(lambda i: eqv(v.at(i), e), left + m, n)))


@unit("C29", "ncr")
def ncr(s):
    n, r = s.int("n"), s.int("r")
    F = z3.Function("factorial", z3.IntSort(), z3.IntSort())
    o = s.outcome(lambda: s.call("netomaton.utils:ncr", n, r))
    if o[0] == "exc": s.ensure("only negative arguments are rejected", z3.Or(n < 0, r < 0)); return
    s.ensure("negative arguments are rejected", z3.And(n >= 0, r >= 0))
    # binomial coefficients: the unique whole number C with C r! (n-r)! = n!, for r <= n
    C = z3.Int("C")
    s.assume(C >= 0, F(r) >= 1, F(n - r) >= 1)
    s.assume(z3.Implies(r <= n, F(n) == C * F(r) * F(n - r)))
    L = s.clean("division by one factor and then the other", lambda c, p, q: ([p >= 1, q >= 1, c >= 0], z3.And(DIV(c * p * q, p) == c * q, DIV(c * q, q) == c)), *[z3.IntSort()] * 3)
    s.use(L(C, F(r), F(n - r)))
    s.ensure("the binomial coefficient, and 0 if r > n", eqv(o[1], z3.If(r > n, 0, C)))


@unit("C29", "get_activities_over_time_as_list")
def gaot(s):
    ty = TDict(TInt, VAL)
    st = TRec(s.cls("netomaton.state:State"), _activities=ty, _network=TNone(), _compression=TConst(False))
    tr = s.fresh(TList(st), "traj")
    v = s.v(tr)
    s.assume(s.forall(lambda t: zint(v.at(t).f["_activities"].n) >= 1, 0, v.n))
    r = s.v(s.call("netomaton.utils:get_activities_over_time_as_list", tr))
    s.ensure("one row per state", zint(r.n) == zint(v.n))
    t = s.int("t", 0)
    s.assume(t < v.n)
    row, a = s.v(r.at(t)), v.at(t).f["_activities"]
    s.ensure("as many entries as nodes", zint(row.n) == zint(a.n))
    keys = ascending(s, a)
    s.ensure("the labels are enumerated in ascending order, each once", z3.And(keys.n == a.n, s.forall(lambda i: a.has(keys.at(i)), 0, keys.n),
             s.forall(lambda i: s.forall(lambda j: zint(keys.at(i)) < zint(keys.at(j)), i + 1, keys.n), 0, keys.n)))
    s.ensure("the activities in that order", s.forall(lambda i: eqv(row.at(i), a.val(keys.at(i))), 0, row.n))


@unit("C29", "init_random without m", "every site is randomized")
def irandom2(s):
    n, k = s.int("n", 0), s.int("k", 1)
    v = s.v(s.call(EV + ":init_random", n, k))
    s.ensure("n entries", zint(v.n) == n)
    s.ensure("all in 0..k-1", s.forall(lambda i: z3.And(0 <= v.at(i), v.at(i) < k), 0, n))


AN = "netomaton.analysis:"
LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())


def distinct(s, v):
    """an enumeration without repetition of the distinct symbols"""
    from dv.builtins import set_of
    return set_of(s.eng, v, False)


def real(x): return to_z(x, z3.RealSort())


def entropy(s, v):
    d = distinct(s, v)
    p = lambda x: real(s.count(lambda i: eqv(v.at(i), x), v.n)) / real(v.n)
    return -s.sum(lambda j: p(d.enum(j)) * LOG2(p(d.enum(j))), d.n)


@unit("C28", "shannon_entropy")
def shannon(s):
    l = s.fresh(TList(VAL), "string")
    v = s.v(l)
    s.assume(v.n >= 1)
    s.ensure("-sum p log2 p over the distinct symbols", eqv(s.call(AN + "shannon_entropy", l), entropy(s, v)))


def joint(s, x, y):
    dx, dy = distinct(s, x), distinct(s, y)
    p = lambda a, b: real(s.count(lambda i: z3.And(zb(eqv(x.at(i), a)), zb(eqv(y.at(i), b))), x.n)) / real(x.n)
    return s.sum(lambda i: s.sum(lambda j: z3.If(p(dx.enum(i), dy.enum(j)) != 0, -p(dx.enum(i), dy.enum(j)) * LOG2(p(dx.enum(i), dy.enum(j))), 0), dy.n), dx.n)


@unit("C28", "joint_shannon_entropy")
def jointu(s):
    X, Y = s.fresh(TList(VAL), "X"), s.fresh(TList(VAL), "Y")
    x, y = s.v(X), s.v(Y)
    s.assume(x.n >= 1, y.n == x.n)
    s.ensure("the entropy of the symbol pairs at equal positions", eqv(s.call(AN + "joint_shannon_entropy", X, Y), joint(s, x, y)))


def H(s, v): return s.pure("H", z3.RealSort(), v)
def HJ(s, x, y): return s.pure("HJ", z3.RealSort(), x, y)


@unit("C28", "mutual_information", "callees by their contracts")
def mi(s):
    X, Y = s.fresh(TList(VAL), "X"), s.fresh(TList(VAL), "Y")
    x, y = s.v(X), s.v(Y)
    s.assume(x.n >= 1, y.n == x.n)
    s.contract(AN + "shannon_entropy", lambda eng, e: H(s, e["string"]))
    s.contract(AN + "joint_shannon_entropy", lambda eng, e: HJ(s, e["stringX"], e["stringY"]))
    s.ensure("H(X) + H(Y) - H(X,Y)", eqv(s.call(AN + "mutual_information", X, Y), H(s, x) + H(s, y) - HJ(s, x, y)))


def table(s):
    """a list of activity lists of equal length"""
    a = s.fresh(TList(TList(TInt)), "activities")
    v = s.v(a)
    cols = s.int("cols", 1)
    s.assume(s.forall(lambda t: zint(v.at(t).n) == cols, 0, v.n))
    return a, v, cols


def column(s, v, c, lo, hi):
    from dv.builtins import to_str
    return SeqV(hi - lo, lambda t: to_str(s.eng, v.at(zint(t) + lo).at(c)), "list", TStr)


@unit("C28", "average_node_entropy", "shannon_entropy by its contract")
def ane(s):
    a, v, cols = table(s)
    s.contract(AN + "shannon_entropy", lambda eng, e: H(s, e["string"]))
    r = s.outcome(lambda: s.call(AN + "average_node_entropy", a))
    if r[0] == "exc": s.ensure("only an empty list is rejected", v.n == 0); return
    s.ensure("an empty list is rejected", v.n > 0)
    want = s.sum(lambda c: H(s, column(s, v, c, 0, v.n)), cols) / real(cols)
    s.ensure("the mean over the nodes of the entropy of their states", eqv(r[1], want))


@unit("C28", "average_mutual_information", "mutual_information by its contract")
def ami(s):
    a, v, cols = table(s)
    d = s.int("d")
    s.contract(AN + "mutual_information", lambda eng, e: s.pure("MI", z3.RealSort(), e["stringX"], e["stringY"]))
    r = s.outcome(lambda: s.call(AN + "average_mutual_information", a, d))
    ok = z3.And(v.n > 0, 1 <= d, d < v.n)
    if r[0] == "exc": s.ensure("only an empty list or a temporal distance out of range is rejected", z3.Not(ok)); return
    s.ensure("an empty list or a temporal distance out of range is rejected", ok)
    want = s.sum(lambda c: s.pure("MI", z3.RealSort(), column(s, v, c, 0, v.n - d), column(s, v, c, d, v.n)), cols) / real(cols)
    s.ensure("the mean over the nodes of the mutual information at that distance", eqv(r[1], want))


SP = "netomaton.sandpile:Sandpile"


@unit("C22", "Sandpile.activity_rule")
def sandrule(s):
    n = s.int("n", 0)
    labels = s.fresh(TList(TInt), "labels")
    acts, av = ilist(s, "acts")
    lv = s.v(labels)
    s.assume(lv.n == av.n)
    me = s.int("me", 0)
    at = s.int("at", 0)
    s.assume(at < lv.n, lv.at(at) == me)
    s.assume(s.forall(lambda i: s.forall(lambda j: lv.at(i) != lv.at(j), i + 1, lv.n), 0, lv.n))      # each neighbour once
    cur = s.int("cur")
    s.assume(av.at(at) == cur)
    closed = z3.Bool("closed")
    border = s.fresh(TList(TInt), "border")
    bv = s.v(border)
    sp = s.obj(SP, _K=4, _network=None, _boundary_indices=border, _is_closed_boundary=closed)
    c = ctx(s, node_label=me, current_activity=cur, neighbour_labels=labels, neighbourhood_activities=acts)
    r = s.method(sp, "activity_rule", c)
    # the sum over the list without the cell itself is the sum over the others
    pop = lambda k: s.count(lambda i: z3.If(i < at, av.at(i) >= 4, av.at(i + 1) >= 4), k)
    oth = lambda k: s.count(lambda i: z3.And(av.at(i) >= 4, i != at), k)
    s.induct("a list without its element at `at`", lambda k: pop(k) == oth(z3.If(k <= at, k, k + 1)), av.n - 1)
    onb = z3.And(closed, s.exists(lambda i: bv.at(i) == me, 0, bv.n))
    big = s.count(lambda i: z3.And(av.at(i) >= 4, i != at), av.n)
    s.ensure("the sandpile law, and 0 on a closed border", eqv(r, z3.If(onb, 0, cur + big - z3.If(cur >= 4, 4, 0))))
    s.ensure("the context is not altered", z3.And(same_seq(s, s.v(s.prop(c, "neighbour_labels")), lv), same_seq(s, s.v(s.prop(c, "neighbourhood_activities")), av)))


@unit("C22", "Sandpile._get_boundary_indices")
def sandborder(s):
    rows, cols = s.int("rows", 1), s.int("cols", 1)
    sp = s.obj(SP, _K=4, _network=None, _boundary_indices=None, _is_closed_boundary=True)
    b = s.v(s.method(sp, "_get_boundary_indices", (rows, cols)))
    a, c = s.int("a", 0), s.int("c", 0)
    s.assume(a < rows, c < cols)
    rc = s.clean("row and column of a cell are unique", lambda a, b, c, d, n: ([0 <= b, b < n, 0 <= d, d < n, a * n + b == c * n + d], z3.And(a == c, b == d)), *[z3.IntSort()] * 5)
    i = s.int("i", 0)
    s.assume(i < b.n)
    x = b.at(i)
    r0, c0 = DIV(x, cols), MOD(x, cols)
    cr = rows
    # the four segments: first row, last row, first column, last column
    s.use(rc(a, c, 0, i, cols), rc(a, c, rows - 1, i - cols, cols), rc(a, c, i - 2 * cols, 0, cols), rc(a, c, i - 2 * cols - rows, cols - 1, cols))
    border = z3.Or(a == 0, a == rows - 1, c == 0, c == cols - 1)
    s.ensure("only the cells of the first and last rows and columns", z3.Implies(x == a * cols + c, border))
    cell = a * cols + c
    for w, cond in ((c, a == 0), (cols + c, a == rows - 1), (2 * cols + a, c == 0), (2 * cols + rows + a, c == cols - 1)):
        s.hint("where the cell is listed", z3.Implies(cond, z3.And(b.at(w) == cell, 0 <= w, w < b.n)))
    s.ensure("all the cells of the first and last rows and columns", z3.Implies(border, s.exists(lambda i: b.at(i) == cell, 0, b.n)))

"""C19 asynchronous rule, C21 CTRBL rules, C23 Turing machines, C26 Hopfield nets."""
from .common import *

AS = "netomaton.asynchronous_rule:AsynchronousRule"


def order_of(s, name="order"):
    o = s.fresh(TList(LAB), name)
    v = s.v(o)
    s.assume(v.n >= 1, s.forall(lambda i: s.forall(lambda j: v.at(i) != v.at(j), i + 1, v.n), 0, v.n))
    return o, v


@unit("C19", "AsynchronousRule.__call__", "any presentation order: ghost g = nodes of the order presented so far in this timestep")
def async_call(s):
    o, v = order_of(s)
    m = v.n
    label = z3.Const("label", LAB.sort())
    cur = z3.Const("cur", VAL.sort()); out = z3.Const("out", VAL.sort())
    c0, g = s.int("c0", 0), s.int("g", 0)
    s.assume(c0 < m, g <= m)
    curr, num = s.int("curr"), s.int("num")
    inv = lambda g, curr, num: z3.If(g < m, z3.And(num == g, curr == c0), z3.And(num == 0, curr == (c0 + 1) % m))
    s.assume(inv(g, curr, num))
    inorder = s.exists(lambda i: v.at(i) == label, 0, m)
    s.assume(z3.Implies(inorder, g < m))               # every node is presented once per timestep
    calls = []
    rule = s.userfn("activity_rule", lambda eng, a, k: (calls.append(a[0]), out)[1])
    ar = s.obj(AS, _activity_rule=rule, _nodes=o, _update_order=o, _curr=curr, _num_applied=num, _randomize_each_cycle=False)
    c = ctx(s, node_label=label, current_activity=cur)
    r = s.method(ar, "__call__", c)
    upd = label == v.at(c0)
    s.ensure("the wrapped rule is applied exactly to the node at the position of the order", z3.BoolVal(len(calls) == 1) == z3.And(upd))
    s.ensure("never more than once", len(calls) <= 1)
    if calls: s.ensure("with the same context", s.eng.identical(calls[0], c))
    s.ensure("its result is the node's activity; the others keep theirs", r == z3.If(upd, out, cur))
    g2 = g + z3.If(inorder, 1, 0)
    s.ensure("the cursor moves on exactly when all nodes of the order have been presented", inv(g2, zint(s.prop(ar, "_curr")), zint(s.prop(ar, "_num_applied"))))
    no = s.v(s.prop(ar, "_update_order"))
    s.ensure("the order is kept", z3.And(no.n == m, s.forall(lambda i: no.at(i) == v.at(i), 0, m)))


@unit("C19", "AsynchronousRule, reshuffled", "randomize_each_cycle")
def async_shuffle(s):
    nodes, nv = order_of(s, "nodes")
    m = nv.n
    # the current order: a permutation of the nodes
    o, v = order_of(s)
    s.assume(v.n == m)
    label = z3.Const("label", LAB.sort())
    cur = z3.Const("cur", VAL.sort()); out = z3.Const("out", VAL.sort())
    curr, num = s.int("curr", 0), s.int("num", 0)
    s.assume(curr < m, num < m)
    member = lambda w, y: s.exists(lambda i: w.at(i) == y, 0, w.n)
    p, q = z3.Function("p", z3.IntSort(), z3.IntSort()), z3.Function("q", z3.IntSort(), z3.IntSort())
    s.assume(s.forall(lambda i: z3.And(v.at(i) == nv.at(p(i)), 0 <= p(i), p(i) < m, q(p(i)) == i), 0, m))
    rule = s.userfn("activity_rule", lambda eng, a, k: out)
    ar = s.obj(AS, _activity_rule=rule, _nodes=nodes, _update_order=o, _curr=curr, _num_applied=num, _randomize_each_cycle=True)
    c = ctx(s, node_label=label, current_activity=cur)
    r = s.method(ar, "__call__", c)
    s.ensure("the node at the position of this timestep's order is updated", r == z3.If(label == v.at(curr), out, cur))
    no = s.v(s.prop(ar, "_update_order"))
    ended = z3.And(member(v, label), num + 1 == m)
    s.ensure("the order is reshuffled after a complete cycle only", z3.Or(ended, z3.And(no.n == m, s.forall(lambda i: no.at(i) == v.at(i), 0, m))))
    s.ensure("as many nodes", no.n == m)
    s.ensure("each once", s.forall(lambda i: s.forall(lambda j: no.at(i) != no.at(j), i + 1, m), 0, m))
    s.ensure("nodes of the given set", s.forall(lambda i: member(nv, no.at(i)), 0, m))
    s.ensure("the given nodes are not reordered", s.forall(lambda i: s.v(s.prop(ar, "_nodes")).at(i) == nv.at(i), 0, m))
    s.ensure("the cursor stays in range", z3.And(0 <= zint(s.prop(ar, "_curr")), zint(s.prop(ar, "_curr")) < m))


@unit("C19", "AsynchronousRule.__init__")
def async_init(s):
    rule = s.userfn("activity_rule", lambda eng, a, k: None)
    o, v = order_of(s)
    ar = s.construct(AS, rule, o)
    no = s.v(s.prop(ar, "_update_order"))
    s.ensure("the given order is used", z3.And(no.n == v.n, s.forall(lambda i: no.at(i) == v.at(i), 0, v.n)))
    s.ensure("starting at its first position", z3.And(zint(s.prop(ar, "_curr")) == 0, zint(s.prop(ar, "_num_applied")) == 0))
    n = s.int("n", 0)
    ar = s.construct(AS, rule, None, n)
    no = s.v(s.prop(ar, "_update_order"))
    s.ensure("with n only: n nodes", no.n == n)
    s.ensure("each in 0..n-1", s.forall(lambda i: z3.And(0 <= no.at(i), no.at(i) < n), 0, n))
    s.ensure("each once", s.forall(lambda i: s.forall(lambda j: no.at(i) != no.at(j), i + 1, n), 0, n))
    r = s.outcome(lambda: s.construct(AS, rule))
    s.ensure("giving neither is rejected", r[0] == "exc")


CT = "netomaton.ctrbl_rule:CTRBLRule"
K5 = TTuple(TInt, TInt, TInt, TInt, TInt)


@unit("C21", "CTRBLRule.activity_rule")
def ctrule(s):
    tab = s.fresh(TDict(K5, TInt), "table")
    t = s.v(tab)
    a = tuple(s.int("a%d" % i) for i in range(5))
    r = s.obj(CT, _network=None, _neighbourhood_map=None, _rule_table=tab)
    c = ctx(s, neighbourhood_activities=s.new(cseq(list(a))))
    o = s.outcome(lambda: s.method(r, "activity_rule", c))
    if o[0] == "exc": s.ensure("an exception only if the table has no entry", Not(t.has(a))); return
    s.ensure("an exception if the table has no entry", t.has(a))
    s.ensure("the table's entry for the five activities", eqv(o[1], t.val(a)))


@unit("C21", "CTRBLRule._init_neighbourhood_map")
def ctmap(s):
    rows, cols = s.int("rows", 3), s.int("cols", 3)
    m = s.v(s.call(CT + "._init_neighbourhood_map", (rows, cols)))
    r, c = s.int("r", 0), s.int("c", 0)
    s.assume(r < rows, c < cols)
    me = r * cols + c
    L = s.clean("cells are numbered row by row", lambda r, c, n: ([0 <= c, c < n, 0 <= r], z3.And(DIV(r * n + c, n) == r, MOD(r * n + c, n) == c)), *[z3.IntSort()] * 3)
    B = s.clean("the last row", lambda r, c, rows, n: ([0 <= c, c < n, 0 <= r, r < rows], z3.And(0 <= r * n + c, r * n + c < rows * n)), *[z3.IntSort()] * 4)
    s.use(L(r, c, cols), B(r, c, rows, cols), B(r - 1, c, rows, cols), B(r + 1, c, rows, cols), L(r - 1, c, cols), L(r + 1, c, cols))
    s.ensure("one entry per cell", eqv(m.n, rows * cols))
    s.ensure("every cell has one", m.has(me))
    nb = m.val(me).f
    cell = lambda r, c: r * cols + c
    s.ensure("centre", eqv(nb["_center"], me))
    s.ensure("top", eqv(nb["_top"], cell(z3.If(r == 0, rows - 1, r - 1), c)))
    s.ensure("bottom", eqv(nb["_bottom"], cell(z3.If(r == rows - 1, 0, r + 1), c)))
    s.ensure("left", eqv(nb["_left"], cell(r, z3.If(c == 0, cols - 1, c - 1))))
    s.ensure("right", eqv(nb["_right"], cell(r, z3.If(c == cols - 1, 0, c + 1))))


@unit("C21", "CTRBLRule.__init__", "the network, the map and the table by their contracts")
def ctinit(s):
    from .evolution import Net
    rows, cols = s.int("rows", 3), s.int("cols", 3)
    net = Net(s, lt=TInt)
    x = z3.Int("x")
    isnode = lambda x: z3.And(0 <= x, x < rows * cols)
    s.assume(z3.ForAll([x], zb(net.m.has(x)) == isnode(x), patterns=[zb(net.m.has(x))]))
    VN = TRec(s.cls("netomaton.ctrbl_rule:VonNeumannNeighbourhood"), _center=TInt, _top=TInt, _bottom=TInt, _left=TInt, _right=TInt)
    nm = s.fresh(TDict(TInt, VN), "neighbours"); N = s.v(nm)
    parts = ("_center", "_top", "_right", "_bottom", "_left")
    s.assume(z3.ForAll([x], zb(N.has(x)) == isnode(x), patterns=[zb(N.has(x))]),
             z3.ForAll([x], z3.Implies(isnode(x), z3.And(*[isnode(N.val(x).f[p]) for p in parts])), patterns=[zb(N.has(x))]))
    def build(e, env):
        e.oblige("a von Neumann lattice of radius 1 of these dimensions", And(eqv(env["rows"], rows), eqv(env["cols"], cols), eqv(env["r"], 1), env["neighbourhood"] == "von Neumann"))
        return net.ref
    s.contract("netomaton.topology.networks:cellular_automaton2d", build)
    def themap(e, env):
        e.oblige("the map of these dimensions", eqv(e.peek(env["dim"]), (rows, cols)))
        return nm
    s.contract(CT + "._init_neighbourhood_map", themap)
    tab, out = s.fresh(TDict(K5, TInt), "table"), s.fresh(TDict(K5, TInt), "completed table")
    addrot = z3.Bool("add_rotations")
    def table(e, env):
        e.oblige("of the given table, with rotations as asked for", And(eqv(e.peek(env["rule_table"]), s.v(tab)), e.truth(env["add_rotations"]) == addrot))
        return out
    s.contract(CT + "._init_rule_table", table)
    ar = s.split(addrot)
    r = s.construct(CT, (rows, cols), tab, ar)
    s.ensure("that table", eqv(s.v(s.prop(r, "rule_table")), s.v(out)))
    s.ensure("that network", s.eng.identical(s.prop(r, "network"), net.ref))
    g = s.v(net.ref).f
    s.ensure("its links unchanged", eqv(g["_network"], net.m))
    rot = g["_rotation_system"]
    X = s.int("X", 0)
    s.assume(X < rows * cols)
    s.ensure("an order for every cell", rot.has(X))
    s.ensure("centre, top, right, bottom, left", eqv(rot.val(X), tuple(N.val(X).f[p] for p in parts)))


def rots(k):
    c, t, r, b, l = k
    return [(c, t, r, b, l), (c, l, t, r, b), (c, b, l, t, r), (c, r, b, l, t)]


@unit("C21", "CTRBLRule._init_rule_table, without rotations")
def ctnorot(s):
    tab = s.fresh(TDict(K5, TInt), "table")
    t = s.v(tab)
    m = s.v(s.call(CT + "._init_rule_table", tab, False))
    k = tuple(s.int("k%d" % i) for i in range(5))
    s.ensure("exactly the given entries", z3.And(zb(m.has(k)) == zb(t.has(k)), z3.Implies(zb(t.has(k)), zb(eqv(m.val(k), t.val(k))))))
    t2 = s.v(tab)
    s.ensure("the given table is not modified", z3.And(zb(t2.has(k)) == zb(t.has(k)), z3.Implies(zb(t.has(k)), zb(eqv(t2.val(k), t.val(k))))))
    s.ensure("a table of its own", True)


@unit("C21", "CTRBLRule._init_rule_table, with rotations", "tables that give rotations of one another the same image")
def ctrot(s):
    tab = s.fresh(TDict(K5, TInt), "table")
    t = s.v(tab)
    k = tuple(s.int("k%d" % i) for i in range(5))
    x = tuple(z3.Int("x%d" % i) for i in range(5))
    for j in (1, 2, 3):
        s.assume(z3.ForAll(list(x), z3.Implies(z3.And(zb(t.has(x)), zb(t.has(rots(x)[j]))), zb(eqv(t.val(x), t.val(rots(x)[j]))))))
    m = s.v(s.call(CT + "._init_rule_table", tab, True))
    some = Or(*[t.has(q) for q in rots(k)])
    s.ensure("the four rotations of every entry and nothing else", zb(m.has(k)) == zb(some))
    for j, q in enumerate(rots(k)): s.ensure("mapped to the same image/%d" % j, z3.Implies(zb(t.has(q)), zb(eqv(m.val(k), t.val(q)))))
    t2 = s.v(tab)
    s.ensure("the given table is not modified", z3.And(zb(t2.has(k)) == zb(t.has(k)), z3.Implies(zb(t.has(k)), zb(eqv(t2.val(k), t.val(k))))))


LL = "netomaton.langtons_loop:LangtonsLoop"
LOOP = (" 22222222",
        "2170140142",
        "2022222202",
        "272....212",
        "212....212",
        "202....212",
        "272....212",
        "21222222122222",
        "207107107111112",
        " 2222222222222")


def loop_at(dx, dy):
    """(in the loop's box?, the state there), relative to the corner of the box; "." and blanks are 0"""
    val = z3.IntVal(0)
    for i, line in enumerate(LOOP):
        row = z3.IntVal(0)
        for j, ch in enumerate(line):
            if ch in "1234567": row = z3.If(dy == j, int(ch), row)
        val = z3.If(dx == i, row, val)
    return z3.And(0 <= dx, dx < 10, 0 <= dy, dy < 15), val


LOOPS = {}


@invariant(LL + ".init_loops", ["initial_conditions"], force=True)
def loops_inv(E):
    D, k = LOOPS, E.k
    g = E.v("initial_conditions")
    x, y = z3.Ints("ix iy")
    for f in D["at"](zint(k)): E.eng.assume(f)
    inside = z3.And(0 <= x, x < D["rows"], 0 <= y, y < D["cols"])
    return [("as many rows", zint(g.n) == D["rows"]),
            ("as many columns", z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < D["rows"]), zint(g.at(x).n) == D["cols"]))),
            ("the loops so far", z3.ForAll([x, y], z3.Implies(inside, zint(g.at(x).at(y)) == D["G"](k, x, y))))]


@unit("C21", "LangtonsLoop.init_loops", "any number of loops that do not overlap or leave the grid")
def loops(s):
    rows, cols, n = s.int("rows", 1), s.int("cols", 1), s.int("n", 0)
    rl, cl = s.fresh(TList(TInt), "row"), s.fresh(TList(TInt), "col")
    r, c = s.v(rl), s.v(cl)
    inside = lambda i: z3.And(0 <= r.at(i), r.at(i) + 10 <= rows, 1 <= c.at(i), c.at(i) + 14 <= cols)
    s.assume(r.n == n, c.n == n, s.forall(inside, 0, n))
    apart = lambda i, j: z3.Or(r.at(i) + 10 <= r.at(j), r.at(j) + 10 <= r.at(i), c.at(i) + 15 <= c.at(j), c.at(j) + 15 <= c.at(i))
    s.assume(s.forall(lambda i: s.forall(lambda j: z3.Implies(i != j, apart(i, j)), 0, n), 0, n))
    I = z3.IntSort()
    G = z3.Function("after", I, I, I, I)           # the grid after the first k loops: box after box
    x, y = z3.Ints("gx gy")
    box = lambda k, x, y: loop_at(x - r.at(k), y - c.at(k) + 1)
    def unf(k):
        p, v = box(k, x, y)
        return z3.ForAll([x, y], z3.And(G(0, x, y) == 0, G(k + 1, x, y) == z3.If(p, v, G(k, x, y))), patterns=[G(k + 1, x, y)])
    s.assume(z3.ForAll([x, y], G(0, x, y) == 0, patterns=[G(0, x, y)]))
    step = lambda x, y: lambda k: [unf(k), G(k + 1, x, y) == G(k + 1, x, y)]
    def clear(k, x, y):
        s.induct("a box is empty before its turn", lambda j: z3.Implies(j <= k, G(j, x, y) == 0), n, using=step(x, y))
        return G(k, x, y) == 0
    empty = s.general([I, I, I], lambda k, x, y: [0 <= k, k < n, box(k, x, y)[0]], clear)
    LOOPS.update(at=lambda k: [unf(k), z3.Implies(z3.And(0 <= k, k < n), inside(k)), z3.ForAll([x, y], z3.Implies(z3.And(0 <= k, k < n, box(k, x, y)[0]), G(k, x, y) == 0), patterns=[G(k, x, y)])],
                 rows=rows, cols=cols, G=G)
    l = s.obj(LL, _dim=(rows, cols))
    g = s.v(s.method(l, "init_loops", n, rl, cl))
    s.ensure("one activity per cell", g.n == rows * cols)
    X, Y = s.int("X", 0), s.int("Y", 0)
    s.assume(X < rows, Y < cols)
    at = g.at(X * cols + Y)
    s.ensure("cell by cell, loop after loop", at == G(n, X, Y))
    if s.split(z3.Bool("a cell of some loop")):
        i = s.int("i", 0)
        p, v = box(i, X, Y)
        s.assume(i < n, p)
        s.induct("stays as it is after loop i", lambda k: z3.Implies(k >= i + 1, G(k, X, Y) == v), n, using=step(X, Y))
        s.ensure("its state in the pattern", at == v)
    else:
        s.assume(s.forall(lambda k: z3.Not(box(k, X, Y)[0]), 0, n))
        s.induct("stays 0", lambda k: G(k, X, Y) == 0, n, using=step(X, Y))
        s.ensure("every other cell is 0", at == 0)

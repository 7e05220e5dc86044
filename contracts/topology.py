"""C11, C12, C13, C14: the builders of networks. They are checked against the contract of Network's operations (proved in
network.py): what they ask of it is recorded - the edges and nodes added, in order - and the recorded lists must be exactly those the
property states."""
from .common import *
from .evolution import Net
from dv import builtins as B

NS = "netomaton.state:Network"
TP = "netomaton.topology.networks:"
AJ = "netomaton.topology.adjacency:"


def ghost_network(s, attrs=True):
    """networks built by the code under contract: lists of what was added"""
    eng = s.eng
    def init(e, env):
        n = env.get("n", 0)
        e.setattr(env["self"], "_network", e.new(RecV(None, {"n": e.get(n) if isinstance(n, Ref) else n, "nodes": cseq([]), "edges": cseq([])})))
        e.setattr(env["self"], "_rotation_system", None)
    def part(e, o, nm):
        r = e.root(o)
        return Ref(r.cell, r.path + (("f", "_network"), ("f", nm)), e.nev)
    def add_edge(e, env):
        a = e._imm(env["attr"])
        e.call(e.getattr(part(e, env["self"], "edges"), "append"), [(env["i"], env["j"], a)], {})
    def add_node(e, env):
        e.call(e.getattr(part(e, env["self"], "nodes"), "append"), [(env["node_label"], e._imm(env["attr"]))], {})
    s.contract(NS + ".__init__", init)
    s.contract(NS + ".add_edge", add_edge, must=False)
    s.contract(NS + ".add_node", add_node, must=False)


class Built:
    def __init__(self, s, ref):
        g = s.v(ref).f["_network"].f
        self.s, self.n, self.nodes, self.edges = s, g["n"], g["nodes"], g["edges"]
    def edge(self, k): return self.edges.at(k)


def matrix(s, n, name="adj", ty=TReal):
    """an arbitrary n x n matrix"""
    a = s.fresh(TList(TList(ty)), name)
    m = s.v(a)
    s.assume(zint(m.n) == n)
    q = z3.Int("mq")
    s.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), zint(m.at(q).n) == n)))
    return a, m


@unit(("C11", "C12", "C13", "C14"), "from_adjacency_matrix")
def from_adj(s):
    n = s.int("n", 0)
    a, m = matrix(s, n)
    ghost_network(s)
    r = s.call(TP + "from_adjacency_matrix", a)
    b = Built(s, r)
    k = s.int("k", 0)
    if s.split(k < zint(b.edges.n)):
        i, j, at = b.edge(k)
        s.ensure("an edge stands for an entry", And(0 <= i, i < n, 0 <= j, j < n))
        s.ensure("which is not zero", m.at(i).at(j) != 0)
        s.ensure("and has it as its weight, and nothing else", eqv(at, CMapV({"weight": m.at(i).at(j)})))
    X, Y = s.int("X", 0), s.int("Y", 0)
    s.assume(X < n, Y < n)
    s.lemma("sum over the matrix", z3.Implies(n > 0, one_pair(s, lambda i, j: m.at(i).at(j) != 0, n, lambda i: m.at(i).n, X, Y) >= 0))
    c = s.count(lambda k: z3.And(b.edge(k)[0] == X, b.edge(k)[1] == Y), b.edges.n)
    s.ensure("exactly one edge for an entry that is not zero, none for others", c == z3.If(m.at(X).at(Y) != 0, 1, 0))
    q, x = z3.Ints("q x")
    s.ensure("a node for every row, and no other", z3.And(*[z3.Exists([q], z3.And(0 <= q, q < zint(b.nodes.n), zb(eqv(b.nodes.at(q)[0], X))))]))
    if s.split(k < zint(b.nodes.n)):
        s.ensure("only the rows are nodes", And(0 <= b.nodes.at(k)[0], b.nodes.at(k)[0] < n))
        s.ensure("nodes without attributes", eqv(b.nodes.at(k)[1], CMapV({})))
    s.ensure("no node to begin with", b.n == 0)
    s.ensure("no rotation system", s.v(r).f["_rotation_system"] is None)
    s.ensure("the matrix is not modified", eqv(s.v(a), m))


@unit(("C11", "C14"), "Network.from_networkx")
def from_nx(s):
    ns = s.value(TList(TTuple(LAB, TAttr)), "ns")
    es = s.value(TList(TTuple(LAB, LAB, TAttr)), "es")
    ghost_network(s)
    asked = []
    def listing(l):
        def h(e, args, kw):
            e.oblige("with the attributes", not args and list(kw) == ["data"] and kw["data"] is True)
            return l
        return h
    G = s.eng.new(RecV(None, {"nodes": s.userfn("G.nodes", listing(ns)), "edges": s.userfn("G.edges", listing(es))}))
    b = Built(s, s.call("netomaton.state:Network.from_networkx", G))
    k = s.int("k", 0)
    s.ensure("every node, in order, and no other", And(eqv(b.n, 0), eqv(b.nodes.n, ns.n), Or(k >= zint(ns.n), eqv(b.nodes.at(k), ns.at(k)))))
    s.ensure("every edge, in order, with its attributes", And(eqv(b.edges.n, es.n), Or(k >= zint(es.n), eqv(b.edges.at(k), es.at(k)))))


@unit(("C14",), "disconnected")
def disconnected(s):
    ghost_network(s)
    if s.split(z3.Bool("a number is given")):
        n = s.int("n", 0)
        b = Built(s, s.call(TP + "disconnected", n))
        s.ensure("n nodes", And(eqv(b.n, n), eqv(b.nodes.n, 0)))
    else:
        l = s.fresh(TList(LAB), "labels"); v = s.v(l)
        b = Built(s, s.call(TP + "disconnected", l))
        k = s.int("k", 0)
        s.ensure("exactly the given nodes", And(eqv(b.n, 0), eqv(b.nodes.n, v.n), Or(k >= zint(v.n), eqv(b.nodes.at(k)[0], v.at(k)))))
        s.ensure("without attributes", Or(k >= zint(v.n), eqv(b.nodes.at(k)[1], CMapV({}))))
    s.ensure("no edges", eqv(b.edges.n, 0))


@unit(("C14",), "bipartite")
def bipartite(s):
    s.eng.opaque_attrs = True
    ghost_network(s)
    A, B = s.fresh(TList(LAB), "A"), s.fresh(TList(LAB), "B")
    a, b = s.v(A), s.v(B)
    q, p = z3.Ints("q p")
    at = None
    if s.split(z3.Bool("attributes are given")):
        at = s.fresh(TDict(LAB, TDict(LAB, TAttr)), "attrs"); av = s.v(at)
        s.assume(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < a.n, 0 <= p, p < b.n), z3.And(zb(av.has(a.at(q))), zb(av.val(a.at(q)).has(b.at(p)))))))
    r = Built(s, s.call(TP + "bipartite", A, B, at) if at is not None else s.call(TP + "bipartite", A, B))
    attr = lambda i, j: AttrV(core.ATTR_EMPTY) if at is None else av.val(i).val(j)
    na, nb = zint(a.n), zint(b.n)
    s.ensure("two edges for every pair", zint(r.edges.n) == 2 * na * nb)
    s.ensure("no other node", And(eqv(r.n, 0), eqv(r.nodes.n, 0)))
    i, j = s.int("i", 0), s.int("j", 0); s.assume(i < na, j < nb)
    k = 2 * (i * nb + j)
    for d in (0, 1):
        x, y = (a.at(i), b.at(j)) if d == 0 else (b.at(j), a.at(i))
        s.ensure("in %s direction, with its attributes" % ("one", "the other")[d], eqv(r.edges.at(k + d), (x, y, attr(a.at(i), b.at(j)))))


def nx_graph(s, adjacency, edges=None):
    """a NetworkX graph, as far as the builders look at it"""
    rows = s.new(adjacency) if not isinstance(adjacency, Ref) else adjacency
    sparse = lambda o: s.eng.new(RecV(None, {"todense": s.userfn("todense", lambda e, a, k: e.new(RecV(None, {"tolist": s.userfn("tolist", lambda e2, a2, k2: o)})))}))
    s.external("networkx.adjacency_matrix", lambda e, a, k: sparse(rows))


@unit(("C14",), "complete")
def complete(s):
    """networkx is assumed to give the complete graph's adjacency matrix"""
    n = s.int("n", 0)
    given = []
    def cg(e, a, k):
        e.oblige("for the number of nodes", And(len(a) == 1 and not k, eqv(a[0], n)))
        given.append(1)
        return e.new(RecV(None, {}))
    s.external("networkx.complete_graph", cg)
    z = z3.Int("z")
    M = SeqV(n, lambda i: SeqV(n, lambda j: z3.If(zint(i) == zint(j), 0, 1), "list", TInt), "list", TList(TInt))
    nx_graph(s, M)
    calls = []
    def fa(e, env):
        a = s.v(env["adj"])
        x, y = z3.Ints("cx cy")
        e.oblige("a row for each node", eqv(a.n, n))
        e.oblige("all joined with each other, none with itself", z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < n), z3.And(zint(a.at(x).n) == n, to_z(a.at(x).at(y)) == z3.If(x == y, 0, 1)))))
        r = e.new(RecV(None, {}))
        calls.append(r)
        return r
    s.contract(TP + "from_adjacency_matrix", fa)
    r = s.call(TP + "complete", n)
    s.ensure("the network of this matrix", len(calls) == 1 and r is calls[0])


@unit(("C14",), "watts_strogatz_graph")
def ws(s):
    """networkx is assumed to give a Watts-Strogatz graph for these parameters"""
    n, k = s.int("n", 0), s.int("k", 0)
    p, seed = z3.Real("p"), z3.Int("seed")
    def cg(e, a, kw):
        v = dict(zip(("n", "k", "p", "seed"), a)); v.update(kw)
        e.oblige("with the parameters given", And(set(v) == {"n", "k", "p", "seed"} and And(eqv(v["n"], n), eqv(v["k"], k), eqv(v["p"], p), eqv(v["seed"], seed))))
        return e.new(RecV(None, {}))
    s.external("networkx.watts_strogatz_graph", cg)
    a, m = matrix(s, n, "G", TInt)
    nx_graph(s, a)
    calls = []
    def fa(e, env):
        e.oblige("the matrix of the graph", eqv(s.v(env["adj"]), m))
        r = e.new(RecV(None, {}))
        calls.append(r)
        return r
    s.contract(TP + "from_adjacency_matrix", fa)
    r = s.call(TP + "watts_strogatz_graph", n, k, p, seed)
    s.ensure("the network of this matrix", len(calls) == 1 and r is calls[0])


LT = {}


@invariant(TP + "lattice", ["network"])
def lattice_inv(E):
    from dv.loops import InvSkip
    if not LT: raise InvSkip()
    s, es, k = LT["s"], LT["es"], E.k
    b = Built(s, E.v("network"))
    q, p = z3.Ints("iq ip")
    if not is_z(b.edges.n) and b.edges.n == 0: return [("edges so far", LT["fwd"](k) + LT["bwd"](k) == 0), ("nothing else", And(eqv(b.n, 0), eqv(b.nodes.n, 0)))]
    e = b.edge(q)
    C = lambda m: s.count(lambda i: z3.And(b.edge(i)[0] == LT["x"], b.edge(i)[1] == LT["y"]), m)
    unrolled(E.eng, C, b.edges.n)
    return [("edges so far", C(b.edges.n) == LT["fwd"](k) + LT["bwd"](k)),
            ("only edges of the grid", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(b.edges.n)), z3.And(zb(eqv(e[2], LT["none"])), z3.Exists([p], z3.And(0 <= p, p < zint(k), LT["of"](e, p))))))),
            ("nothing else", And(eqv(b.n, 0), eqv(b.nodes.n, 0)))]


@unit(("C14",), "lattice")
def lattice(s):
    """networkx is assumed to give the grid graph's edges, each once, with consecutive labels"""
    ghost_network(s)
    es = s.value(TList(TTuple(TInt, TInt)), "es")
    dim, per, first = s.value(TSort("Dim"), "dim"), z3.Bool("periodic"), z3.Int("first_label")
    def grid(e, a, kw):
        v = dict(zip(("dim", "periodic"), a)); v.update(kw)
        e.oblige("the grid of these dimensions", And(eqv(v.get("dim"), dim), eqv(v.get("periodic", False), per)))
        return e.new(RecV(None, {"edges": None}))
    def conv(e, a, kw):
        v = dict(zip(("G", "first_label"), a)); v.update(kw)
        e.oblige("numbered from the first label", eqv(v.get("first_label", 0), first))
        return e.new(RecV(None, {"edges": es}))
    s.external("networkx.grid_graph", grid)
    s.external("networkx.convert_node_labels_to_integers", conv)
    sl = z3.Bool("self loops")
    x, y = z3.Ints("x y")
    fwd = lambda n: s.count(lambda k: z3.And(es.at(k)[0] == x, es.at(k)[1] == y, z3.Or(sl, x != y)), n)
    bwd = lambda n: s.count(lambda k: z3.And(es.at(k)[0] == y, es.at(k)[1] == x, z3.Or(sl, x != y)), n)
    of = lambda e, q: z3.And(z3.Or(z3.And(es.at(q)[0] == e[0], es.at(q)[1] == e[1]), z3.And(es.at(q)[0] == e[1], es.at(q)[1] == e[0])), z3.Or(sl, e[0] != e[1]))
    none = AttrV(core.ATTR_EMPTY)
    s.eng.opaque_attrs = True
    LT.clear(); LT.update(s=s, es=es, x=x, y=y, fwd=fwd, bwd=bwd, of=of, none=none)
    b = Built(s, s.call(TP + "lattice", dim, per, sl, first))
    k = s.int("k", 0); s.assume(k < zint(b.edges.n))
    q = z3.Int("q")
    i, j, at = b.edge(k)
    s.ensure("an edge stands for an edge of the grid, in either direction", z3.Exists([q], z3.And(0 <= q, q < es.n, of((i, j), q))))
    s.ensure("without attributes", eqv(at, none))
    s.ensure("no other nodes", And(eqv(b.n, 0), eqv(b.nodes.n, 0)))
    s.ensure("an edge for each direction of each edge of the grid", s.count(lambda k: z3.And(b.edge(k)[0] == x, b.edge(k)[1] == y), b.edges.n) == fwd(es.n) + bwd(es.n))


AD = "netomaton.topology.adjacency:"


@unit(("C12",), "adjacency.cellular_automaton")
def ring_matrix(s):
    n, r, x, y = z3.Ints("n r x y")
    s.assume(n >= 3, r >= 0, 2 * r + 1 <= n, 0 <= x, x < n, 0 <= y, y < n)
    m = s.v(s.call(AD + "cellular_automaton", n, r))
    row = m.at(x)
    a = z3.If(x >= y, x - y, y - x)
    s.ensure("a row for each cell", eqv(m.n, n))
    s.ensure("a column for each cell", eqv(row.n, n))
    s.ensure("cells at distance at most r on the ring are connected with weight 1, others are not", row.at(y) == z3.If(z3.Or(a <= r, n - a <= r), z3.RealVal(1), z3.RealVal(0)))


@unit(("C12",), "_shift_to_center")
def shift(s):
    """the neighbours of a cell, in ascending order, are turned around the ring so that the cell is in the middle"""
    nodes, v = ilist(s, "nodes")
    m, p, k = v.n, z3.Int("p"), z3.Int("k")
    i, j = z3.Ints("i j")
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), v.at(i) < v.at(j)), patterns=[z3.MultiPattern(v.at(i), v.at(j))]))
    s.assume(0 <= p, p < m, 0 <= k, k < m)
    r = s.v(s.call(TP + "_shift_to_center", nodes, v.at(p)))
    s.ensure("as many", eqv(r.n, m))
    s.ensure("the cell is in the middle, the others in their order around the ring", r.at(k) == v.at(MOD(k - DIV(m, 2) + p, m)))


@unit(("C12",), "cellular_automaton")
def ring_network(s):
    """the network of the ring's matrix, with the neighbours of each cell in their order around the ring"""
    ordered = s.split(z3.Bool("ordered"))
    n, r = z3.Ints("n r")
    s.assume(n >= 3, r >= 0, 2 * r + 1 <= n)
    a, m = matrix(s, n)
    def ring(e, env):
        e.oblige("the ring of these cells and this radius", And(eqv(env["n"], n), eqv(env["r"], r), eqv(env["boundary"], "periodic")))
        return a
    s.contract(AD + "cellular_automaton", ring)
    # its network: the incoming links of a cell come from the cells at distance at most r, in ascending order (assumed here: what
    # add_edge makes of the list of edges proved for from_adjacency_matrix)
    net = Net(s, lt=TInt)
    m = net.m
    x, y = z3.Ints("x y")
    i, j = z3.Ints("i j")
    dist = lambda x, y: z3.If(x >= y, x - y, y - x)
    near = lambda x, y: z3.And(0 <= y, y < n, z3.Or(dist(x, y) <= r, n - dist(x, y) <= r))
    s.assume(z3.ForAll([x], zb(m.has(x)) == z3.And(0 <= x, x < n)))
    inc = lambda x: net.incoming(x)
    s.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n), zb(inc(x).has(y)) == near(x, y))))
    s.assume(z3.ForAll([x, i, j], z3.Implies(z3.And(0 <= x, x < n, 0 <= i, i < j, j < zint(inc(x).n)), inc(x).key(i) < inc(x).key(j))))
    def build(e, env):
        e.oblige("of the ring's matrix", eqv(e.peek(env["adj"]), s.v(a)))
        return net.ref
    s.contract(TP + "from_adjacency_matrix", build)
    def shifted(e, env):
        v, c = e.peek(env["nodes"]), env["node_to_center_on"]
        i, j = z3.Ints("si sj")
        e.oblige("the neighbours are in ascending order", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zint(v.n)), v.at(i) < v.at(j))))
        p = fresh_int("p")
        at = lambda i: z3.And(0 <= i, i < zint(v.n), v.at(i) == c)
        e.guard(at(zint(v.pos(c))) if v.pos is not None else z3.Exists([i], at(i)), "ValueError", "the cell is one of its neighbours")
        e.assume(z3.And(0 <= p, p < zint(v.n), v.at(p) == c))
        return e.new(SeqV(v.n, lambda k: v.at(MOD(k - DIV(zint(v.n), 2) + p, zint(v.n))), "list", TInt))
    if ordered: s.contract(TP + "_shift_to_center", shifted)
    res = s.call(TP + "cellular_automaton", n, r, ordered)
    s.ensure("that network", res == net.ref)
    g = s.v(res).f
    s.ensure("unchanged", eqv(g["_network"], m))
    rot = g["_rotation_system"]
    if not ordered: s.ensure("no order of its own", rot is None); return
    X, k = s.int("X", 0), s.int("k", 0)
    s.assume(X < n, k <= 2 * r)
    s.ensure("an order for every cell", zb(rot.has(X)))
    t = rot.val(X)
    w = 2 * r + 1
    def expl(k):
        lo, hi = X - r, X + r
        return z3.If(lo < 0, z3.If(k < w + lo, k, n - w + k), z3.If(hi >= n, z3.If(k < hi - n + 1, k, lo + k - (hi - n + 1)), lo + k))
    key, pos, cnt = inc(X).key, inc(X).pos, zint(inc(X).n)
    rng = [n >= 3, r >= 0, 2 * r + 1 <= n, 0 <= X, X < n]
    P = lambda k: z3.And(k <= cnt, z3.Implies(0 < k, key(k - 1) == expl(k - 1)))
    def step(k):
        e, p = expl(k), pos(expl(k))
        s.derive("such a cell", rng + [0 <= k, k < w], near(X, e))
        s.lemma("is connected", z3.And(zb(inc(X).has(e)), 0 <= p, p < cnt, key(p) == e))
        s.derive("above the one before", rng + [0 <= k, k < w], z3.Implies(k > 0, expl(k - 1) < e))
        s.lemma("in order", z3.Implies(z3.And(0 <= p, p < k - 1), key(p) < key(k - 1)))
        s.lemma("at place k at least", p >= k)
        s.lemma("not above", z3.And(k < cnt, key(k) <= e))
        s.lemma("one of them", z3.And(zb(inc(X).has(key(k))), near(X, key(k))))
        s.lemma("not below", z3.Implies(k > 0, key(k) > expl(k - 1)))
        s.derive("nothing between", rng + [0 <= k, k < w, key(k) <= e, near(X, key(k)), z3.Implies(k > 0, key(k) > expl(k - 1))], key(k) == e)
        return []
    allk = s.induct("the cells at distance at most r in ascending order", P, w, using=step)
    last = expl(w - 1)
    s.lemma("the last one", z3.And(zb(inc(X).has(last)), 0 <= pos(last), pos(last) < cnt, key(pos(last)) == last))
    s.lemma("no more", z3.Implies(cnt > w, z3.And(near(X, key(w)), key(w) > key(w - 1), key(w - 1) == last)))
    s.lemma("there are 2r + 1", cnt == w)
    for what, q in (("the cell itself", pos(X)), ("all of them", MOD(k - DIV(w, 2) + pos(X), w))):
        s.lemma("%s: in range" % what, z3.And(0 <= q, q < w))
        s.inst(allk, q + 1)
    s.ensure("2r + 1 neighbours", zint(t.n) == w)
    s.ensure("from the left to the right", t.at(k) == z3.If(X + k - r < 0, X + k - r + n, z3.If(X + k - r >= n, X + k - r - n, X + k - r)))


@unit(("C12",), "adjacency.cellular_automaton: what is rejected")
def ring_rejections(s):
    n, r = z3.Ints("n r")
    if s.split(z3.Bool("few cells")):
        s.assume(n < 3)
        o = s.outcome(lambda: s.call(AD + "cellular_automaton", n, r))
    else:
        b = s.fresh(TStr, "boundary")
        s.assume(Not(eqv(b, "periodic")))
        o = s.outcome(lambda: s.call(AD + "cellular_automaton", n, r, b))
    s.ensure("an exception", zb(o[0] == "exc"))


@unit(("C13",), "_get_neighbourhood_points2d")
def points2d(s):
    """the points of the box that satisfy the criterion, and no other"""
    a, b, r, rn, x, y = z3.Ints("a b r rownum x y")
    s.assume(r >= 0)
    CR = z3.Function("criterion", *[z3.IntSort()] * 6, z3.BoolSort())
    crit = s.userfn("criteria", lambda e, args, kw: CR(*[zint(q) for q in args]))
    v = s.v(s.call(AD + "_get_neighbourhood_points2d", a, b, r, crit, rn))
    k = s.int("k", 0)
    if s.split(k < zint(v.n)):
        p = v.at(k)
        s.ensure("in the box", And(a - r <= p[0], p[0] <= a + r, b - r <= p[1], p[1] <= b + r))
        s.ensure("satisfies the criterion", CR(p[0], p[1], a, b, r, rn))
    else:
        # the point in row i, column j of the box
        i, j, q = z3.Int("i"), z3.Int("j"), z3.Int("q")
        x, y = a - r + i, b - r + j
        s.assume(0 <= i, i <= 2 * r, 0 <= j, j <= 2 * r, CR(x, y, a, b, r, rn))
        before = zint(s.count(lambda c: CR(x, b - r + c, a, b, r, rn), j))
        for row in s.rows_of(v.at(q)[0], q)[:1]:
            w = s.place(row, i, before)
            s.hint("its place", z3.And(0 <= w, w < zint(v.n), v.at(w)[0] == x, v.at(w)[1] == y))
        s.ensure("every such point", z3.Exists([q], z3.And(0 <= q, q < zint(v.n), v.at(q)[0] == x, v.at(q)[1] == y)))


def pure_truth(e, f, args):
    """the truth of f(args), evaluated aside (a formula)"""
    snap, nob = e.snapshot(), len(e.obls)
    e.quiet += 1
    try: outs = e.sub(lambda: e.truth(e.call(f, list(args), {})))
    finally: e.quiet -= 1; e.restore(snap); del e.obls[nob:]
    alts = []
    for pc, r, st in outs:
        if r[0] != "val": raise Unsupported("a criterion that raises")
        alts.append(z3.And(*[c for t, c in pc if t == "g"], zb(r[1])))
    return z3.simplify(z3.Or(*alts))


def same_row(t, p, c, X, Y):
    """the term with p // c, p % c (proved to be X and Y) replaced"""
    p = z3.simplify(p, som=True)
    t = z3.simplify(t, som=True)
    ds = [x for x in core.subterms(t) if z3.is_app(x) and x.decl().name() in ("pydiv", "pymod") and x.arg(1).eq(c) and z3.simplify(x.arg(0) - p, som=True).eq(z3.IntVal(0))]
    return z3.simplify(z3.substitute(t, *[(x, X if x.decl().name() == "pydiv" else Y) for x in ds]), som=True)


def torus(s, kind):
    rows, cols, r = z3.Ints("rows cols r")
    X, Y, U, V, q = z3.Ints("X Y U V q")
    s.assume(r >= 0, 2 * r + 1 <= rows, 2 * r + 1 <= cols, rows * cols >= 9)
    if kind == "Hex": s.assume(r == 1)
    s.assume(0 <= X, X < rows, 0 <= Y, Y < cols, 0 <= U, U < rows, 0 <= V, V < cols, q == U * cols + V)
    p = X * cols + Y
    ab = lambda x: z3.If(x >= 0, x, -x)
    def crit(dx, dy, a):
        vn = ab(dx) + ab(dy) <= r
        if kind == "Moore": return z3.And(ab(dx) <= r, ab(dy) <= r)
        return vn if kind == "von Neumann" else z3.Or(vn, z3.If(MOD(a, 2) == 0, dy >= 0, dy <= 0))
    I = z3.IntSort()
    N, P0, P1, IX = z3.Function("npoints", I, I, I), z3.Function("point0", I, I, I, I), z3.Function("point1", I, I, I, I), z3.Function("pointix", I, I, I, I, I)
    box = lambda x, y, a, b: z3.And(a - r <= x, x <= a + r, b - r <= y, y <= b + r)
    a, b, k, x, y = z3.Ints("pa pb pk px py")
    u, v = P0(a, b, k), P1(a, b, k)
    s.assume(z3.ForAll([a, b], N(a, b) >= 0, patterns=[N(a, b)]))
    s.assume(z3.ForAll([a, b, k], z3.Implies(z3.And(0 <= k, k < N(a, b)), z3.And(box(u, v, a, b), crit(u - a, v - b, a))), patterns=[u, v]))
    i = IX(a, b, x, y)
    s.assume(z3.ForAll([a, b, x, y], z3.Implies(z3.And(box(x, y, a, b), crit(x - a, y - b, a)), z3.And(0 <= i, i < N(a, b), P0(a, b, i) == x, P1(a, b, i) == y)), patterns=[i]))
    def points(e, env):
        a, b, rad, rn = (zint(env[n]) for n in ("a", "b", "r", "rownum"))
        e.oblige("this radius", rad == r)
        x, y = fresh_int("x"), fresh_int("y")
        e.oblige("the criterion of the neighbourhood", z3.Implies(box(x, y, a, b), pure_truth(e, env["criteria"], [x, y, a, b, rad, rn]) == crit(x - a, y - b, a)))
        return e.new(SeqV(N(a, b), lambda k: (P0(a, b, zint(k)), P1(a, b, zint(k))), "list", TTuple(TInt, TInt)))
    s.contract(AD + "_get_neighbourhood_points2d", points)
    m = s.v(s.call(AD + "cellular_automaton2d", rows, cols, r, kind))
    t = m.at(p).at(q)
    # the cell and its coordinates
    one = s.clean("a number has one quotient and one remainder", lambda a, v, b, w, c: ([0 <= v, v < c, 0 <= w, w < c, a * c + v == b * c + w], z3.And(a == b, v == w)), I, I, I, I, I)
    md = s.clean("remainders near the range", lambda a, n: ([n >= 1, -n <= a, a < 2 * n], MOD(a, n) == z3.If(a < 0, a + n, z3.If(a >= n, a - n, a))), I, I)
    s.use(one(DIV(p, cols), MOD(p, cols), X, Y, cols))
    s.lemma("the row of a cell", z3.And(DIV(p, cols) == X, MOD(p, cols) == Y, p >= 0, p < rows * cols, q >= 0, q < rows * cols))
    t = same_row(t, p, cols, X, Y)
    # how far apart they are, the short way
    def short(x, u, n): return z3.If(u - x > r, u - x - n, z3.If(x - u > r, u - x + n, u - x))
    dx, dy = short(X, U, rows), short(Y, V, cols)
    near = z3.And(ab(dx) <= r, ab(dy) <= r, crit(dx, dy, X))
    wrap = lambda x, n: z3.If(x == -1, n - 1, MOD(x, n))
    # what the code says of a point that makes the connection: a row and a column of the matrix (proof hints: they depend on how it says it)
    bodies = []
    for ex in {x.get_id(): x for x in core.subterms(t) if z3.is_quantifier(x) and x.is_exists() and x.num_vars() == 1}.values():
        def body(k): return z3.substitute_vars(ex.body(), k)
        def coordinates(f):
            for x in core.subterms(f):
                if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and len(x.children()) == 2 and any(c.eq(cols) for c in x.children())): continue
                A = x.arg(1) if x.arg(0).eq(cols) else x.arg(0)
                if A.eq(U): continue
                for y in core.subterms(f):
                    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ADD and len(y.children()) == 2 and any(c.eq(x) for c in y.children()): yield A, y.arg(1) if y.arg(0).eq(x) else y.arg(0)
        def links(k):
            u, v = P0(X, Y, k), P1(X, Y, k)
            s.use(md(u, rows), md(v, cols))
            for A, B in coordinates(body(k)):
                s.hint("in the grid", z3.And(0 <= A, A < rows, 0 <= B, B < cols))
                s.use(one(A, B, U, V, cols))
                s.hint("that cell", z3.And(A == U, B == V))
            s.lemma("so far apart", z3.And(u - X == dx, v - Y == dy))
            return near
        s.general([I], lambda k: [body(k)], links)
        bodies.append((body, coordinates))
    i = IX(X, Y, X + dx, Y + dy)
    s.use(md(X + dx, rows), md(Y + dy, cols))
    s.lemma("the point of a neighbour", z3.Implies(near, z3.And(0 <= i, i < N(X, Y), P0(X, Y, i) == X + dx, P1(X, Y, i) == Y + dy)))
    s.lemma("is the neighbour", z3.Implies(near, z3.And(wrap(X + dx, rows) == U, wrap(Y + dy, cols) == V)))
    for body, coordinates in bodies:
        for A, B in coordinates(body(i)): s.hint("the coordinates of the neighbour", z3.Implies(near, z3.And(A == U, B == V)))
        s.hint("that point makes the connection", z3.Implies(near, body(i)))
    s.ensure("the cells of the neighbourhood are connected with weight 1", z3.Implies(near, t == 1))
    s.ensure("others are not connected", z3.Implies(z3.Not(near), t == 0))
    s.ensure("a row for each cell", zint(m.n) == rows * cols)
    s.ensure("a column for each cell", zint(m.at(p).n) == rows * cols)


@unit(("C13",), "adjacency.cellular_automaton2d (Moore)", timeout=300)
def moore(s): torus(s, "Moore")


@unit(("C13",), "adjacency.cellular_automaton2d (von Neumann)", timeout=300)
def von_neumann(s): torus(s, "von Neumann")


@unit(("C13",), "adjacency.cellular_automaton2d (Hex)", timeout=300)
def hexagonal(s): torus(s, "Hex")


@unit(("C13",), "adjacency.cellular_automaton2d: what is rejected")
def torus_rejections(s):
    rows, cols, r = z3.Ints("rows cols r")
    kind, b = s.fresh(TStr, "neighbourhood"), s.fresh(TStr, "boundary")
    if s.split(z3.Bool("few cells")):
        s.assume(rows * cols < 9)
        o = s.outcome(lambda: s.call(AD + "cellular_automaton2d", rows, cols, r))
    elif s.split(z3.Bool("other boundary")):
        s.assume(Not(eqv(b, "periodic")))
        o = s.outcome(lambda: s.call(AD + "cellular_automaton2d", rows, cols, r, "Moore", b))
    else:
        s.assume(rows >= 1, cols >= 1, r >= 0, *[Not(eqv(kind, k)) for k in ("Moore", "von Neumann", "Hex")])
        o = s.outcome(lambda: s.call(AD + "cellular_automaton2d", rows, cols, r, kind))
    s.ensure("an exception", zb(o[0] == "exc"))


@unit(("C13",), "cellular_automaton2d")
def torus_network(s):
    """the network of the matrix"""
    rows, cols, r = z3.Ints("rows cols r")
    kind = s.fresh(TStr, "neighbourhood")
    a, m = matrix(s, z3.Int("n"))
    net = Net(s, lt=TInt)
    x = z3.Int("x")
    def grid(e, env):
        e.oblige("this grid, radius and neighbourhood", And(eqv(env["rows"], rows), eqv(env["cols"], cols), eqv(env["r"], r), eqv(env["neighbourhood"], kind), eqv(env["boundary"], "periodic")))
        return a
    def build(e, env):
        e.oblige("of the grid's matrix", eqv(e.peek(env["adj"]), m))
        return net.ref
    s.contract(AD + "cellular_automaton2d", grid)
    s.contract(TP + "from_adjacency_matrix", build)
    ordered = s.split(z3.Bool("ordered"))
    if ordered:
        def shifted(e, env):
            v = e.peek(env["nodes"])
            return e.new(B.perm_of(e, SeqV(v.n, v.at, "list", TInt))[0])
        s.contract(TP + "_shift_to_center", shifted)
    res = s.call(TP + "cellular_automaton2d", rows, cols, r, kind, ordered)
    s.ensure("that network", res == net.ref)
    s.ensure("unchanged", eqv(s.v(res).f["_network"], net.m))

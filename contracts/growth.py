"""C27 fungal growth."""
from .common import *

FG = "netomaton.fungal_growth_model:FungalGrowthModel"
NS = "netomaton.state:Network"
I = z3.IntSort()


@unit("C27", "activity_rule")
def absorb(s):
    R = z3.RealSort()
    me, cur = s.int("me"), z3.Const("current", R)
    RE = z3.Const("R_E", R)
    layer = s.fresh(TList(TReal), "layer"); L = s.v(layer)
    labels = s.fresh(TList(TInt), "neighbours"); v = s.v(labels)
    acts = s.fresh(TDict(TInt, TReal), "activities"); a = s.v(acts)
    conn = s.fresh(TDict(TInt, TList(TStruct({"weight": TReal}))), "connections"); c = s.v(conn)
    s.assume(0 <= me, me < L.n, s.forall(lambda k: And(a.has(v.at(k)), c.has(v.at(k)), c.val(v.at(k)).n >= 1), 0, v.n))
    m = s.obj(FG, _R_E=RE, _resource_layer=layer, _verbose=False)
    r = s.method(m, "activity_rule", ctx(s, node_label=me, current_activity=cur, neighbour_labels=labels, activities=acts, connection_states=conn))
    inflow = s.sum(lambda k: c.val(v.at(k)).at(0).d["weight"] * a.val(v.at(k)), v.n)
    r = match_sums(s, r, inflow)
    s.ensure("the weighted inflow, or what it had, and what it absorbs", eqv(r, z3.If(v.n > 0, inflow, cur) + z3.If(cur > 0, RE * L.at(me), z3.RealVal(0))))


@unit("C27", "topology_rule", "any order of the candidate links; the current network keeps the invariant; the random numbers are arbitrary")
def grow(s):
    links = s.fresh(TList(TTuple(TInt, TInt)), "links"); l = s.v(links)
    acts = s.fresh(TDict(TInt, TReal), "activities"); a = s.v(acts)
    E0 = z3.Function("linked", I, I, z3.BoolSort())
    deg, out = z3.Function("degree", I, I), z3.Function("out", I, I)
    nb = z3.Function("lattice neighbour", I, I, I)
    near = lambda i, j: z3.Or(*[nb(i, d) == j for d in range(4)])
    x, y, p, q = z3.Ints("x y p q")
    joined = lambda i, j: z3.Or(E0(i, j), E0(j, i))
    li, lj = lambda k: l.at(k)[0], lambda k: l.at(k)[1]
    same = lambda i, j, x, y: z3.Or(z3.And(i == x, j == y), z3.And(i == y, j == x))
    # candidates: every pair of adjacent cells once; degree: links that join the cell and one of its four neighbours
    s.assume(s.forall(lambda k: And(near(li(k), lj(k)), near(lj(k), li(k)), li(k) != lj(k), a.has(li(k)), a.has(lj(k))), 0, l.n),
             s.forall(lambda k: s.forall(lambda m: z3.Not(same(li(k), lj(k), li(m), lj(m))), k + 1, l.n), 0, l.n),
             z3.ForAll([x, y], z3.Not(z3.And(E0(x, y), E0(y, x))), patterns=[E0(x, y)]),
             z3.ForAll([x], deg(x) == z3.Sum(*[z3.If(joined(x, nb(x, d)), 1, 0) for d in range(4)]), patterns=[deg(x)]))
    old = s.fresh(TList(TTuple(TInt, TInt, TAttr)), "edges"); o = s.v(old)
    s.assume(s.forall(lambda k: E0(o.at(k)[0], o.at(k)[1]), 0, o.n))
    ND = z3.DeclareSort("NetData")
    data = dict(current=z3.Const("data", ND), new=z3.Const("new data", ND))
    cur, new = s.obj(NS, _network=data["current"], _rotation_system=None), s.obj(NS, _network=data["new"], _rotation_system=None)
    added, updates = s.new(cseq([])), s.new(cseq([]))
    seen, reads = [], []
    def is_(e, r, what): e.oblige("asked of the %s network" % what, eqv(e.getattr(r, "_network"), data[what]))
    def copy(e, env): is_(e, env["self"], "current"); return new
    s.contract(NS + ".copy", copy)
    def has_edge(e, env): is_(e, env["self"], "current"); return E0(env["i"], env["j"])
    s.contract(NS + ".has_edge", has_edge)
    def degree(e, env): is_(e, env["self"], "current"); return deg(env["node_label"])
    s.contract(NS + ".degree", degree)
    def add_edge(e, env):
        is_(e, env["self"], "new")
        i, j = env["i"], env["j"]
        e.oblige("a new link joins cells that were not linked", z3.Not(joined(i, j)))
        e.oblige("a new link starts at a cell holding resource", And(a.has(i), a.val(i) > 0))
        e.oblige("a new link joins adjacent cells", near(i, j))
        e.call(e.getattr(added, "append"), [(i, j)], {})
    s.contract(NS + ".add_edge", add_edge)
    def edges(e, env):
        is_(e, env["self"], "new")
        v = e.peek(added)
        at = lambda k: ite(zint(k) < zint(o.n), o.at(k), (v.at(zint(k) - zint(o.n))[0], v.at(zint(k) - zint(o.n))[1], o.at(k)[2]))
        return e.new(SeqV(zint(o.n) + zint(v.n), at, "list"))
    s.contract(NS + ".edges", edges)
    def out_degree(e, env):
        is_(e, env["self"], "new")
        reads.append(e.peek(added).n)
        e.assume(out(env["node_label"]) >= 1)           # it is asked of the start of a link
        return out(env["node_label"])
    s.contract(NS + ".out_degree", out_degree)
    def update_edge(e, env):
        is_(e, env["self"], "new")
        e.oblige("all links between the two cells", env["indices"] is None)
        e.call(e.getattr(updates, "append"), [(env["i"], env["j"], e.peek(env["attr"]).d["weight"])], {})
    s.contract(NS + ".update_edge", update_edge)
    m = s.obj(FG, _d=4, _links=links, _verbose=False, _num_agents=None)
    r = s.method(m, "topology_rule", ctx(s, network=cur, activities=acts, timestep=s.int("t")))
    s.ensure("a copy with the new links", s.eng.identical(r, new))
    A, U = s.v(added), s.v(updates)
    p, q = s.int("p", 0), s.int("q", 0)
    s.assume(p < q, q < zint(A.n))
    s.ensure("two new links never join the same two cells", z3.Not(same(*A.at(p), *A.at(q))))
    for n in reads: s.ensure("outgoing links are counted when all are there", eqv(n, A.n))
    k = s.int("k", 0)
    s.assume(k < zint(o.n) + zint(A.n))
    i, j = ite(k < zint(o.n), o.at(k)[0], A.at(k - zint(o.n))[0]), ite(k < zint(o.n), o.at(k)[1], A.at(k - zint(o.n))[1])
    s.hint("one new weight for each link", zint(U.n) == zint(o.n) + zint(A.n))
    s.hint("the links in their order", And(eqv(U.at(k)[0], i), eqv(U.at(k)[1], j)))
    it = lambda p: And(eqv(U.at(p)[0], i), eqv(U.at(p)[1], j))
    s.ensure("every link has a new weight", z3.Or(zb(And(k < zint(U.n), it(k))), zb(s.exists(it, 0, U.n))))      # a witness, or any
    p = s.int("p2", 0)
    s.assume(p < U.n)
    s.ensure("1 divided by the number of outgoing links", eqv(U.at(p)[2], 1 / z3.ToReal(out(U.at(p)[0]))))

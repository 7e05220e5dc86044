"""C10: the bookkeeping of Network. The representation invariant WF - what the public queries report follows from it - is
established by the constructor and kept by every operation; each operation changes exactly what its contract says."""
from .common import *

NS = "netomaton.state:Network"
LS = LAB.sort()
NODE = TStruct({"in": TInt, "out": TInt, "incoming": TDict(LAB, TList(TAttr)), "outgoing": TList(LAB), "**": TAttr})


class View:
    """the parts of a network's map"""
    def __init__(self, s, m, after=False): self.s, self.m, self.after = s, m, after
    def kn(self, t, *b): return self.s.known(t, *b) if self.after else to_z(t)
    def has(self, x): return zb(self.m.has(x))
    def node(self, x): return self.m.val(x).d
    def inc(self, x): return self.node(x)["incoming"]
    def out(self, x): return self.node(x)["outgoing"]
    def linked(self, x, y): return zb(self.inc(y).has(x))           # an edge x -> y
    def edges(self, x, y): return self.inc(y).val(x)                # its instances, in order
    def mult(self, x, y): return z3.If(self.linked(x, y), zint(self.edges(x, y).n), 0)
    def insum(self, x, k=None):
        """number of edge instances ending in x (those of the first k origins)"""
        i = self.inc(x)
        return self.s.sum(lambda q: self.kn(i.val(i.key(q)).n, q), self.kn(i.n) if k is None else k)
    def count(self, x, y, k=None):
        """how often y is in the outgoing list of x"""
        o = self.out(x)
        return self.s.count(lambda q: self.kn(o.at(q), q) == y, self.kn(o.n) if k is None else k)
    def indeg(self, x): return zint(self.node(x)["in"])
    def outdeg(self, x): return zint(self.node(x)["out"])
    def wf(self, x, y, i):
        """the invariant for the nodes x and y and the position i"""
        return [("links join nodes of the network", z3.Implies(z3.And(self.has(x), self.linked(y, x)), self.has(y))),
                ("a connection has an edge", z3.Implies(z3.And(self.has(x), self.linked(y, x)), zint(self.edges(y, x).n) >= 1)),
                ("the in-degree is the number of edges ending in the node", z3.Implies(self.has(x), self.indeg(x) == self.insum(x))),
                ("the out-degree is the number of outgoing edges", z3.Implies(self.has(x), self.outdeg(x) == zint(self.out(x).n))),
                ("outgoing edges end in nodes of the network", z3.Implies(z3.And(self.has(x), 0 <= i, i < zint(self.out(x).n)), self.has(self.out(x).at(i)))),
                ("each outgoing edge is an incoming edge of its target", z3.Implies(z3.And(self.has(x), self.has(y)), self.count(x, y) == self.mult(x, y)))]


class Net:
    """an arbitrary well-formed network"""
    def __init__(self, s, edge=TAttr):
        self.s = s
        self.d = s.fresh(TDict(LAB, NODE if edge is TAttr else TStruct({"in": TInt, "out": TInt, "incoming": TDict(LAB, TList(edge)), "outgoing": TList(LAB), "**": TAttr})), "net")
        self.ref = s.obj(NS, _network=self.d, _rotation_system=None)
        self.v = View(s, s.v(self.d))
        x, y = z3.Consts("wx wy", LS); i = z3.Int("wi")
        for nm, f in self.v.wf(x, y, i): s.assume(z3.ForAll([x, y, i] if "outgoing edges end" in nm else [x, y] if "in-degree" not in nm and "out-degree" not in nm else [x], f))
    def now(self): return View(self.s, self.s.v(self.ref).f["_network"], True)


def point_update(s, name, f, g, n, p, d):
    """g = f except at p, where it is d more: so is the sum"""
    S, T = (lambda k: s.sum(f, k)), (lambda k: s.sum(g, k))
    s.induct(name, lambda k: T(k) == S(k) + z3.If(zint(p) < zint(k), d, 0), n)


@unit(("C10",), "Network.add_edge")
def add_edge(s):
    net = Net(s); v = net.v; m = v.m
    i, j = z3.Consts("i j", LS)
    a = s.value(TAttr, "attr")
    s.call(s.eng.getattr(net.ref, "add_edge"), i, j, **{"**": a})
    w = net.now()
    x, y = z3.Consts("x y", LS); q = z3.Int("q")
    s.ensure("the endpoints are added, no other node", z3.ForAll([x], w.has(x) == z3.Or(v.has(x), x == i, x == j)))
    edge_added(s, v, w, i, j, a)


def edge_added(s, v, w, i, j, a):
    """w is v with one more edge instance i -> j"""
    m, m2 = v.m, w.m
    x, y = z3.Consts("x y", LS); q = z3.Int("q")
    new = lambda x: z3.Not(v.has(x))
    n = zint(m.n)
    s.ensure("the number of nodes", zint(m2.n) == n + z3.If(new(i), 1, 0) + z3.If(z3.And(new(j), i != j), 1, 0))
    s.ensure("existing nodes keep their places", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), m2.key(q) == m.key(q))))
    s.ensure("new nodes come last, the origin first", And(z3.Implies(new(i), m2.key(n) == i), z3.Implies(z3.And(new(j), i != j), m2.key(n + z3.If(new(i), 1, 0)) == j)))
    E0 = lambda x, y: z3.And(v.has(y), v.linked(x, y))
    for case in range(2):
        if case == 0:
            # the connection itself
            s.ensure("there is a connection", w.linked(i, j))
            e, e0 = w.edges(i, j), v.edges(i, j)
            k = z3.If(E0(i, j), zint(e0.n), 0)
            s.ensure("one more edge", zint(e.n) == k + 1)
            s.ensure("with its attributes", zb(eqv(e.at(k), a)))
            s.ensure("the earlier edges of the connection are kept", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), zb(eqv(e.at(q), e0.at(q))))))
        else:
            other = z3.And(w.has(y), z3.Or(x != i, y != j))
            s.ensure("other connections are kept, no other appears", z3.ForAll([x, y], z3.Implies(other, w.linked(x, y) == E0(x, y))))
            s.ensure("with their edges", z3.ForAll([x, y], z3.Implies(z3.And(other, E0(x, y)), zb(eqv(w.edges(x, y), v.edges(x, y))))))
    s.ensure("node attributes are kept", z3.ForAll([x], z3.Implies(v.has(x), zb(eqv(w.m.val(x).rest or AttrV(core.ATTR_EMPTY), v.m.val(x).rest)))))
    # the sums and counts of the invariant, before and after
    known = lambda x: s.split(v.has(x))
    x, y = z3.Consts("x y", LS)
    for z in (j, x):
        if z is x and not s.split(x != j): continue
        if not known(z): continue
        p = v.inc(z).pos(i)
        s.induct("edges ending in %s" % z, lambda k: w.insum(z, k) == v.insum(z, k) + z3.If(z3.And(z == j, v.linked(i, z), p < zint(k)), 1, 0), v.inc(z).n)
    for z in (i, x):
        if z is x and not s.split(x != i): continue
        if not known(z): continue
        s.induct("edges from %s" % z, lambda k: w.count(z, y, k) == v.count(z, y, k), v.out(z).n)
    wf_after(s, v, w, x, y)


def wf_after(s, v, w, x, y):
    q = z3.Int("q")
    for nm, f in w.wf(x, y, q): s.ensure("after it: %s" % nm, f)


def same_edges(s, v, w, cond=lambda x, y: z3.BoolVal(True)):
    x, y = z3.Consts("x y", LS)
    c = lambda x, y: z3.And(v.has(y), w.has(y), cond(x, y))
    s.ensure("the other connections are kept, no other appears", z3.ForAll([x, y], z3.Implies(c(x, y), w.linked(x, y) == v.linked(x, y))))
    s.ensure("with their edges", z3.ForAll([x, y], z3.Implies(z3.And(c(x, y), v.linked(x, y)), zb(eqv(w.edges(x, y), v.edges(x, y))))))


def sums_kept(s, v, w, x, y, ins=True, outs=True):
    """the sums of the nodes an operation does not touch"""
    if ins: s.induct("edges ending in %s" % x, lambda k: w.insum(x, k) == v.insum(x, k), v.inc(x).n)
    if outs: s.induct("edges from %s" % x, lambda k: w.count(x, y, k) == v.count(x, y, k), v.out(x).n)


@unit(("C10",), "Network.add_node")
def add_node(s):
    net = Net(s); v = net.v; m = v.m
    i = z3.Const("i", LS)
    a = s.value(TAttr, "attr")
    s.call(s.eng.getattr(net.ref, "add_node"), i, **{"**": a})
    w = net.now(); m2 = w.m
    x, y = z3.Consts("x y", LS); q = z3.Int("q")
    s.ensure("the node is there, no other is added", z3.ForAll([x], w.has(x) == z3.Or(v.has(x), x == i)))
    s.ensure("one node more if it is new", zint(m2.n) == zint(m.n) + z3.If(v.has(i), 0, 1))
    s.ensure("existing nodes keep their places", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(m.n)), m2.key(q) == m.key(q))))
    same_edges(s, v, w)
    s.ensure("a new node has no edges", Or(v.has(i), zint(length(w.inc(i))) == 0))
    s.ensure("the attributes of the other nodes are kept", z3.ForAll([x], z3.Implies(z3.And(v.has(x), x != i), zb(eqv(m2.val(x).rest or AttrV(core.ATTR_EMPTY), m.val(x).rest)))))
    upd = SUMS and __import__("dv.builtins", fromlist=["x"]).ATTR_UPD
    s.ensure("the node has the given attributes, and keeps those not given", m2.val(i).rest.t == upd(z3.If(v.has(i), m.val(i).rest.t, core.ATTR_EMPTY), a.t))
    if s.split(v.has(x)): sums_kept(s, v, w, x, y)
    wf_after(s, v, w, x, y)


@unit(("C10",), "Network, new")
def new_net(s):
    n = s.int("n", 0)
    r = s.construct(NS, n)
    w = View(s, s.v(r).f["_network"])
    m = w.m
    if core._nomap(m): s.ensure("no nodes", n == 0); return
    x, y = z3.Ints("x y"); q = z3.Int("q")
    s.ensure("the nodes 0 to n - 1", z3.ForAll([x], w.has(x) == z3.And(0 <= x, x < n)))
    s.ensure("in order", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), m.key(q) == q)))
    s.assume(0 <= x, x < n)
    nd = w.node(x)
    s.ensure("without edges", And(eqv(nd["in"], 0), eqv(nd["out"], 0), eqv(length(nd["incoming"]), 0), eqv(length(nd["outgoing"]), 0)))
    s.ensure("no rotation system", s.v(r).f["_rotation_system"] is None)


@unit(("C10",), "Network.remove_edge")
def remove_edge(s):
    net = Net(s); v = net.v; m = v.m
    i, j = z3.Consts("i j", LS)
    s.assume(v.has(j), v.linked(i, j))
    s.call(s.eng.getattr(net.ref, "remove_edge"), i, j)
    w = net.now(); m2 = w.m
    x, y = z3.Consts("x y", LS); q = z3.Int("q")
    s.ensure("the nodes are kept", And(eqv(m2.n, m.n), z3.ForAll([x], w.has(x) == v.has(x))))
    s.ensure("in order", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(m.n)), m2.key(q) == m.key(q))))
    s.ensure("the connection is gone", z3.Not(w.linked(i, j)))
    same_edges(s, v, w, lambda x, y: z3.Or(x != i, y != j))
    s.ensure("node attributes are kept", z3.ForAll([x], z3.Implies(v.has(x), zb(eqv(m2.val(x).rest, m.val(x).rest)))))
    s.assume(v.has(x))
    s.split(i == j)
    for z in (j, x):
        if z is x and not s.split(x != j): continue
        if z is x: sums_kept(s, v, w, x, y, outs=False); continue
        p = v.inc(j).pos(i)
        s.induct("edges ending in j, up to the connection", lambda k: z3.Implies(zint(k) <= p, w.insum(j, k) == v.insum(j, k)), v.inc(j).n)
        s.induct("edges ending in j, after the connection", lambda k: z3.Implies(zint(k) > p, w.insum(j, zint(k) - 1) == v.insum(j, k) - zint(v.edges(i, j).n)), v.inc(j).n)
    for z in (i, x):
        if z is x and not s.split(x != i): continue
        if z is x: sums_kept(s, v, w, x, y, ins=False); continue
        s.induct("edges from i to other nodes", lambda k: s.count(lambda q: z3.And(v.out(i).at(q) != j, v.out(i).at(q) == y), k) == z3.If(y == j, 0, v.count(i, y, k)), v.out(i).n)
        s.induct("edges that are kept", lambda k: s.count(lambda q: v.out(i).at(q) != j, k) == zint(k) - v.count(i, j, k), v.out(i).n)
        s.lemma("edges from i that are left", zint(w.out(i).n) == zint(v.out(i).n) - v.count(i, j))
        s.lemma("edges from i to y that are left", w.count(i, y) == z3.If(y == j, 0, v.count(i, y)))
    wf_after(s, v, w, x, y)


# ---------------------------------------------------------------- removing a node
def left_out(s, o, r, j, y):
    """r is the list o without the elements j, as far as the counts tell"""
    c = lambda l, z: zint(s.count(lambda q: l.at(q) == z, l.n))
    return [zint(r.n) == zint(o.n) - c(o, j), c(r, y) == z3.If(y == j, 0, c(o, y))]


@unit(("C10",), "Network._remove_outgoing")
def remove_outgoing(s):
    net = Net(s); v = net.v; m = v.m
    i, j, x, y = z3.Consts("i j x y", LS); q = z3.Int("q")
    s.assume(v.has(i))
    s.call(s.eng.getattr(net.ref, "_remove_outgoing"), i, j)
    w = net.now(); m2 = w.m
    o, r = v.out(i), w.out(i)
    s.induct("the others", lambda k: s.count(lambda q: z3.And(o.at(q) != j, o.at(q) == y), k) == z3.If(y == j, 0, s.count(lambda q: o.at(q) == y, k)), o.n)
    s.induct("those that are kept", lambda k: s.count(lambda q: o.at(q) != j, k) == zint(k) - s.count(lambda q: o.at(q) == j, k), o.n)
    for k, f in enumerate(left_out(s, o, r, j, y)): s.ensure("the outgoing edges without those to the node (%d)" % k, f)
    s.assume(0 <= q, q < zint(r.n))
    s.ensure("no edge to the node is left", r.at(q) != j)
    k = z3.Int("k")
    s.ensure("the edges left were there", z3.Exists([k], z3.And(0 <= k, k < zint(o.n), o.at(k) == r.at(q))))
    unchanged(s, v, w, lambda x: x == i, ("outgoing",))


@unit(("C10",), "Network._remove_incoming")
def remove_incoming(s):
    net = Net(s); v = net.v; m = v.m
    i, j, x, y, z = z3.Consts("i j x y z", LS); q = z3.Int("q")
    s.assume(v.has(j))
    s.call(s.eng.getattr(net.ref, "_remove_incoming"), i, j)
    w = net.now()
    o, r = v.inc(j), w.inc(j)
    for nm, f in without(s, v, w.insum(j), o, r, i, j, prove=w): s.ensure(nm, f)
    unchanged(s, v, w, lambda x: x == j, ("incoming",))


def without(s, v, total, o, r, i, j, prove=None):
    """r is the incoming map o of j without i"""
    y, z = z3.Consts("fy fz", LS)
    had = zb(o.has(i))
    if prove is not None and s.split(had):
        p = o.pos(i)
        S0, S1 = lambda k: v.insum(j, k), lambda k: prove.insum(j, k)
        s.induct("edges ending in the node, up to the connection", lambda k: z3.Implies(zint(k) <= p, S1(k) == S0(k)), o.n)
        s.induct("edges ending in the node, after the connection", lambda k: z3.Implies(zint(k) > p, S1(zint(k) - 1) == S0(k) - zint(o.val(i).n)), o.n)
    return [("the other connections are left, and only they", z3.ForAll([y], zb(r.has(y)) == z3.And(zb(o.has(y)), y != i))),
            ("with their edges", z3.ForAll([y], z3.Implies(z3.And(zb(o.has(y)), y != i), zb(eqv(r.val(y), o.val(y)))))),
            ("in the same order", z3.ForAll([y, z], z3.Implies(z3.And(zb(o.has(y)), y != i, zb(o.has(z)), z != i, o.pos(y) < o.pos(z)), r.pos(y) < r.pos(z)))),
            ("one less, if it was there", zint(r.n) == zint(o.n) - z3.If(had, 1, 0)),
            ("fewer edges end in the node", total == v.insum(j) - z3.If(had, zint(o.val(i).n), 0))]


def unchanged(s, v, w, at, but):
    """everything else in the network is as before"""
    x = z3.Const("fx", LS); q = z3.Int("fq")
    m, m2 = v.m, w.m
    s.ensure("the nodes stay, in order", And(eqv(m2.n, m.n), z3.ForAll([x], z3.And(w.has(x) == v.has(x), m2.pos(x) == m.pos(x))), z3.ForAll([q], m2.key(q) == m.key(q))))
    for f in ("in", "out", "incoming", "outgoing", "**"):
        get = (lambda u, x: u.m.val(x).rest) if f == "**" else lambda u, x: u.node(x)[f]
        s.ensure("%s of %s is not touched" % ({"**": "the attributes"}.get(f, f), "the other nodes" if f in but else "any node"),
                 z3.ForAll([x], z3.Implies(z3.And(v.has(x), z3.Not(at(x)) if f in but else z3.BoolVal(True)), zb(same_value(get(w, x), get(v, x))))))


def same_value(a, b):
    """equal, and in the same order"""
    e = eqv(a, b)
    if isinstance(a, MapV):
        q = fresh_int("fo")
        return And(e, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(a.n)), zb(eqv(a.key(q), b.key(q))))))
    return e


RN = {}


def frame_of_removal(w, v, but):
    x = z3.Const("fx", LS); q = z3.Int("fq")
    m, m2 = v.m, w.m
    r = [("the nodes stay, in order", And(eqv(m2.n, m.n), z3.ForAll([x], z3.And(w.has(x) == v.has(x), m2.pos(x) == m.pos(x))), z3.ForAll([q], m2.key(q) == m.key(q))))]
    for f in ("in", "out", "incoming", "outgoing", "**"):
        if f in but: continue
        get = (lambda u, x: u.m.val(x).rest) if f == "**" else lambda u, x: u.node(x)[f]
        r.append(("%s of every node" % {"**": "the attributes"}.get(f, f), z3.ForAll([x], z3.Implies(v.has(x), zb(same_value(get(w, x), get(v, x)))))))
    return r


@invariant(NS + ".remove_node", [], force=True)
def rn_inv(E):
    D, k, s = RN, E.k, RN["s"]
    v, N, X, Y = D["v"], D["N"], D["X"], D["Y"]
    w = View(s, s.v(D["net"].ref).f["_network"], True)
    q = z3.Int("iq")
    if isinstance(E.at(fresh_int("pr")), tuple):
        inc = v.inc(N)
        r = frame_of_removal(w, v, ("out", "outgoing"))
        for z in (X, N):
            done = z3.And(zb(inc.has(z)), inc.pos(z) < zint(k))
            o = w.out(z)
            r.append(("out-degree of a node", z3.Implies(v.has(z), w.outdeg(z) == v.outdeg(z) - z3.If(done, zint(inc.val(z).n), 0))))
            r.append(("length of its outgoing edges", z3.Implies(v.has(z), zint(o.n) == w.outdeg(z))))
            for y in (X, Y): r.append(("its outgoing edges to another node", z3.Implies(v.has(z), w.count(z, y) == v.count(z, y))))
            r.append(("its outgoing edges to the node removed", z3.Implies(v.has(z), w.count(z, N) == z3.If(done, 0, v.count(z, N)))))
            r.append(("they end in nodes of the network", z3.ForAll([q], z3.Implies(z3.And(v.has(z), 0 <= q, q < zint(o.n)), v.has(o.at(q))))))
        D["mid"] = w
        return r
    v1 = D["mid"]
    l = D.setdefault("targets", v1.out(N))
    P = lambda z: zint(s.count(lambda q: l.at(q) == z, k))
    r = frame_of_removal(w, v1, ("in", "incoming"))
    for z in (X, Y):
        o, i = v.inc(z), w.inc(z)
        gone = z3.And(P(z) > 0, zb(o.has(N)))
        y, y2 = z3.Consts("iy iz", LS)
        r.append(("in-degree of a node", z3.Implies(v.has(z), w.indeg(z) == v.indeg(z) - P(z))))
        r.append(("its incoming connections", z3.ForAll([y], z3.Implies(v.has(z), zb(i.has(y)) == z3.And(zb(o.has(y)), z3.Or(y != N, z3.Not(gone)))))))
        r.append(("their edges", z3.ForAll([y], z3.Implies(z3.And(v.has(z), zb(i.has(y))), zb(eqv(i.val(y), o.val(y)))))))
        r.append(("their order", z3.ForAll([y, y2], z3.Implies(z3.And(v.has(z), zb(i.has(y)), zb(i.has(y2)), o.pos(y) < o.pos(y2)), i.pos(y) < i.pos(y2)))))
        r.append(("the edges ending in it", z3.Implies(v.has(z), w.insum(z) == v.insum(z) - z3.If(gone, zint(o.val(N).n), 0))))
    return r


@unit(("C10", "C07"), "Network.remove_node", budget=40, timeout=500)
def remove_node(s):
    eng = s.eng
    net = Net(s); v = net.v; m = v.m
    N, X, Y = z3.Consts("N X Y", LS)
    s.assume(v.has(N), v.has(X), v.has(Y), X != N, Y != N)
    same = s.split(X == Y)
    RN.clear(); RN.update(s=s, v=v, N=N, X=X, Y=Y, net=net)
    for x, y in ((X, Y), (X, N), (N, Y), (N, X), (N, N), (Y, N)):
        for nm, f in v.wf(x, y, z3.Int("wi")):
            if "each outgoing" in nm or "in-degree" in nm: s.use(f)
    cell = lambda e, env, z: e.getitem(e.getattr(env["self"], "_network"), z)
    def ro(e, env):
        i, j = env["i"], env["j"]
        e.oblige("the node is there", View(s, e.get(e.getattr(env["self"], "_network"))).has(i))
        nd = cell(e, env, i)
        o = e.get(nd).d["outgoing"]
        r = s.value(TList(LAB), core.NAMES("kept"))
        src = z3.Function(core.NAMES("src"), z3.IntSort(), z3.IntSort())
        q = z3.Int("cq")
        for y in (X, Y, N):
            for f in left_out(s, o, r, j, y): e.assume(f)
        e.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(r.n)), z3.And(r.at(q) != j, 0 <= src(q), src(q) < zint(o.n), o.at(src(q)) == r.at(q)))))
        e.setitem(nd, "outgoing", e.new(r))
        for z in (X, N): e.branch(i == z)
    def ri(e, env):
        i, j = env["i"], env["j"]
        e.oblige("the node is there", View(s, e.get(e.getattr(env["self"], "_network"))).has(j))
        before = View(s, e.get(e.getattr(env["self"], "_network")), True)
        nd = cell(e, env, j)
        o = e.get(nd).d["incoming"]
        r = s.value(TDict(LAB, TList(TAttr)), core.NAMES("rest"))
        tot = s.sum(lambda q: zint(r.val(r.key(q)).n), r.n)
        for z in (X, Y): e.branch(j == z)
        for nm, f in without(s, before, tot, o, r, i, j): e.assume(f)
        e.setitem(nd, "incoming", e.new(r))
    s.contract(NS + "._remove_outgoing", ro)
    s.contract(NS + "._remove_incoming", ri)
    s.call(eng.getattr(net.ref, "remove_node"), N)
    w = net.now(); m2 = w.m
    x, y = z3.Consts("x y", LS); q = z3.Int("q")
    s.ensure("the node is gone, the others stay", z3.ForAll([x], w.has(x) == z3.And(v.has(x), x != N)))
    s.ensure("one node less", zint(m2.n) == zint(m.n) - 1)
    place = lambda z: m2.pos(z) == m.pos(z) - z3.If(m.pos(N) < m.pos(z), 1, 0)
    s.derive("in the same order", [place(X), place(Y), m.pos(X) != m.pos(N)], z3.Implies(m.pos(X) < m.pos(Y), m2.pos(X) < m2.pos(Y)))
    s.ensure("the attributes of the others are kept", zb(eqv(m2.val(X).rest, m.val(X).rest)))
    s.ensure("the connections among the others are kept, no other appears", w.linked(X, Y) == v.linked(X, Y))
    s.ensure("with their edges", z3.Implies(v.linked(X, Y), zb(eqv(w.edges(X, Y), v.edges(X, Y)))))
    s.ensure("the links in are in the same order", z3.ForAll([x, y], z3.Implies(z3.And(w.linked(x, X), w.linked(y, X), v.inc(X).pos(x) < v.inc(X).pos(y)), w.inc(X).pos(x) < w.inc(X).pos(y))))
    wf_after(s, v, w, X, Y)


@unit(("C10",), "Network.add_edge_bidir")
def add_edge_bidir(s):
    net = Net(s); v = net.v
    i, j = z3.Consts("i j", LS)
    a = s.value(TAttr, "attr")
    calls = []
    def ae(e, env):
        calls.append((env["i"], env["j"], e.get(env["attr"])))
        e.oblige("on this network", B_same(e, env["self"], net.ref))
    s.contract(NS + ".add_edge", ae)
    s.call(s.eng.getattr(net.ref, "add_edge_bidir"), i, j, **{"**": a})
    s.ensure("two edges are added", len(calls) == 2)
    s.ensure("from i to j and from j to i", And(eqv(calls[0][0], i), eqv(calls[0][1], j), eqv(calls[1][0], j), eqv(calls[1][1], i)))
    s.ensure("with the attributes", And(*[eqv(c[2], a) for c in calls]))


def B_same(e, a, b): return a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a == b)


UE = {}


@invariant(NS + ".update_edge", [], force=True)
def ue_inv(E):
    from dv.loops import InvSkip
    D = UE
    if not D: raise InvSkip()
    s, v, i, j, k, a, iv = D["s"], D["v"], D["i"], D["j"], E.k, D["a"], D["iv"]
    w = View(s, s.v(D["net"].ref).f["_network"], True)
    x, y = z3.Consts("fx fy", LS); q, p = z3.Ints("iq ip")
    e, e0 = w.edges(i, j), v.edges(i, j)
    r = frame_of_removal(w, v, ("incoming",))
    r += [("the links are the same", z3.ForAll([x, y], z3.Implies(v.has(x), w.linked(y, x) == v.linked(y, x)))),
          ("in the same places", z3.ForAll([x, q], z3.Implies(v.has(x), z3.And(w.inc(x).key(q) == v.inc(x).key(q), zint(w.inc(x).n) == zint(v.inc(x).n))))),
          ("other connections are kept", z3.ForAll([x, y], z3.Implies(z3.And(v.has(x), v.linked(y, x), z3.Or(x != j, y != i)), zb(eqv(w.edges(y, x), v.edges(y, x)))))),
          ("as many edges", eqv(e.n, e0.n))]
    for P in D["P"]:
        named = P < zint(k) if iv is None else z3.Exists([q], z3.And(0 <= q, q < zint(k), iv.at(q) == P))
        r.append(("the edge at a place", zb(e.at(P).t == z3.If(named, D["upd"](e0.at(P).t, a.t), e0.at(P).t))))
    return r


@unit(("C10",), "Network.update_edge")
def update_edge(s):
    net = Net(s); v = net.v; m = v.m
    i, j, x = z3.Consts("i j x", LS); q = z3.Int("q")
    a = s.value(TAttr, "attr")
    some = s.split(z3.Bool("indices are given"))
    idx = s.fresh(TList(TInt), "indices") if some else None
    there = And(v.has(j), v.linked(i, j))
    e0 = v.edges(i, j)
    if some: iv = s.v(idx); s.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv.n, v.has(j), v.linked(i, j)), z3.And(0 <= iv.at(q), iv.at(q) < zint(e0.n)))))
    upd = __import__("dv.builtins", fromlist=["x"]).ATTR_UPD
    p = s.int("p", 0); s.assume(p < zint(e0.n))
    UE.clear(); UE.update(s=s, v=v, net=net, i=i, j=j, a=a, iv=iv if some else None, P=[p], upd=upd)
    A = z3.Const("ua", core.ATTR_EMPTY.sort()); s.assume(z3.ForAll([A], upd(upd(A, a.t), a.t) == upd(A, a.t)))      # dict.update
    o = s.outcome(lambda: s.call(s.eng.getattr(net.ref, "update_edge"), i, j, indices=idx, **{"**": a}))
    s.ensure("an error exactly if there is no such edge", eqv(o[0] == "exc", Not(there)))
    if o[0] == "exc": return
    w = net.now()
    e = w.edges(i, j)
    s.ensure("as many edges", eqv(e.n, e0.n))
    if some:
        k = z3.Int("k")
        named = z3.Exists([k], z3.And(0 <= k, k < iv.n, iv.at(k) == p))
        s.ensure("the edges not named are kept", z3.Implies(z3.Not(named), e.at(p).t == e0.at(p).t))
        s.ensure("the edges named have the given attributes, and keep the others", z3.Implies(named, e.at(p).t == upd(e0.at(p).t, a.t)))
    else: s.ensure("every edge has the given attributes, and keeps the others", e.at(p).t == upd(e0.at(p).t, a.t))
    same_edges(s, v, w, lambda x, y: z3.Or(x != i, y != j))
    unchanged(s, v, w, lambda x: x == j, ("incoming",))


@unit(("C10",), "Network queries")
def queries(s):
    net = Net(s); v = net.v; m = v.m
    i, j = z3.Consts("i j", LS); q = z3.Int("q")
    g = lambda nm, *a: s.v(s.call(s.eng.getattr(net.ref, nm), *a))
    s.ensure("has_edge", zb(g("has_edge", i, j)) == z3.And(v.has(j), v.linked(i, j)))
    s.ensure("len", eqv(s.v(s.eng.call(s.eng.builtin("len"), [net.ref], {})), m.n) if hasattr(s.eng, "builtin") else True)
    s.assume(v.has(j))
    s.ensure("degree", eqv(g("degree", j), v.indeg(j) + v.outdeg(j)))
    s.ensure("in_degree", eqv(g("in_degree", j), v.indeg(j)))
    s.ensure("out_degree", eqv(g("out_degree", j), v.outdeg(j)))
    s.ensure("in_edges", same_value(g("in_edges", j), v.inc(j)))
    s.assume(v.linked(i, j))
    s.ensure("edge", eqv(g("edge", i, j), v.edges(i, j)))
    s.ensure("nothing is modified", eqv(s.v(net.ref).f["_network"], m))


def edge_offset(s, v, x, k):
    """how many edges are listed before those ending in x from its k-th origin on"""
    m = v.m
    return zint(s.sum(lambda q: v.insum(m.key(q)), m.pos(x))) + zint(v.insum(x, k))


@unit(("C10", "C11"), "Network.edges")
def edges(s):
    net = Net(s); v = net.v; m = v.m
    r = s.eng.getattr(net.ref, "edges")
    r = s.v(r.seq if hasattr(r, "seq") else r)
    s.ensure("every edge once", zint(r.n) == zint(s.sum(lambda q: v.insum(m.key(q)), m.n)))
    i, j = z3.Consts("i j", LS); q = s.int("q", 0)
    s.assume(v.has(j), v.linked(i, j), q < zint(v.edges(i, j).n))
    pi = v.inc(j).pos(i)
    p = z3.simplify(edge_offset(s, v, j, pi) + q)
    # the two concatenations: the edges of a connection, and the connections of a node
    row, = {x.get_id(): x for x in s.rows_of(to_z(r.at(p)[1]), p)}.values()
    s.place(row, m.pos(j), zint(v.insum(j, pi)) + q)
    inner = [x for x in core.subterms(to_z(r.at(p)[0])) if z3.is_app(x) and x.decl().name().startswith("row!h") and not x.decl().eq(row.decl())]
    J = m.key(m.pos(j))
    s.lemma('the node at its place', J == j)
    s.place(inner[0], pi, q, J, v.inc(J).n)
    s.lemma("the place among the edges ending in the node", And(zint(v.insum(j, pi)) + q < zint(v.insum(j)), zint(v.insum(j, pi)) + q >= 0))
    s.lemma("the target", row == m.pos(j))
    s.ensure("the place of an edge is in the listing", z3.And(0 <= p, p < zint(r.n)))
    s.ensure("grouped by target, then origin, in order", eqv(r.at(p), (i, j, v.edges(i, j).at(q))))
    k = s.int("k", 0); s.assume(k < zint(r.n))
    a, b, e = r.at(k)
    s.ensure("only edges of the network", z3.And(v.has(b), v.linked(a, b)))
    s.ensure("the network is not modified", eqv(s.v(net.ref).f["_network"], m))


# ---------------------------------------------------------------- conversions
TM = {}
AKEY = TSort("AttrKey")


@invariant(NS + ".to_adjacency_matrix", [], force=True)
def tm_inv(E):
    from dv.loops import InvSkip
    D = TM
    M = E.v("M") if D else None
    if not D or not isinstance(D["s"].v(M), SeqV): raise InvSkip()
    s, v, k = D["s"], D["v"], E.k
    M = s.v(M)
    q = z3.Int("iq")
    n = zint(v.m.n)
    cell = M.at(D["X"]).at(D["Y"])
    r = [("the matrix is square", z3.And(zint(M.n) == n, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), zint(M.at(q).n) == n))))]
    if D["sum"]: r.append(("an entry is the sum of the weights so far", to_z(cell) == D["S"](k)))
    else:
        p = z3.Int("ip")
        r.append(("no edge so far, no entry", z3.Implies(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(k)), z3.Not(D["match"](q)))), to_z(cell) == 0)))
        r.append(("an entry is the last weight so far", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < zint(k), D["match"](p), z3.ForAll([q], z3.Implies(z3.And(p < q, q < zint(k)), z3.Not(D["match"](q))))), to_z(cell) == D["w"](p)))))
    return r


def to_matrix(s, summed, given):
    net = Net(s, TDict(AKEY, TReal)); v = net.v; m = v.m
    E = s.value(TList(TTuple(LAB, LAB, TDict(AKEY, TReal))), "E")
    q = z3.Int("q")
    # the contract of Network.edges
    s.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(E.n)), z3.And(v.has(E.at(q)[0]), v.has(E.at(q)[1])))))
    s.contract(NS + ".edges", lambda e, env: E)
    wk = z3.Const("weightkey", AKEY.sort())
    n = zint(m.n)
    X, Y = s.int("X", 0), s.int("Y", 0); s.assume(X < n, Y < n)
    if given:
        nl = s.fresh(TList(LAB), "nodelist"); l = s.v(nl)
        p = z3.Int("np")
        s.assume(zint(l.n) == n, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), v.has(l.at(q)))))
        s.assume(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < n), l.at(q) != l.at(p))))
        at = z3.Function("place_in_nodelist", LS, z3.IntSort()); x = z3.Const("x", LS)
        s.assume(z3.ForAll([x], z3.Implies(v.has(x), z3.And(0 <= at(x), at(x) < n, l.at(at(x)) == x))))     # n distinct nodes in n places: all of them
    else: nl, l = None, SeqV(m.n, m.key, "list", LAB)
    match = lambda k: z3.And(E.at(k)[0] == l.at(X), E.at(k)[1] == l.at(Y))
    w = lambda k: z3.If(zb(E.at(k)[2].has(wk)), E.at(k)[2].val(wk), z3.RealVal(1))
    S = lambda k: s.sum(lambda i: z3.If(match(i), w(i), z3.RealVal(0)), k)
    TM.clear(); TM.update(s=s, v=v, X=X, Y=Y, sum=summed, S=S, match=match, w=w)
    kw = {} if summed is None else {"sum_multiedges": summed}
    r = s.v(s.call(s.eng.getattr(net.ref, "to_adjacency_matrix"), nodelist=nl, sum_multiedges=summed, weight=wk))
    s.ensure("a row and a column for each node", z3.And(zint(r.n) == n, zint(r.at(X).n) == n))
    cell = to_z(r.at(X).at(Y))
    if summed: s.ensure("an entry is the sum of the weights of the edges of the connection", cell == S(E.n))
    else:
        p = s.int("p", 0)
        s.ensure("no edge, no entry", z3.Implies(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(E.n)), z3.Not(match(q)))), cell == 0))
        s.ensure("an entry is the weight of the last edge of the connection", z3.Implies(z3.And(p < zint(E.n), match(p), z3.ForAll([q], z3.Implies(z3.And(p < q, q < zint(E.n)), z3.Not(match(q))))), cell == w(p)))
    s.ensure("the network is not modified", eqv(s.v(net.ref).f["_network"], m))


@unit(("C11",), "to_adjacency_matrix")
def to_matrix_sum(s): to_matrix(s, True, False)


@unit(("C11",), "to_adjacency_matrix, in the order of a node list")
def to_matrix_list(s): to_matrix(s, True, True)


@unit(("C11",), "to_adjacency_matrix, multi-edges not summed")
def to_matrix_last(s): to_matrix(s, False, s.split(z3.Bool("a node list is given")))

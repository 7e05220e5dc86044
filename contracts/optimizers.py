"""C30 Hopfield-Tank nets for the travelling salesman problem."""
from .common import *
from dv.builtins import SQRTF

TANH = z3.Function("tanh", z3.RealSort(), z3.RealSort())

HT = "netomaton.hopfield_tank_tsp_net:HopfieldTankTSPNet"
PT = TTuple(TReal, TReal)


def first_row(s, term):
    rs = [r for x in (term if isinstance(term, tuple) else [term]) if is_z(x) for r in s.rows_of(x, z3.Int("p"))]
    if not rs: raise Unsupported("no concatenation")
    return rs[0]


def tsp(s, **f):
    n = s.int("n", 2)
    pts = s.fresh(TList(PT), "points"); pv = s.v(pts)
    s.assume(pv.n == n)
    base = dict(_points=pts, _dt=None, _A=None, _B=None, _C=None, _D=None, _u_0=None, _n=None, _distances_map=None, _node_label_map=None, _coordinate_map=None, _adjacency_matrix=None)
    base.update(f)
    return n, pts, pv, s.obj(HT, **base)


@unit("C30", "get_distances")
def dists(s):
    n, pts, pv, h = tsp(s)
    d = s.v(s.method(h, "get_distances"))
    x, y = s.int("x", 0), s.int("y")
    s.assume(x < y, y < n)
    inv = s.place(first_row(s, d.at(z3.Int("p"))), x, y - x - 1)
    dist = lambda a, b: SQRTF((pv.at(b)[0] - pv.at(a)[0]) * (pv.at(b)[0] - pv.at(a)[0]) + (pv.at(b)[1] - pv.at(a)[1]) * (pv.at(b)[1] - pv.at(a)[1]))
    s.ensure("every pair i < j is listed", And(0 <= inv, inv < d.n, eqv(d.at(inv), (x, y, dist(x, y)))))
    q = s.int("q", 0)
    s.assume(q < d.n)
    a, b, e = d.at(q)
    s.ensure("nothing else is listed: i < j, with the Euclidean distance", And(0 <= a, a < b, b < n, eqv(e, dist(a, b))))
    s.ensure("once", z3.Implies(And(eqv(a, x), eqv(b, y)), q == inv))


@unit("C30", "_get_node_label_map")
def labelmap(s):
    n, pts, pv, h = tsp(s)
    m = s.v(s.method(h, "_get_node_label_map", pts))
    r, c = s.int("r", 0), s.int("c", 0)
    s.assume(r < n, c < n)
    s.ensure("n^2 labels", eqv(m.n, n * n))
    s.ensure("every label is there", m.has(r * n + c))
    s.ensure("row by row", eqv(m.val(r * n + c), (r, c)))


@unit("C30", "_get_coordinate_map", "any map of labels to places that gives every label a place of its own")
def coordmap(s):
    n, pts, pv, h = tsp(s)
    m = s.fresh(TDict(TInt, TTuple(TInt, TInt)), "labels"); mv = s.v(m)
    a, b, x = s.int("a"), s.int("b"), s.int("x")
    inv = z3.Function("inv", z3.IntSort(), z3.IntSort(), z3.IntSort())
    y = z3.Int("y")
    s.assume(z3.ForAll([y], z3.Implies(mv.has(y), inv(*mv.val(y)) == y), patterns=[mv.has(y)]))
    r = s.v(s.method(h, "_get_coordinate_map", m))
    s.assume(mv.has(x))
    s.ensure("every place has its label", And(r.has(mv.val(x)), eqv(r.val(mv.val(x)), x)))
    s.ensure("no other places", z3.Implies(zb(r.has((a, b))), And(mv.has(r.val((a, b))), eqv(mv.val(r.val((a, b))), (a, b)))))


TRI = TTuple(TInt, TInt, TReal)


def pairs(s, n):
    """the contract of get_distances: every pair i < j < n once, with a distance"""
    D = z3.Function("dist", z3.IntSort(), z3.IntSort(), z3.RealSort())
    l = s.fresh(TList(TRI), "distances"); v = s.v(l)
    at = z3.Function("place", z3.IntSort(), z3.IntSort(), z3.IntSort())
    x, y = z3.Ints("px py")
    s.assume(s.forall(lambda k: z3.And(0 <= v.at(k)[0], v.at(k)[0] < v.at(k)[1], v.at(k)[1] < n, at(v.at(k)[0], v.at(k)[1]) == k, v.at(k)[2] == D(v.at(k)[0], v.at(k)[1])), 0, v.n))
    s.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), z3.And(0 <= at(x, y), at(x, y) < v.n, zb(eqv(v.at(at(x, y)), (x, y, D(x, y)))))), patterns=[at(x, y)]))
    return l, v, at, D


@unit("C30", "_get_distances_map", "get_distances by its contract")
def distmap(s):
    n, pts, pv, h = tsp(s)
    l, v, at, D = pairs(s, n)
    m = s.v(s.method(h, "_get_distances_map", l))
    x, y = s.int("x", 0), s.int("y", 0)
    s.assume(x < n, y < n)
    lo, hi = z3.If(x < y, x, y), z3.If(x < y, y, x)
    for a, b in ((lo, hi), (z3.IntVal(0), x), (x, n - 1)): s.use(at(a, b) == at(a, b), z3.Implies(z3.And(0 <= a, a < b, b < n), z3.And(0 <= at(a, b), at(a, b) < v.n)))
    s.ensure("every pair of points has a distance", m.has((x, y)))
    s.ensure("symmetric, with zero diagonal", eqv(m.val((x, y)), z3.If(x == y, z3.RealVal(0), D(lo, hi))))
    s.ensure("and no other", z3.Implies(zb(m.has((s.int("a"), s.int("b")))), z3.And(0 <= z3.Int("a"), z3.Int("a") < n, 0 <= z3.Int("b"), z3.Int("b") < n)))


def listed(s, name="labels"):
    """labels, each once, with their places in the list"""
    l = s.fresh(TList(TInt), name); v = s.v(l)
    at = z3.Function("place." + name, z3.IntSort(), z3.IntSort())
    s.assume(s.forall(lambda k: at(v.at(k)) == k, 0, v.n))
    return l, v, at


@unit("C30", "_get_opposite_neighbour_activity")
def opposite(s):
    n, pts, pv, h = tsp(s)
    l, v, at = listed(s)
    a = s.fresh(TList(TReal), "activities"); av = s.v(a)
    s.assume(av.n == v.n)
    x = s.int("x")
    here = z3.And(0 <= at(x), at(x) < v.n, v.at(at(x)) == x)
    o = s.outcome(lambda: s.method(h, "_get_opposite_neighbour_activity", a, l, x))
    if o[0] == "exc": s.ensure("an exception only if it is no neighbour", Not(here)); return
    s.ensure("an exception if it is no neighbour", here)
    s.ensure("the activity of the neighbour with that label", eqv(o[1], av.at(at(x))))


@unit("C30", "activity_rule", "any n, hyperparameters and activities; the neighbours are all nodes")
def tsprule(s):
    R = z3.RealSort()
    par = {k: z3.Const(k, R) for k in ("_dt", "_A", "_B", "_C", "_D", "_u_0", "_n")}
    I = z3.IntSort()
    dm = s.fresh(TDict(TTuple(TInt, TInt), TReal), "dist"); d = s.v(dm)
    lm = s.fresh(TDict(TInt, TTuple(TInt, TInt)), "place"); L = s.v(lm)
    cm = s.fresh(TDict(TTuple(TInt, TInt), TInt), "label"); C = s.v(cm)
    n, pts, pv, h = tsp(s, _distances_map=dm, _node_label_map=lm, _coordinate_map=cm, **par)
    s.assume(par["_u_0"] != 0)
    labels, v, at = listed(s)
    acts = s.fresh(TList(TReal), "activities"); a = s.v(acts)
    x, y = z3.Ints("x y")
    s.assume(a.n == v.n,
             z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < n), z3.And(zb(d.has((x, y))), zb(C.has((x, y))), 0 <= at(C.val((x, y))), at(C.val((x, y))) < v.n, v.at(at(C.val((x, y)))) == C.val((x, y)))), patterns=[zb(C.has((x, y)))]),
             z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < n), zb(d.has((x, y)))), patterns=[zb(d.has((x, y)))]),
             s.forall(lambda k: And(L.has(v.at(k)), 0 <= L.val(v.at(k))[0], L.val(v.at(k))[0] < n, 0 <= L.val(v.at(k))[1], L.val(v.at(k))[1] < n), 0, v.n))
    me, cur = s.int("me"), z3.Const("current", R)
    row, col = L.val(me)
    s.assume(L.has(me), 0 <= row, row < n, 0 <= col, col < n)
    V = lambda u: z3.RealVal("1/2") * (1 + TANH(u / par["_u_0"]))
    def opp(eng, env):
        la = env["opposite_neighbour_label"]
        eng.oblige("the neighbour looked for is one", z3.And(0 <= at(la), at(la) < v.n, v.at(at(la)) == la), "pre")
        return a.at(at(la))
    s.contract(HT + "._get_opposite_neighbour_activity", opp, must=False)
    r = s.method(h, "activity_rule", ctx(s, node_label=me, current_activity=cur, neighbour_labels=labels, neighbourhood_activities=acts))
    nr, nc = lambda k: L.val(v.at(k))[0], lambda k: L.val(v.at(k))[1]
    prev, nxt = MOD(col - 1, n), MOD(col + 1, n)
    s.lemma("the previous and the next position, cyclically", z3.And(prev == z3.If(col == 0, n - 1, col - 1), nxt == z3.If(col == n - 1, 0, col + 1)))
    Z = z3.RealVal(0)
    As = s.sum(lambda k: z3.If(z3.And(nr(k) == row, nc(k) != col), V(a.at(k)), Z), v.n)
    Bs = s.sum(lambda k: z3.If(z3.And(nc(k) == col, nr(k) != row), V(a.at(k)), Z), v.n)
    Cs = s.sum(lambda k: V(a.at(k)), v.n)
    Ds = s.sum(lambda k: z3.If(nc(k) == prev, d.val((nr(k), row)) * (V(a.at(k)) + V(a.at(at(C.val((nr(k), nxt)))))), Z), v.n)
    r = match_sums(s, r, As, Bs, Cs, Ds)
    s.ensure("the state plus dt times the derivative", eqv(r, cur + par["_dt"] * (-cur - par["_A"] * As - par["_B"] * Bs - par["_C"] * (Cs - par["_n"]) - par["_D"] * Ds)))

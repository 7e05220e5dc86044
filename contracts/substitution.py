"""C24 substitution systems."""
import ast
from .common import *
from .topology import ghost_network, Built, NS

SS = "netomaton.substitution_system:SubstitutionSystem"
LEN, CHAR = z3.Function("len:Str", Str, z3.IntSort()), z3.Function("char", Str, z3.IntSort(), Str)


SPELLED = z3.Function("spelled", z3.IntSort(), Str)


@invariant(SS + "._get_state", ("state",), force=True)
def spelling(E):
    return [("what is spelled so far", eqv(E.v("state"), SPELLED(zint(E.k))))]


@unit("C24", "_get_state")
def spell(s):
    labels = s.fresh(TList(TInt), "neighbours"); v = s.v(labels)
    acts = s.fresh(TDict(TInt, VAL), "activities"); a = s.v(acts)
    s.assume(s.forall(lambda k: a.has(v.at(k)), 0, v.n))
    st = z3.Function("str:Val", VAL.sort(), Str)
    cat, sp = z3.Function("str_concat", Str, Str, Str), SPELLED
    s.assume(sp(0) == strconst(""), s.forall(lambda k: sp(zint(k) + 1) == cat(sp(k), st(a.val(v.at(k)))), 0, v.n))
    m = s.obj(SS)
    r = s.method(m, "_get_state", ctx(s, neighbour_labels=labels, activities=acts))
    if is_z(r) and r.decl().name().startswith("join!"):
        J = lambda k: r.decl()(*r.children()[:-1], zint(k))
        s.induct("joining is concatenation one by one", lambda k: J(k) == sp(zint(k)), v.n)
    s.ensure("the activities of the neighbours one after the other", eqv(r, sp(zint(v.n))))


@unit("C24", "activity_rule", "the block is the string _get_state spells, as one value")
def rewrite(s):
    rules = s.fresh(TDict(TStr, TStr), "rules"); R = s.v(rules)
    m, last, before, then, now, me = s.int("m", 1), s.int("last"), s.int("added before", 0), s.int("then"), s.int("t"), s.int("me")
    labels = s.fresh(TList(TInt), "neighbours"); v = s.v(labels)
    block = z3.Const("block", Str)
    s.assume(R.has(block))
    typ = z3.Function("dtype", Str, VAL.sort())
    o = s.obj(SS, _rules=rules, _neighbourhood_size=m, _last_node_index=last, _num_nodes_added=before, _last_timestep=then,
              _dtype=s.userfn("dtype", lambda e, a, kw: typ(a[0])))
    c = ctx(s, node_label=me, timestep=now, neighbour_labels=labels)
    s.contract(SS + "._get_state", lambda e, env: block)
    s.method(o, "activity_rule", c)
    w = R.val(block)
    s.assume(LEN(w) >= 0)
    cv, ov = s.v(c).f, s.v(o).f
    rem, add = s.v(cv["removed_nodes"]), s.v(cv["added_nodes"])
    s.ensure("the node removes itself", And(eqv(rem.n, 1), eqv(rem.at(0), me)))
    s.ensure("the timestep is remembered", eqv(ov["_last_timestep"], now))
    base = z3.If(z3.Or(then != now, me == 0), 0, before)        # (node 0 begins a run)
    full = zint(v.n) == m
    cnt = z3.If(full, LEN(w), 0)
    s.ensure("one node per symbol of the replacement, none without a block", zint(add.n) == cnt)
    s.ensure("labels are consecutive", eqv(ov["_last_node_index"], last + cnt))
    s.ensure("the nodes added in this timestep are counted", eqv(ov["_num_nodes_added"], base + cnt))
    if not s.split(full): return
    i = s.int("i", 0); s.assume(i < zint(add.n))
    st, links, lab = add.at(i)
    s.ensure("the state is the symbol, of the type of the axiom's", eqv(st, typ(CHAR(w, i))))
    s.ensure("the label follows the last", eqv(lab, last + 1 + i))
    links = s.v(links)
    x = s.int("x")
    s.ensure("linked to itself and the m - 1 nodes added just before it, in this timestep",
             links.has(x) == And(x <= last + 1 + i, x > last + 1 + i - m, x > last - base))


@unit("C24", "_init_network")
def network(s):
    n, m = s.int("n", 0), s.int("m", 1)
    ghost_network(s)
    o = s.obj(SS, _neighbourhood_size=m)
    r = s.method(o, "_init_network", n)
    b = Built(s, r)
    k = s.int("k", 0); s.assume(k < zint(b.edges.n))
    i, j, a = b.edge(k)
    s.ensure("a link joins a node to itself or one of the m - 1 before it", And(0 <= zint(j), zint(j) <= zint(i), zint(i) < zint(j) + m, zint(i) < n))


@unit("C24", "_init_network: every link once")
def network_once(s):
    n, m, x, y = s.int("n", 0), s.int("m", 1), s.int("x"), s.int("y")
    hits = s.new(RecV(None, {"n": 0}))
    def add_edge(e, env):
        e.setattr(hits, "n", e.binop(ast.Add, e.getattr(hits, "n"), z3.If(z3.And(zint(env["i"]) == x, zint(env["j"]) == y), 1, 0)))
    s.contract(NS + ".__init__", lambda e, env: None)
    s.contract(NS + ".add_edge", add_edge)
    o = s.obj(SS, _neighbourhood_size=m)
    s.method(o, "_init_network", n)
    got = s.v(hits).f["n"]
    inner = lambda i, k: zint(s.count(lambda j: z3.And(i + 1 + j < n, i + 1 + j == x, i == y), k))
    val = lambda i, k: z3.If(z3.And(i == y, i + 1 <= x, x < i + 1 + k, x < n), 1, 0)
    outer = lambda k: zint(s.sum(lambda i: z3.If(z3.And(i == x, i == y), 1, 0) + inner(i, m - 1), k))
    want = z3.And(0 <= y, y <= x, x < n, x < y + m)
    wants = [outer(n)]
    if not any(e.eq(outer(n)) for e in core.subterms(to_z(got))):
        # the loop over the following nodes may also stop at the last node
        inner2 = lambda i, k: zint(s.count(lambda j: z3.And(i + 1 + j == x, i == y), k))
        up = lambda i: z3.If(z3.If(i + m < n, i + m, n) - (i + 1) > 0, z3.If(i + m < n, i + m, n) - (i + 1), 0)
        val2 = lambda i, k: z3.If(z3.And(i == y, i + 1 <= x, x < i + 1 + k), 1, 0)
        s.general([z3.IntSort()], lambda R: [0 <= R, R < n], lambda R: (s.induct("the links from the nodes up to the last", lambda k: inner2(R, k) == val2(R, k), up(R)), inner2(R, up(R)) == val2(R, up(R)))[1])
        outer2 = lambda k: zint(s.sum(lambda i: z3.If(z3.And(i == x, i == y), 1, 0) + inner2(i, up(i)), k))
        s.induct("the nodes, up to the last", lambda k: outer2(k) == z3.If(z3.And(want, y < k), 1, 0), n)
        wants.append(outer2(n))
    s.general([z3.IntSort()], lambda R: [0 <= R, R < n], lambda R: (s.induct("the links from the following nodes", lambda k: inner(R, k) == val(R, k), m - 1), inner(R, m - 1) == val(R, m - 1))[1])
    s.induct("the nodes", lambda k: outer(k) == z3.If(z3.And(want, y < k), 1, 0), n)
    got = match_sums(s, got, *wants)
    s.ensure("exactly one link from each node to itself and the m - 1 before it", eqv(got, z3.If(want, 1, 0)))


@unit("C24", "_get_neighbourhood_size")
def sizes(s):
    rules = s.fresh(TDict(TStr, TStr), "rules"); R = s.v(rules)
    s.assume(zint(R.n) >= 1)
    ln = LEN
    same = s.forall(lambda k: ln(R.key(k)) == ln(R.key(0)), 0, R.n)
    o = s.obj(SS)
    kind, r = s.outcome(lambda: s.method(o, "_get_neighbourhood_size", rules))
    if kind == "ret":
        s.ensure("the length of every key", And(eqv(r, ln(R.key(0))), same))
    else: s.ensure("rejected when two keys differ in length", Not(same))


@unit("C24", "__init__", "the neighbourhood size and the network are those of the two methods above")
def start(s):
    rules = s.fresh(TDict(TStr, TStr), "rules"); R = s.v(rules)
    axiom = s.fresh(TList(TStr), "axiom"); A = s.v(axiom)
    s.assume(zint(A.n) >= 1)
    consts = s.fresh(TList(TStr), "constants"); c = s.v(consts)
    m = s.int("m", 1)
    NET = z3.Const("net", z3.DeclareSort("Net"))
    asked = []
    def size(e, env):
        asked.append(e.peek(env["rules"]))
        return m
    s.contract(SS + "._get_neighbourhood_size", size)
    def net(e, env):
        e.oblige("a network of the axiom's size", eqv(env["n"], A.n))
        e.oblige("the block size is known by then", eqv(e.getattr(env["self"], "_neighbourhood_size"), m))
        return NET
    s.contract(SS + "._init_network", net)
    o = s.construct(SS, axiom, rules, consts)
    f = s.v(o).f
    k = z3.Const("k", Str)
    inc = s.exists(lambda j: eqv(c.at(j), k), 0, c.n)
    for what, D in (("the rules", s.v(f["_rules"])), ("the rules whose key lengths are compared", asked[0])):
        s.ensure(what + ": keys", D.has(k) == zb(Or(R.has(k), inc)))
        s.ensure(what + ": constants map to themselves, the others as given", Implies(D.has(k), eqv(D.val(k), ite(inc, k, R.val(k)))))
    ic = s.v(f["_initial_conditions"])
    i = s.int("i", 0); s.assume(i < zint(A.n))
    s.ensure("the initial conditions are the axiom's symbols", And(eqv(ic.n, A.n), eqv(ic.at(i), A.at(i))))
    s.ensure("labels go on from the axiom's", And(eqv(f["_last_node_index"], zint(A.n) - 1), eqv(f["_num_nodes_added"], 0), eqv(f["_last_timestep"], 0)))
    s.ensure("network", And(eqv(f["_network"], NET), eqv(f["_neighbourhood_size"], m)))
    s.ensure("symbols are made of the type of the axiom's", eqv(s.eng.call(f["_dtype"], [k], {}), k))


@unit("C24", "pad", "numeric activities of nodes with integer labels; at least one node at every timestep")
def padded(s):
    traj = s.fresh(TList(TRec(s.cls(EV + ":State"), activities=TDict(TInt, TInt))), "trajectory"); T = s.v(traj)
    s.assume(zint(T.n) >= 1)
    r = s.v(s.call(SS + ".pad", traj))
    t, k = s.int("t", 0), s.int("k", 0)
    s.assume(t < zint(T.n))
    a = T.at(t).f["activities"]
    s.ensure("a row per timestep", eqv(r.n, T.n))
    s.ensure("rows of equal length", eqv(r.at(t).n, r.at(0).n))
    s.ensure("none shorter than its string", zint(a.n) <= zint(r.at(t).n))
    row = r.at(t)
    s.assume(k < zint(row.n))
    by_label = s.v(s.eng.B.call_ext(s.eng, "sorted", [s.new(SeqV(a.n, a.key, "list", TInt, a.pos))], {}))
    s.ensure("the activities in the order of their labels, then zeros", eqv(row.at(k), ite(k < zint(a.n), a.val(by_label.at(k)), 0)))
    s.ensure("none longer than the longest string", s.exists(lambda j: zint(T.at(j).f["activities"].n) == zint(row.n), 0, T.n))


@unit("C24", "to_string")
def strings(s):
    traj = s.fresh(TList(TRec(s.cls(EV + ":State"), activities=TDict(TInt, TStr))), "trajectory"); T = s.v(traj)
    r = s.v(s.call(SS + ".to_string", traj))
    s.ensure("a string per timestep", eqv(r.n, T.n))
    t = s.int("t", 0); s.assume(t < zint(T.n))
    a = T.at(t).f["activities"]
    by_label = s.v(s.eng.B.call_ext(s.eng, "sorted", [s.new(SeqV(a.n, a.key, "list", TInt, a.pos))], {}))
    s.ensure("the activities joined in the order of their labels", eqv(r.at(t), s.eng.B.str_join(s.eng, SeqV(a.n, lambda k: a.val(by_label.at(k)), "list", TStr))))

"""C01-C08: the evolution engine, function by function."""
from .common import *

L, V = LAB.sort(), VAL.sort()
ISNP = z3.Function("isinstance:generic:Val", V, z3.BoolSort())
ITEM = z3.Function("asscalar:Val", V, V)
PLAIN = lambda v: z3.If(ISNP(v), ITEM(v), v)          # the plain Python value of a NumPy scalar


@unit(("C01", "C02"), "check_np")
def checknp(s):
    v = z3.Const("v", V)
    r = s.call("netomaton.utils:check_np", v) if s.eng.module("netomaton.evolution").get("check_np").module.name == "netomaton.utils" else s.eng.call(s.eng.module("netomaton.evolution").get("check_np"), [v], {})
    s.ensure("NumPy scalars become plain values, others are kept", r == PLAIN(v))


# ---------------------------------------------------------------- input
@unit("C02", "_TimestepInputFunction.__call__")
def steps_in(s):
    n, t = s.int("timesteps"), s.int("t", 1)
    f = s.call(EV + ":_get_input_function", n, None)
    r = s.eng.call(f, [t, s.new(CMapV({})), None], {})
    s.ensure("the end is signalled at the given number of timesteps, and only there", zb(r is None) == (t == n))
    s.ensure("before it, the marker that there is no input", Or(r is None, r == "__timestep__"))


@unit("C02", "_ListInputFunction.__call__")
def list_in(s):
    l = s.fresh(TList(TOpt(VAL)), "inputs")
    v = s.v(l)
    t = s.int("t", 1)
    ts = z3.Int("timesteps") if s.split(z3.Bool("timesteps given")) else None
    f = s.call(EV + ":_get_input_function", ts, l)
    r = s.v(s.eng.call(f, [t, s.new(CMapV({})), None], {}))
    if r is None: s.ensure("the end only after the last item", t > v.n); return
    s.ensure("an item for each timestep up to the length", t <= v.n)
    s.ensure("the t-th item at timestep t", eqv(r, v.at(t - 1)))


@unit("C02", "_get_input_function")
def which_in(s):
    fn = s.userfn("input", lambda eng, a, k: None)
    r = s.call(EV + ":_get_input_function", z3.Int("timesteps") if s.split(z3.Bool("timesteps given")) else None, fn)
    s.ensure("a function is used as it is", r is fn)
    o = s.outcome(lambda: s.call(EV + ":_get_input_function", None, None))
    s.ensure("neither is rejected", o[0] == "exc")


# ---------------------------------------------------------------- the network as the engine sees it
def node_ty(lt): return TStruct({"in": TInt, "out": TInt, "incoming": TDict(lt, TList(TAttr)), "outgoing": TList(lt)})


class Net:
    """an arbitrary network whose links join nodes of the network"""
    def __init__(self, s, name="net", lt=LAB, rotation=None):
        self.lt, self.so = lt, lt.sort()
        self.d = s.fresh(TDict(lt, node_ty(lt)), name)
        self.m = m = s.v(self.d)
        rot = None
        self.rot = None
        if rotation:
            rot = s.fresh(TDict(lt, TList(lt)), name + ".rot")
            self.rot = s.v(rot)
        self.ref = s.obj("netomaton.state:Network", _network=self.d, _rotation_system=rot)
        x, y = z3.Consts("nx ny", self.so)
        i = z3.Int("ni")
        inc = lambda x: m.val(x).d["incoming"]
        s.assume(z3.ForAll([x, y], z3.Implies(z3.And(zb(m.has(x)), zb(inc(x).has(y))), zb(m.has(y)))))
        if self.rot is not None:
            r = self.rot
            s.assume(z3.ForAll([x], z3.Implies(zb(m.has(x)), zb(r.has(x)))))
            s.assume(z3.ForAll([x, i], z3.Implies(z3.And(zb(m.has(x)), 0 <= i, i < r.val(x).n), zb(m.has(r.val(x).at(i))))))
    def incoming(self, x): return self.m.val(x).d["incoming"]
    def neighbours(self, x):
        """the documented order: rotation system, else the order of the incoming links"""
        if self.rot is not None: return self.rot.val(x)
        inc = self.incoming(x)
        return SeqV(inc.n, inc.key, "list", self.lt)


# what the user's rule does for the node: its result, the nodes it removes and adds (arbitrary functions of the node, per timestep)
def rule_fns(lt):
    so = lt.sort()
    n = so.name()
    return dict(res=z3.Function("RULE:" + n, so, V), pert=z3.Function("PERT:" + n, so, V, V),
                remn=z3.Function("REM.n:" + n, so, z3.IntSort()), rem=z3.Function("REM.at:" + n, so, z3.IntSort(), so),
                addn=z3.Function("ADD.n:" + n, so, z3.IntSort()), adds=z3.Function("ADD.state:" + n, so, z3.IntSort(), V), addl=z3.Function("ADD.label:" + n, so, z3.IntSort(), so),
                gone=z3.Function("REMOVES-ITSELF:" + n, so, z3.BoolSort()))


LNK = TSort("Links")         # the outgoing links of an added node: only handed on here


def links_of(lt, x, i): return z3.Function("ADD.links:" + lt.sort().name(), lt.sort(), z3.IntSort(), LNK.sort())(x, zint(i))


def rule_axioms(s, lt, F, events):
    x = z3.Const("rx", lt.sort()); i = z3.Int("ri")
    if not events:
        s.assume(z3.ForAll([x], z3.And(F["remn"](x) == 0, F["addn"](x) == 0, z3.Not(F["gone"](x)))))
        return
    w = z3.Function("rem witness:" + lt.sort().name(), lt.sort(), z3.IntSort())
    s.assume(z3.ForAll([x], z3.And(F["remn"](x) >= 0, F["addn"](x) >= 0)))
    s.assume(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < F["remn"](x), F["rem"](x, i) == x), F["gone"](x))))
    s.assume(z3.ForAll([x], z3.Implies(F["gone"](x), z3.And(0 <= w(x), w(x) < F["remn"](x), F["rem"](x, w(x)) == x))))


def prefix(m, f):
    """sum of f over the first k keys of the map"""
    K = z3.Int("pfx")
    return SUMS.sum(f(m.key(K)), K)


DAR = {}


def rule_handler(s, net, F, lt, events, check, result=None):
    def h(eng, a, kw):
        c = a[0]
        f = eng.get(c).f
        if not eng.quiet: check(eng, f)
        x = f["node_label"]
        if events:
            eng.put(eng.getattr(c, "removed_nodes"), SeqV(F["remn"](x), lambda i: F["rem"](x, zint(i)), "list", lt))
            eng.put(eng.getattr(c, "added_nodes"), SeqV(F["addn"](x), lambda i: (F["adds"](x, zint(i)), links_of(lt, x, i), F["addl"](x, zint(i))), "list", TTuple(VAL, LNK, lt)))
        return F["res"](x)
    return h


@invariant(EV + ":do_activity_rule", ["curr_activities", "added_nodes", "removed_nodes", "network"], force=True)
def dar_inv(E):
    D = DAR
    m, F, k = D["net"].m, D["F"], E.k
    x = z3.Const("ix", D["net"].so); i = z3.Int("ii"); j = z3.Int("ij")
    c = E.curr_activities
    c = to_map(c, D["net"].lt) if not isinstance(c, MapV) else c
    r = [("exactly the processed nodes that did not remove themselves have an activity", z3.ForAll([x], zb(c.has(x)) == z3.And(zb(m.has(x)), m.pos(x) < k, z3.Not(F["gone"](x)))))]
    if not (not is_z(c.n) and c.n == 0):
        r.append(("it is the rule's result, perturbed once", z3.ForAll([x], z3.Implies(zb(c.has(x)), zb(eqv(c.val(x), D["final"](x)))))))
    for nm, n, eq in (("removed_nodes", "remn", lambda l, q, x, i: l.at(q) == F["rem"](x, i)),
                      ("added_nodes", "addn", lambda l, q, x, i: eqv(l.at(q), (F["adds"](x, i), links_of(D["net"].lt, x, i), F["addl"](x, i))))):
        l = E.v(nm)
        C = prefix(m, F[n])
        if not D["events"]: r.append(("no node is in %s" % nm, zint(l.n) == 0)); continue
        r.append(("%s: length" % nm, zint(l.n) == C(k)))
        r.append(("%s: nodes earlier in the order come first" % nm, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), C(j) + F[n](m.key(j)) <= C(k)))))
        if is_z(l.n) or l.n:
            r.append(("%s: every node's, in order" % nm, z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < k, 0 <= i, i < F[n](m.key(j))), zb(eq(l, C(j) + i, m.key(j), i))))))
    return r


def dar_unit(s, lt, inp_kind, events=True, memo=False, vary=("rotation system", "past conditions", "neighbourhood map")):
    vary_ = lambda w: w in vary and s.split(z3.Bool(w))
    rot = vary_("rotation system")
    net = Net(s, rotation=rot, lt=lt)
    m = net.m
    F = rule_fns(lt)
    rule_axioms(s, lt, F, events)
    prev = s.fresh(TDict(lt, VAL), "prev")
    pv = s.v(prev)
    x = z3.Const("ux", net.so); i = z3.Int("ui")
    s.assume(z3.ForAll([x], z3.Implies(zb(m.has(x)), zb(pv.has(x)))))
    t = s.int("t", 1)
    past = None
    if vary_("past conditions"): past = s.fresh(TList(TDict(lt, VAL)), "past")
    nm = None
    if vary_("neighbourhood map"):
        nm = s.fresh(TDict(lt, TList(lt)), "nmap")
        nv = s.v(nm)
        s.assume(z3.ForAll([x], z3.Implies(zb(m.has(x)), zb(nv.has(x)))))
        s.assume(z3.ForAll([x, i], z3.Implies(z3.And(zb(m.has(x)), 0 <= i, i < nv.val(x).n), zb(m.has(nv.val(x).at(i))))))
        nbs = nv.val
    else: nbs = net.neighbours
    if inp_kind == "none": inp, node_in = "__timestep__", (lambda x: None)
    elif inp_kind == "list":
        l = s.fresh(TList(VAL), "inp"); lv = s.v(l)
        s.assume(z3.ForAll([x], z3.Implies(zb(m.has(x)), z3.And(0 <= x, x < lv.n))))
        inp, node_in = l, (lambda x: lv.at(x))
    else:
        inp = z3.Const("inp", V)
        s.assume(z3.Not(z3.Function("isinstance:Sequence:Val", V, z3.BoolSort())(inp)))
        node_in = lambda x: inp
    curr = s.new(CMapV({}))
    def check(eng, f):
        x = f["node_label"]
        g = eng.get
        eng.oblige("the rule is given a node of the network", m.has(x))
        eng.oblige("the context has the timestep", eqv(f["timestep"], t))
        eng.oblige("the context has the node's activity of the previous timestep", eqv(f["current_activity"], pv.val(x)))
        eng.oblige("the context has all activities of the previous timestep", eqv(f["activities"], pv))
        eng.oblige("the context has the neighbours in the documented order", eqv(SeqV(f["neighbour_labels"].n, f["neighbour_labels"].at, "list", lt), nbs(x)))
        na, lb = f["neighbourhood_activities"], nbs(x)
        eng.oblige("as many neighbourhood activities as neighbours", eqv(na.n, lb.n))
        q = fresh_int("q")
        eng.oblige("the neighbourhood activities are the neighbours' previous activities", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(na.n)), na.at(q) == pv.val(lb.at(q)))))
        eng.oblige("the connection states are the node's incoming links", eqv(f["connection_states"], net.incoming(x)))
        eng.oblige("the context has the node's input", eqv(f["input"], node_in(x)))
        eng.oblige("the context has the past activities", eqv(f["past_activities"], s.v(past)) if past is not None else f["past_activities"] is None)
        eng.oblige("no additions or removals yet", And(eqv(length(f["added_nodes"]), 0), eqv(length(f["removed_nodes"]), 0)))
    rule = s.userfn("activity_rule", rule_handler(s, net, F, lt, events, check))
    pert = None
    final = lambda x: PLAIN(F["res"](x))
    if s.split(z3.Bool("perturbation")):
        def ph(eng, a, kw):
            p = eng.get(a[0]).f
            eng.oblige("the perturbation gets the node", m.has(p["node_label"]))
            eng.oblige("the perturbation gets the rule's result", eqv(p["node_activity"], PLAIN(F["res"](p["node_label"]))))
            eng.oblige("the perturbation gets the timestep", eqv(p["timestep"], t))
            eng.oblige("the perturbation gets the node's input", eqv(p["input"], node_in(p["node_label"])))
            eng.oblige("the perturbation is not called for a node that removed itself", z3.Not(F["gone"](p["node_label"])))
            return F["pert"](p["node_label"], p["node_activity"])
        pert = s.userfn("perturbation", ph)
        final = lambda x: F["pert"](x, PLAIN(F["res"](x)))
    DAR.clear(); DAR.update(net=net, F=F, final=final, events=events)
    table = s.new(CMapV({})); key = None
    if memo:
        key = s.obj(EV + ":MemoizationKey")
        def mh(eng, env):
            eng.oblige("the memoized rule is the given one", env["activity_rule"] is rule)
            eng.oblige("with the table and key of this evolution", And(eng.identical(env["memoization_table"], table), eng.identical(env["memoization_key"], key)))
            return PLAIN(eng.call(rule, [env["ctx"]], {}))
        s.contract(EV + ":_get_memoized", mh)
    r = s.call(EV + ":do_activity_rule", t, inp, curr, prev, net.ref, rule, past, pert, memo, table, nm, key)
    r = s.v(r)
    added, removed = (s.v(z) for z in r)
    c = s.v(curr)
    c = to_map(c, lt) if not isinstance(c, MapV) else c
    s.ensure("every node that did not remove itself has an activity, and no other", z3.ForAll([x], zb(c.has(x)) == z3.And(zb(m.has(x)), z3.Not(F["gone"](x)))))
    if not core._nomap(c): s.ensure("the activity is the rule's result, perturbed exactly once if there is a perturbation", z3.ForAll([x], z3.Implies(z3.And(zb(m.has(x)), z3.Not(F["gone"](x))), zb(eqv(c.val(x), final(x))))))
    p2 = s.v(prev)
    s.ensure("the previous activities are not modified", And(eqv(p2, pv)))
    s.ensure("the network is not modified", eqv(s.v(net.ref).f["_network"], m))
    if events:
        n = m.n
        CR, CA = prefix(m, F["remn"]), prefix(m, F["addn"])
        j = z3.Int("uj")
        s.ensure("all removals are reported", z3.And(zint(removed.n) == CR(n), z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < n, 0 <= i, i < F["remn"](m.key(j))), removed.at(CR(j) + i) == F["rem"](m.key(j), i))) if is_z(removed.n) or removed.n else True))
    else: s.ensure("no additions or removals", And(eqv(added.n, 0), eqv(removed.n, 0)))


P1 = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")


@unit(("C01", "C06", "C07"), "do_activity_rule, with additions and removals", "no input")
def dar(s): dar_unit(s, LAB, "none", vary=())


@unit(("C01", "C06"), "do_activity_rule, no input", "no additions or removals")
def dar_plain(s): dar_unit(s, LAB, "none", events=False)


@unit(("C01", "C02", "C06"), "do_activity_rule, one input for all nodes", "input that is not a sequence")
def dar_scalar(s): dar_unit(s, LAB, "scalar", events=False)


@unit(("C01", "C02", "C06"), "do_activity_rule, one input per node", "input is a list; integer labels")
def dar_list(s): dar_unit(s, TInt, "list", events=False)


@unit(("C05",), "do_activity_rule, memoized", "no additions or removals")
def dar_memo(s): dar_unit(s, LAB, "none", events=False, memo=True)


# ---------------------------------------------------------------- evolve_activities, evolve_topology
def rec(s, name, step, first, out, *extra):
    """a sequence defined by recursion: f(.., 0) = first, f(.., k+1) = step(k, f(.., k)); returns (f, unfold) where
    unfold(k) is the fact for the step k"""
    f = z3.Function("rec:" + name, *[e.sort() for e in extra], z3.IntSort(), out)
    def at(*a): return f(*[to_z(x) for x in a[:-1]], zint(a[-1]))
    def q(body, pat): return z3.ForAll(list(extra), body, patterns=[pat]) if extra else body
    s.assume(q(at(*extra, 0) == first(*extra), at(*extra, 0)))
    def unfold(k): return q(at(*extra, conc(zint(k) + 1)) == step(*extra, k, at(*extra, k)), at(*extra, conc(zint(k) + 1)))
    return at, unfold


NETD = TSort("NetData")


def state_ty(s, act, net, compression=False): return TRec(s.cls("netomaton.state:State"), _compression=TConst(compression), _activities=TOpt(act), _network=TOpt(net))


def net_ty(s): return TRec(s.cls("netomaton.state:Network"), _network=NETD, _rotation_system=TConst(None))


@invariant(EV + ":evolve_activities", ["curr_activities"], force=True)
def ea_inv(E):
    D, k = DAR, E.k
    x = z3.Const("ix", LAB.sort())
    c = E.curr_activities
    over = lambda v: eqv(E.loop.n, v.n) is True
    if not over(D["added"]) and not over(D["removed"]): raise KeyError("another loop")
    if over(D["added"]):
        c1 = D["after_removal"]
        E.eng.pc.append(("f", D["last_unf"](k)))
        LAST, p = D["last"], D["state"]
        return [("the removals' survivors and the added nodes have activities", z3.ForAll([x], zb(c.has(x)) == z3.Or(c1.has(x), LAST(x, k) >= 0))),
                ("added nodes have the given state, the others their result", z3.ForAll([x], z3.Implies(zb(c.has(x)), zb(eqv(c.val(x), z3.If(LAST(x, k) >= 0, p(LAST(x, k)), D["c0"].val(x)))))))]
    E.eng.pc.append(("f", D["gone_unf"](k)))
    G, c0 = D["gone"], D["c0"]
    return [("removed nodes have no activity", z3.ForAll([x], zb(c.has(x)) == z3.And(c0.has(x), z3.Not(G(x, k))))),
            ("the others keep theirs", z3.ForAll([x], z3.Implies(zb(c.has(x)), zb(eqv(c.val(x), c0.val(x))))))]


@unit(("C01", "C03", "C06", "C07", "C09"), "evolve_activities")
def ev_act(s):
    eng = s.eng
    given = s.split(z3.Bool("activity rule given"))
    persist = s.split(z3.Bool("persist activities"))
    t = s.int("t", 1)
    x = z3.Const("ex", LAB.sort())
    net = s.obj("netomaton.state:Network", _network=z3.Const("net", NETD.sort()), _rotation_system=None)
    prev = s.fresh(TDict(LAB, VAL), "prev"); pv = s.v(prev)
    traj = s.fresh(TDict(TInt, state_ty(s, TDict(LAB, VAL), net_ty(s))), "trajectory"); tv = s.v(traj)
    s.assume(tv.has(t))
    s.assume(tv.val(t).f["_activities"].none)
    curr = s.new(CMapV({}))
    past, table, nmap, key = (s.fresh(TList(VAL), "past"), s.new(CMapV({})), s.fresh(TDict(LAB, TList(LAB)), "nmap"), s.obj(EV + ":MemoizationKey"))
    inp = z3.Const("inp", V)
    rule = s.userfn("activity_rule", lambda e, a, k: e.guard(False, "AssertionError", "the rule is applied by do_activity_rule")) if given else None
    pert = s.userfn("perturbation", lambda e, a, k: None)
    c0 = s.value(TDict(LAB, VAL), "result")
    rem = s.value(TList(LAB), "removed"); add = s.value(TList(TTuple(VAL, LNK, LAB)), "added")
    calls = []
    def dar(e, env):
        calls.append(1)
        for nm, a in (("t", t), ("inp", inp)): e.oblige("do_activity_rule gets %s" % nm, eqv(env[nm], a))
        for nm, a in (("curr_activities", curr), ("prev_activities", prev), ("network", net), ("past", past), ("memoization_table", table), ("neigh_map", nmap), ("memoization_key", key)):
            e.oblige("do_activity_rule gets %s" % nm, e.identical(env[nm], a))
        e.oblige("do_activity_rule gets the rule, the perturbation and the memoize flag", env["activity_rule"] is rule and env["perturbation"] is pert and env["memoize"] is memo)
        e.oblige("no activity of this timestep is set before", eqv(length(e.get(env["curr_activities"])), 0))
        e.put(env["curr_activities"], c0)
        return (e.new(add), e.new(rem))
    memo = s.split(z3.Bool("memoize"))
    s.contract(EV + ":do_activity_rule", dar)
    lab = lambda j: add.at(j)[2]
    gone, gu = rec(s, "GONE", lambda x, k, r: z3.Or(r, rem.at(k) == x), lambda x: z3.BoolVal(False), z3.BoolSort(), x)
    last, lu = rec(s, "LAST", lambda x, k, r: z3.If(lab(k) == x, zint(k), r), lambda x: z3.IntVal(-1), z3.IntSort(), x)
    j = z3.Int("ej")
    class After:
        def has(self, x): return z3.And(c0.has(x), z3.Not(gone(x, rem.n)))
    DAR.clear(); DAR.update(added=add, removed=rem, c0=c0, gone=gone, gone_unf=gu, last=last, last_unf=lu, state=lambda q: PLAIN(add.at(q)[0]), after_removal=After())
    # meaning of the two recursions
    if given:
        s.induct("GONE: some removal is of this node", lambda k: z3.ForAll([x], gone(x, k) == z3.Exists([j], z3.And(0 <= j, j < zint(k), rem.at(j) == x))), rem.n, using=lambda i: [gu(i)], assume=False)
        s.induct("LAST: the last addition of this node", lambda k: z3.ForAll([x], z3.And(-1 <= last(x, k), last(x, k) < z3.If(zint(k) > 0, zint(k), 0), z3.Implies(last(x, k) >= 0, lab(last(x, k)) == x),
                 z3.ForAll([j], z3.Implies(z3.And(last(x, k) < j, j < zint(k), 0 <= j), lab(j) != x)))), add.n, using=lambda i: [lu(i)], assume=False)
    r = s.call(EV + ":evolve_activities", rule, t, inp, curr, prev, traj, net, past, pert, persist, memo, table, nmap, key)
    c = s.v(curr)
    if given:
        s.ensure("do_activity_rule is called once", len(calls) == 1)
        c = to_map(c, LAB)
        s.ensure("exactly the surviving and the added nodes have activities", z3.ForAll([x], zb(c.has(x)) == z3.Or(z3.And(c0.has(x), z3.Not(gone(x, rem.n))), last(x, add.n) >= 0)))
        s.ensure("the given state for added nodes, the result for the others", z3.ForAll([x], z3.Implies(zb(c.has(x)), zb(eqv(c.val(x), z3.If(last(x, add.n) >= 0, PLAIN(add.at(last(x, add.n))[0]), c0.val(x)))))))
        s.ensure("the additions and removals are reported", And(eqv(s.v(r)[0], add), eqv(s.v(r)[1], rem)))
    else:
        s.ensure("no activities without a rule", eqv(length(c), 0))
        s.ensure("no additions or removals", And(Not(eng.truth(r[0])), Not(eng.truth(r[1]))))
    t2 = s.v(traj)
    q = z3.Int("eq")
    s.ensure("no timestep is added or removed", z3.ForAll([q], zb(t2.has(q)) == zb(tv.has(q))))
    s.ensure("the other timesteps' states are not touched", z3.ForAll([q], z3.Implies(z3.And(tv.has(q), q != t), And(zb(eqv(t2.val(q).f["_activities"], tv.val(q).f["_activities"])), zb(eqv(t2.val(q).f["_network"], tv.val(q).f["_network"]))))))
    st = t2.val(t)
    s.ensure("the network recorded for this timestep is not touched", eqv(st.f["_network"], tv.val(t).f["_network"]))
    a = st.f["_activities"]
    if persist and given: s.ensure("the activities are recorded", z3.Implies(zint(c.n) > 0, zb(And(Not(a.none), eqv(a.v, c)) if isinstance(a, OptV) else eqv(a, c))))
    else: s.ensure("no activities are recorded", a.none if isinstance(a, OptV) else a is None)
    s.ensure("the previous activities are not modified", eqv(s.v(prev), pv))
    s.ensure("the network is not modified", eqv(s.v(net).f["_network"], z3.Const("net", NETD.sort())))


@invariant(EV + ":evolve_topology", ["network"], force=True)
def et_inv(E):
    D, k = DAR, E.k
    data = lambda: E.v("network").f["_network"]
    e0 = E.at(fresh_int("pr"))
    if is_z(e0):
        E.eng.pc.append(("f", D["rem_unf"](k)))
        return [("the removals so far, in order", data() == D["rem"](k))]
    if isinstance(e0, tuple) and len(e0) == 3:
        E.eng.pc.append(("f", D["add_unf"](k)))
        E.eng.pc.append(("f", D["link0"](k)))
        return [("the additions so far, in order", data() == D["add"](k))]
    i = E.v("outgoing_links").n.arg(0)
    E.eng.pc.append(("f", D["link_unf"](i, k)))
    return [("the new node's links so far, in order", data() == D["link"](i, k))]


@unit(("C03", "C06", "C07", "C08"), "evolve_topology")
def ev_top(s):
    eng = s.eng
    events = s.split(z3.Bool("additions and removals given"))
    given = s.split(z3.Bool("topology rule given"))
    copying = z3.Bool("copy_network") if given else True
    if given: copying = s.split(copying)
    persist = s.split(z3.Bool("persist network"))
    t = s.int("t", 1)
    ND = NETD.sort()
    N = z3.Const("net", ND)
    net = s.obj("netomaton.state:Network", _network=N, _rotation_system=None)
    acts = s.fresh(TDict(LAB, VAL), "activities"); av = s.v(acts)
    traj = s.fresh(TDict(TInt, state_ty(s, TDict(LAB, VAL), net_ty(s))), "trajectory"); tv = s.v(traj)
    s.assume(tv.has(t))
    s.assume(tv.val(t).f["_network"].none)
    REMOVE = z3.Function("REMOVE", ND, L, ND)
    ADDN = z3.Function("ADDN", ND, L, V, ND)
    ADDE = z3.Function("ADDE", ND, L, L, core.Attr, ND)
    rem = s.value(TList(LAB), "removed"); add = s.value(TList(TTuple(VAL, TDict(LAB, TAttr), LAB)), "added")
    def cp(e, env):
        d = e.get(env["self"]).f
        return e.new(RecV(e.get(env["self"]).cls, dict(d, _rotation_system=None)))
    def upd(e, env, f):
        r = e.get(env["self"])
        e.put(env["self"], RecV(r.cls, dict(r.f, _network=f(r.f["_network"]))))
    def addn(e, env):
        a = e.get(env["attr"])
        e.oblige("the added node's attribute is its activity", set(a.keys() if isinstance(a, dict) else a.d) == {"activity"})
        upd(e, env, lambda d: ADDN(d, env["node_label"], to_z((a if isinstance(a, dict) else a.d)["activity"])))
    NS = "netomaton.state:Network."
    s.contract(NS + "copy", cp)
    s.contract(NS + "remove_node", lambda e, env: upd(e, env, lambda d: REMOVE(d, env["node_label"])))
    s.contract(NS + "add_node", addn)
    s.contract(NS + "add_edge", lambda e, env: upd(e, env, lambda d: ADDE(d, env["i"], env["j"], e.get(env["attr"]).t)))
    R, ru = rec(s, "REMOVALS", lambda k, d: REMOVE(d, rem.at(k)), lambda: N, ND)
    i = z3.Int("ti"); j = z3.Int("tj")
    links = lambda q: add.at(q)[1]
    B = z3.Function("rec:LINKS", z3.IntSort(), z3.IntSort(), ND)
    A = z3.Function("rec:ADDITIONS", z3.IntSort(), ND)
    s.assume(A(0) == R(rem.n))
    DAR.clear(); DAR.update(rem=R, rem_unf=ru, add=A, link=lambda q, k: B(q, zint(k)),
               add_unf=lambda k: A(zint(k) + 1) == B(zint(k), zint(links(k).n)),
               link0=lambda k: B(zint(k), 0) == ADDN(A(zint(k)), add.at(k)[2], PLAIN(add.at(k)[0])),
               link_unf=lambda q, k: B(q, zint(k) + 1) == ADDE(B(q, zint(k)), add.at(q)[2], links(q).key(k), links(q).val(links(q).key(k)).t))
    some = z3.Or(zint(add.n) > 0, zint(rem.n) > 0)
    before = z3.If(some, A(zint(add.n)), N) if events else N
    calls, result = [], []
    def rule(e, a, kw):
        calls.append(1)
        f = {q: e.getattr(a[0], q) for q in ("network", "activities", "timestep")}
        e.oblige("the topology rule gets this step's network", e.get(f["network"]).f["_network"] == before)
        e.oblige("the topology rule gets this step's activities", eqv(e.get(f["activities"]), av))
        e.oblige("the topology rule gets the timestep", eqv(f["timestep"], t))
        if copying: e.oblige("it is a copy", Not(e.identical(f["network"], net)))
        r = e.get(f["network"])
        e.put(f["network"], RecV(r.cls, dict(r.f, _network=z3.Const("changed in place", ND))))
        if e.branch(z3.Bool("the rule returns nothing")): result.append(None); return None
        if e.branch(z3.Bool("the rule returns the network it was given")): result.append(f["network"]); return f["network"]
        n = s.obj("netomaton.state:Network", _network=z3.Const("another network", ND), _rotation_system=None)
        result.append(n)
        return n
    trule = s.userfn("topology_rule", rule) if given else None
    o = s.outcome(lambda: s.call(EV + ":evolve_topology", trule, t, acts, net, traj, copying if given else z3.Bool("copy_network"), persist, s.new(add) if events else None, s.new(rem) if events else None))
    if given: s.ensure("the topology rule is called once", len(calls) == 1)
    size = z3.Function("len:NetData", ND, z3.IntSort())
    if o[0] == "exc":
        s.ensure("the only error: the rule returned no network", given and (result[0] is None or not s.entails(size(s.v(result[0]).f["_network"]) > 0)))
        return
    r = o[1]
    rd = s.v(r).f["_network"]
    if given:
        s.ensure("the topology rule returned a network", result[0] is not None)
        s.ensure("the network is the one the topology rule returned", eng.identical(r, result[0]))
    else: s.ensure("the network is the previous one with the removals and then the additions made", rd == before)
    if copying and not (given and False): s.ensure("the previous network is not modified", z3.Or(zb(s.v(net).f["_network"] == N)))
    if not given and not events: s.ensure("nothing to do: the previous network itself", eng.identical(r, net))
    s.ensure("the activities are not modified", eqv(s.v(acts), av))
    t2 = s.v(traj)
    q = z3.Int("eq")
    s.ensure("no timestep is added or removed", z3.ForAll([q], zb(t2.has(q)) == zb(tv.has(q))))
    s.ensure("the other timesteps' states are not touched", z3.ForAll([q], z3.Implies(z3.And(tv.has(q), q != t), And(zb(eqv(t2.val(q).f["_activities"], tv.val(q).f["_activities"])), zb(eqv(t2.val(q).f["_network"], tv.val(q).f["_network"]))))))
    st = t2.val(t)
    s.ensure("the activities recorded for this timestep are not touched", eqv(st.f["_activities"], tv.val(t).f["_activities"]))
    a = st.f["_network"]
    if persist: s.ensure("the network is recorded", z3.Implies(size(rd) > 0, zb(And(Not(a.none), eqv(a.v.f["_network"], rd)) if isinstance(a, OptV) else False if a is None else eqv(s.v(a).f["_network"], rd))))
    else: s.ensure("no network is recorded", a.none if isinstance(a, OptV) else a is None)


# ---------------------------------------------------------------- past activities
def past_unit(s, lists):
    lt = TInt if lists else LAB
    cty = TList(VAL) if lists else TDict(lt, VAL)
    t = s.int("t", 1)
    pc = s.fresh(TList(cty), "past conditions"); pv = s.v(pc)
    traj = s.fresh(TDict(TInt, state_ty(s, TDict(lt, VAL), net_ty(s))), "trajectory"); tv = s.v(traj)
    q = z3.Int("pq")
    s.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t), z3.And(tv.has(q), z3.Not(tv.val(q).f["_activities"].none), zint(tv.val(q).f["_activities"].v.n) > 0))))
    m = zint(pv.n)
    r = s.v(s.call(EV + ":_get_past_activities", pc, traj, t))
    if r is None: s.ensure("no past activities only if there are no past conditions", m == 0); return
    s.ensure("as many past activities as past conditions", eqv(r.n, m))
    s.ensure("there are past conditions", m > 0)
    i = s.int("i", 0)
    s.assume(i < m)
    j = t - 1 - m + i
    x = z3.Const("px", lt.sort())
    got = s.v(r.at(i))
    if isinstance(got, OptV): s.ensure("every entry is filled", Not(got.none)); got = got.v
    if s.split(j < 0):
        c = pv.at(m + j)
        if lists: s.ensure("before the first timestep: the given past conditions", And(z3.ForAll([x], zb(got.has(x)) == z3.And(0 <= x, x < zint(c.n))), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zint(c.n)), zb(eqv(got.val(x), c.at(x)))))))
        else: s.ensure("before the first timestep: the given past conditions", eqv(got, c))
    else: s.ensure("the state that many timesteps ago", eqv(got, tv.val(j).f["_activities"].v))
    s.ensure("the trajectory and the past conditions are not modified", And(eqv(s.v(pc), pv)))


@unit(("C04",), "_get_past_activities, maps")
def past_maps(s): past_unit(s, False)


@unit(("C04",), "_get_past_activities, lists")
def past_lists(s): past_unit(s, True)


@unit(("C04",), "_get_past_activities, none given")
def past_none(s):
    t = s.int("t", 1)
    tr = s.new(CMapV({}))
    s.ensure("no past conditions, no past activities", And(s.call(EV + ":_get_past_activities", None, tr, t) is None, s.call(EV + ":_get_past_activities", s.new(cseq([])), tr, t) is None))


@unit(("C04",), "NodeContext.past_activity_of")
def past_of(s):
    p = s.fresh(TList(TDict(LAB, VAL)), "past"); pv = s.v(p)
    c = ctx(s, past_activities=p, activities=s.fresh(TDict(LAB, VAL), "now"))
    x = z3.Const("x", LAB.sort())
    s.assume(pv.n > 0)
    s.assume(pv.at(pv.n - 1).has(x))
    s.ensure("by default the latest", eqv(s.method(c, "past_activity_of", x), pv.at(pv.n - 1).val(x)))
    i = s.int("i", 0)
    s.assume(i < pv.n, pv.at(i).has(x))
    s.ensure("from the oldest", eqv(s.method(c, "past_activity_of", x, i), pv.at(i).val(x)))
    s.ensure("from the latest", eqv(s.method(c, "past_activity_of", x, past_activity_index=i - pv.n), pv.at(i).val(x)))


# ---------------------------------------------------------------- memoization
def key_of(s, c, ordered):
    k = s.construct(EV + (":_OrderedMemoizationKey" if ordered else ":_UnorderedMemoizationKey"))
    return s.v(s.method(k, "to_key", c))


@unit(("C05",), "memoization keys")
def memo_keys(s):
    a, b = s.fresh(TList(VAL), "a"), s.fresh(TList(VAL), "b")
    x, y = s.v(a), s.v(b)
    ca, cb = ctx(s, neighbourhood_activities=a), ctx(s, neighbourhood_activities=b)
    same = eqv(key_of(s, ca, True), key_of(s, cb, True))
    q = z3.Int("kq")
    s.ensure("the ordered keys are equal exactly if the neighbourhood activities are, in order", zb(same) == z3.And(zint(x.n) == zint(y.n), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(x.n)), x.at(q) == y.at(q)))))
    cnt = lambda l, v: s.count(lambda i: l.at(i) == v, l.n)
    v = z3.Const("kv", V)
    ka, kb = key_of(s, ca, False), key_of(s, cb, False)
    same = eqv(ka, kb)
    allv = lambda v: zint(cnt(x, v)) == zint(cnt(y, v))
    if s.split(zb(same)):
        w = z3.Const("kw", V)
        for l in (x, y):
            p = (w, cnt(l, w))
            s.derive("equal keys have the same pairs", [same], zb(ka.has(p)) == zb(kb.has(p)))
            s.lemma("a value that occurs is in the key with its count", z3.Implies(zint(cnt(l, w)) > 0, zb((ka if l is x else kb).has(p))))
            s.lemma("the key has the counts only", z3.Implies(zb((kb if l is x else ka).has(p)), zint(cnt(y if l is x else x, w)) == zint(cnt(l, w))))
            s.lemma("counts are not negative", zint(cnt(l, w)) >= 0)
        s.ensure("equal unordered keys only if every value occurs equally often", allv(w))
    elif s.split(z3.ForAll([v], allv(v))):
        s.ensure("equal unordered keys if every value occurs equally often", False)


@unit(("C05",), "_get_memoized")
def memoized(s):
    KEY = TSort("Key")
    RES = z3.Function("RULE of the key", KEY.sort(), V)
    table = s.fresh(TDict(KEY, VAL), "table"); tv = s.v(table)
    q = z3.Const("mq", KEY.sort())
    s.assume(z3.ForAll([q], z3.Implies(zb(tv.has(q)), zb(tv.val(q) == PLAIN(RES(q))))))
    c = ctx(s)
    k0 = z3.Const("key", KEY.sort())
    calls, keys = [], []
    def rule(e, a, kw):
        e.oblige("the rule gets the context", e.identical(a[0], c))
        calls.append(1)
        return RES(k0)
    key = s.obj(EV + ":_OrderedMemoizationKey")
    def to_key(e, env):
        e.oblige("the key is made of the context", e.identical(env["ctx"], c))
        return k0
    s.contract(EV + ":_OrderedMemoizationKey.to_key", to_key)
    r = s.call(EV + ":_get_memoized", s.userfn("rule", rule), c, table, key)
    t2 = s.v(table)
    s.ensure("the result is what the rule returns", r == PLAIN(RES(k0)))
    s.ensure("the rule is called only for a new key, and once", z3.BoolVal(len(calls) == 0) == tv.has(k0) if len(calls) < 2 else False)
    s.ensure("the table has the rule's results", z3.ForAll([q], z3.Implies(zb(t2.has(q)), zb(t2.val(q) == PLAIN(RES(q))))))
    s.ensure("the key is in the table, and no entry is lost", And(t2.has(k0), z3.ForAll([q], z3.Implies(zb(tv.has(q)), zb(t2.has(q))))))


# ---------------------------------------------------------------- evolve
ROT = TSort("Rotation")
INS, PASTS, NMAPS = TSort("Input"), TSort("Past"), TSort("NeighbourhoodMap")


def at_time(s, ty, name):
    """a family of values indexed by the timestep"""
    t0 = z3.Int("time!" + name)
    facts = []
    v = core.fresh(ty, name, (t0,), facts)
    for f in facts: s.eng.pc.append(("f", f))
    return lambda k: core.subst(v, [(t0, zint(k))])


@invariant(EV + ":evolve", ["trajectory", "prev_activities", "prev_network", "t"], force=True)
def evolve_inv(E):
    D, k = DAR, E.k
    A, N = D["A"], D["N"]
    tr = E.trajectory
    tr = to_map(tr, TInt) if not isinstance(tr, MapV) else tr
    q = z3.Int("iq")
    r = [("the timestep", eqv(E.t, zint(k) + 1)),
         ("not past the end", zint(k) + 1 <= D["T"]),
         ("each callee was called once per timestep", And(*[eqv(E.eng.get(g), k) for g in D["ghosts"]])),
         ("the previous activities are those of the last timestep", eqv(E.prev_activities, A(k))),
         ("the previous network is that of the last timestep", eqv(E.prev_network, N(k))),
         ("a state for each timestep so far, and no other", And(eqv(tr.n, zint(k) + 1), z3.ForAll([q], zb(tr.has(q)) == z3.And(0 <= q, q <= k)))),
         ("in the order of the timesteps", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= k), tr.key(q) == q)))]
    r += [(nm, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= k), zb(f)))) for nm, f in D["state_ok"](tr.val(q), q)]
    if "neighbourhood_map" in D["names"](E): r.append(("the neighbourhood map belongs to the network", D["nmap_ok"](E.v("neighbourhood_map"), N(k))))
    return r


ORDERS = ["ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS"]


@unit(("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"), "evolve", timeout=400)
def evolve_unit(s): evolve_run(s, ORDERS)


@unit(("C01",), "evolve, initial activities as a list")
def evolve_list(s): evolve_run(s, ["ACTIVITIES_FIRST"], lists=True)


@unit(("C03",), "evolve, unknown update order")
def evolve_unknown(s): evolve_run(s, [None])


@unit(("C01",), "evolve, no initial activities")
def evolve_none(s): evolve_run(s, ["ACTIVITIES_FIRST"], lists=None)


def evolve_run(s, orders, lists=False):
    eng = s.eng
    order = orders[0] if len(orders) == 1 else orders[eng.choose(len(orders))]
    lt = TInt if lists else LAB
    aty = TDict(lt, VAL)
    ND = NETD.sort()
    A, = (at_time(s, aty, "A"),)
    Nf = z3.Function("N", z3.IntSort(), ND)
    N = lambda k: Nf(zint(k))
    IN = z3.Function("IN", z3.IntSort(), INS.sort())
    PAST = z3.Function("PAST", z3.IntSort(), PASTS.sort())
    NM = z3.Function("NMAP", ND, NMAPS.sort())
    ADD, REM = at_time(s, TList(TSort("Added")), "ADDED"), at_time(s, TList(TSort("Removed")), "REMOVED")
    T = s.int("T", 1)
    size = z3.Function("len:NetData", ND, z3.IntSort())
    some = z3.Function("truthy:NetData", ND, z3.BoolSort())
    hasrot = s.split(z3.Bool("rotation system"))
    eng.zattrs[("NetData", "rotation_system")] = lambda o: z3.Function("rotation of", ND, ROT.sort())(o) if hasrot else None
    trule = s.userfn("topology_rule", lambda e, a, k: e.guard(False, "AssertionError", "the rule is applied by evolve_topology")) if s.split(z3.Bool("topology rule given")) else None
    rule = s.userfn("activity_rule", lambda e, a, k: e.guard(False, "AssertionError", "the rule is applied by do_activity_rule"))
    pert = s.userfn("perturbation", lambda e, a, k: None)
    inp, past = s.new(z3.Const("input", V)), s.new(z3.Const("past conditions", V))
    steps = z3.Int("timesteps")
    flags = {q: z3.Bool(q) for q in ("compression", "persist_activities", "persist_network", "copy_network")}
    memo = s.split(z3.Bool("memoize"))
    mkey = s.obj(EV + ":MemoizationKey") if memo and s.split(z3.Bool("memoization key given")) else None
    if lists:
        ic = s.fresh(TList(VAL), "initial"); iv = s.v(ic)
        x = z3.Int("ix")
        a0 = A(0)
        s.assume(zint(a0.n) == zint(iv.n), z3.ForAll([x], zb(a0.has(x)) == z3.And(0 <= x, x < zint(iv.n))), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zint(iv.n)), zb(a0.val(x) == PLAIN(iv.at(x))))))
    elif lists is None: ic = None; s.assume(zint(A(0).n) == 0)
    else: ic = s.new(A(0))
    net = N(0)
    good = size(net) == zint(A(0).n)
    rules = rule if lists is not None or s.split(z3.Bool("activity rule given")) else None
    if rules is None: good = True
    ghosts = [s.new(z3.IntVal(0)) for _ in range(3)]
    same = lambda e, nm, a, b: e.oblige(nm, e.identical(a, b) if isinstance(b, Ref) else (a is b) if not is_z(b) else eqv(a, b))
    def state_init(e, env):
        r = e.get(env["self"])
        a, n = env["activities"], env["network"]
        if isinstance(a, Ref): e.freeze(a); a = e.get(a)
        a = OptV(Not(size_of(a) > 0), a) if a is not None else None
        n = OptV(z3.Not(some(n)), n) if n is not None else None
        e.put(env["self"], RecV(r.cls, {"_compression": env["compression"], "_activities": a, "_network": n}))
    def size_of(a): return zint(length(a))
    s.contract("netomaton.state:State.__init__", state_init)
    def input_fn(e, a, kw):
        t, act, nw = a
        e.oblige("the input is asked for once per timestep", eqv(t, e.get(ghosts[2]) + 1))
        e.put(ghosts[2], conc(e.get(ghosts[2]) + 1))
        e.oblige("the input function gets the activities of the last timestep", eqv(e.get(act), A(conc(zint(t) - 1))))
        e.oblige("the input function gets the network of the last timestep", eqv(nw, N(conc(zint(t) - 1))))
        if e.branch(t == T): return None
        e.assume(z3.Bool("a timestep was taken"))
        return IN(t)
    infn = s.userfn("input function", input_fn)
    def get_input(e, env):
        same(e, "the input is that given", env["input"], inp); same(e, "the timesteps are those given", env["timesteps"], steps)
        return infn
    s.contract(EV + ":_get_input_function", get_input)
    def nmap(e, env): return NM(env["network"])
    s.contract(EV + ":_get_neighbourhood_map", nmap)
    def get_past(e, env):
        same(e, "the past conditions are those given", env["past_conditions"], past)
        e.oblige("the past of this timestep", eqv(env["t"], e.get(ghosts[0]) + 1))
        tr = e.get(env["trajectory"]); t = env["t"]
        q = fresh_int("q")
        tr = to_map(tr, TInt) if not isinstance(tr, MapV) else tr
        if not e.quiet: e.oblige("the trajectory has all states before this timestep", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(t)), zb(tr.has(q)))))
        if not e.quiet:
            for nm, f in state_ok(tr.val(q), q): e.oblige("the trajectory so far: %s" % nm, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zint(t)), zb(f))))
        return PAST(t)
    s.contract(EV + ":_get_past_activities", get_past)
    def record(e, env, field, v, cond):
        st = e.getitem(env["trajectory"], env["t"])
        r = e.get(st)
        e.oblige("nothing is recorded for this timestep before", r.f[field].none if isinstance(r.f[field], OptV) else r.f[field] is None)
        e.put(st, RecV(r.cls, dict(r.f, **{field: OptV(Not(cond), v)})))
    def ea(e, env):
        t = env["t"]
        e.oblige("evolve_activities: the timestep", eqv(t, e.get(ghosts[0]) + 1))
        e.put(ghosts[0], conc(e.get(ghosts[0]) + 1))
        for nm, b in (("activity_rule", rules), ("perturbation", pert), ("persist_activities", flags["persist_activities"]), ("memoize", memo)): same(e, "evolve_activities gets %s" % nm, env[nm], b)
        e.oblige("evolve_activities gets the input of this timestep", eqv(env["inp"], IN(t)))
        e.oblige("evolve_activities gets the past of this timestep", eqv(env["past"], PAST(t)))
        e.oblige("no activity of this timestep yet", eqv(length(e.get(env["curr_activities"])), 0))
        e.oblige("evolve_activities gets the activities of the last timestep", eqv(e.get(env["prev_activities"]), A(conc(zint(t) - 1))))
        nt = N(t) if order == "TOPOLOGY_FIRST" else N(conc(zint(t) - 1))
        e.oblige("evolve_activities gets the network of the update order", eqv(env["network"], nt))
        nm = env["neighbourhood_map"]
        e.oblige("the neighbourhood map, if any, belongs to that network", True if nm is None else eqv(nm, NM(nt)) if not isinstance(nm, OptV) else Or(nm.none, eqv(nm.v, NM(nt))))
        if memo:
            e.oblige("the memoization table has only results of this evolution", eqv(length(e.get(env["memoization_table"])), 0))
            k = env["memoization_key"]
            if mkey is not None: same(e, "the memoization key is the one given", k, mkey)
            else: e.oblige("the default key: ordered exactly with a rotation system", e.get(k).cls.name.endswith("_OrderedMemoizationKey" if hasrot else "_UnorderedMemoizationKey"))
        e.put(env["curr_activities"], A(t))
        e.freeze(env["curr_activities"])
        record(e, env, "_activities", A(t), And(flags["persist_activities"], size_of(A(t)) > 0))
        return (e.new(ADD(t)), e.new(REM(t)))
    s.contract(EV + ":evolve_activities", ea, must=order is not None)
    def et(e, env):
        t = env["t"]
        e.oblige("evolve_topology: the timestep", eqv(t, e.get(ghosts[1]) + 1))
        e.put(ghosts[1], conc(e.get(ghosts[1]) + 1))
        for nm, b in (("topology_rule", trule), ("copy_network", flags["copy_network"]), ("persist_network", flags["persist_network"])): same(e, "evolve_topology gets %s" % nm, env[nm], b)
        e.oblige("evolve_topology gets the activities of the update order", eqv(e.get(env["activities"]), A(t) if order == "ACTIVITIES_FIRST" else A(conc(zint(t) - 1))))
        e.oblige("evolve_topology gets the network of the last timestep", eqv(env["prev_network"], N(conc(zint(t) - 1))))
        a, r = env["added_nodes"], env["removed_nodes"]
        if order == "ACTIVITIES_FIRST":
            e.oblige("the additions of this timestep are made", eqv(e.get(a), ADD(t)) if a is not None else zint(ADD(t).n) == 0)
            e.oblige("the removals of this timestep are made", eqv(e.get(r), REM(t)) if r is not None else zint(REM(t).n) == 0)
            idle = And(zint(ADD(t).n) == 0, zint(REM(t).n) == 0)
        else:
            e.oblige("additions and removals are ignored in this order", And(a is None or Not(e.truth(a)), r is None or Not(e.truth(r))))
            idle = True
        if trule is None: e.assume(Implies(idle, eqv(N(t), N(conc(zint(t) - 1)))))
        record(e, env, "_network", N(t), And(flags["persist_network"], some(N(t))))
        return N(t)
    s.contract(EV + ":evolve_topology", et, must=order is not None)
    def state_ok(st, q):
        a, n = st.f["_activities"], st.f["_network"]
        o = lambda v: v if isinstance(v, OptV) else OptV(v is None, v)
        a, n = o(a), o(n)
        return [("compression as given", eqv(st.f["_compression"], flags["compression"])),
                ("activities are recorded if they are to be persisted", zb(a.none) == z3.Not(z3.And(z3.Or(zint(q) == 0, flags["persist_activities"]), size_of(A(q)) > 0))),
                ("the activities recorded are those of the timestep", True if a.v is None else Implies(Not(a.none), eqv(a.v, A(q)))),
                ("networks are recorded if they are to be persisted", zb(n.none) == z3.Not(z3.And(z3.Or(zint(q) == 0, flags["persist_network"]), some(N(q))))),
                ("the network recorded is that of the timestep", True if n.v is None else Implies(Not(n.none), eqv(n.v, N(q))))]
    def nmap_ok(nm, n): return True if nm is None else Or(nm.none, eqv(nm.v, NM(n))) if isinstance(nm, OptV) else eqv(nm, NM(n))
    def names(E):
        try: E.v("neighbourhood_map"); return ["neighbourhood_map"]
        except loops.InvSkip: return []
    DAR.clear(); DAR.update(A=A, N=N, T=T, ghosts=ghosts, state_ok=state_ok, nmap_ok=nmap_ok, names=names)
    uo = eng.getattr(s.cls(EV + ":UpdateOrder"), order) if order else z3.Const("order", TSort("Order").sort())
    o = s.outcome(lambda: s.call(EV + ":evolve", net, initial_conditions=ic, activity_rule=rules, timesteps=steps, input=inp, topology_rule=trule, perturbation=pert, past_conditions=past,
               update_order=uo, memoize=memo, memoization_key=mkey, **flags))
    if o[0] == "exc":
        s.ensure("an error only if the number of initial activities is not that of the nodes" + ("" if order else ", or for an unknown update order"), Or(Not(good), order is None and z3.Bool("a timestep was taken")))
        return
    if order is None: s.ensure("no result with an unknown update order, if there is a timestep to take", T == 1)
    s.ensure("there are as many initial activities as nodes", good)
    r = s.v(o[1])
    s.ensure("one state per timestep", eqv(r.n, T))
    q = s.int("q", 0); s.assume(q < T)
    for nm, f in state_ok(s.v(r.at(q)), q): s.ensure("the result: %s" % nm, f)
    if ic is not None: s.ensure("the initial conditions are not modified", eqv(s.v(ic), iv if lists else A(0)))


@unit(("C01", "C07"), "_get_neighbourhood_map")
def nbmap(s):
    net = Net(s, rotation=s.split(z3.Bool("rotation system")))
    r = s.v(s.call(EV + ":_get_neighbourhood_map", net.ref))
    r = to_map(r, LAB) if not isinstance(r, MapV) else r
    x = z3.Const("nx", L)
    if net.rot is None: s.ensure("a list for each node, and for no other", z3.ForAll([x], zb(r.has(x)) == zb(net.m.has(x))))
    s.assume(zb(net.m.has(x)))
    s.ensure("each node has a list", r.has(x))
    s.ensure("the neighbours in the documented order", eqv(SeqV(r.val(x).n, r.val(x).at, "list", LAB), net.neighbours(x)))
    s.ensure("the network is not modified", eqv(s.v(net.ref).f["_network"], net.m))


@unit(("C01", "C07"), "_get_neighbour_labels")
def nblabels(s):
    net = Net(s, rotation=s.split(z3.Bool("rotation system")))
    nm = None
    if s.split(z3.Bool("neighbourhood map")): nm = s.fresh(TDict(LAB, TList(LAB)), "nmap")
    x = z3.Const("nx", L)
    s.assume(zb(net.m.has(x)))
    if nm is not None: s.assume(zb(s.v(nm).has(x)))
    r = s.v(s.call(EV + ":_get_neighbour_labels", x, nm, net.ref, s.method(net.ref, "in_edges", x)))
    want = s.v(nm).val(x) if nm is not None else net.neighbours(x)
    s.ensure("the map's neighbours, or those in the documented order", eqv(SeqV(r.n, r.at, "list", LAB), want))


# ---------------------------------------------------------------- states, compression
BYTES = TSort("Bytes")


def codec(s):
    """the assumed contract of msgpack: packing never gives nothing, unpacking gives an equal object of its own"""
    vals = []
    def pack(e, env):
        b = z3.Const("packed%d" % len(vals), BYTES.sort())
        e.assume(z3.Function("truthy:Bytes", BYTES.sort(), z3.BoolSort())(b))
        vals.append((b, e.peek(env["obj"])))
        return b
    def unpack(e, env):
        for b, v in vals:
            if is_z(env["packed"]) and env["packed"].eq(b): return e.new(v) if e.is_mut(v) else v
        raise Unsupported("unpacking something that was not packed")
    s.contract("netomaton.state:_Compressor.compress", pack)
    s.contract("netomaton.state:_Compressor.decompress", unpack)


def netval(s, r): return s.v(r).f["_network"]


@unit(("C09", "C08"), "State")
def state_unit(s):
    eng = s.eng
    codec(s)
    comp = s.split(z3.Bool("compression"))
    kind = ["map", "none"][eng.choose(2)]
    acts = s.fresh(TDict(LAB, VAL), "activities") if kind == "map" else None
    net = Net(s, rotation=False)
    av = s.v(acts) if acts is not None else None
    nref = net.ref if s.split(z3.Bool("network given")) else None
    st = s.construct("netomaton.state:State", activities=acts, network=nref, compression=comp)
    later = s.split(z3.Bool("set later"))
    if later:
        st = s.construct("netomaton.state:State", compression=comp)
        s.ensure("a new state has nothing", And(s.prop(st, "activities") is None, s.prop(st, "network") is None))
        if acts is not None: eng.setattr(st, "activities", acts)
        if nref is not None: eng.setattr(st, "network", nref)
    a, n = s.prop(st, "activities"), s.prop(st, "network")
    if acts is None: s.ensure("no activities were given", a is None)
    elif a is None: s.ensure("no activities only if there were none", zint(av.n) == 0)
    else:
        s.ensure("the activities are those that were set", eqv(s.v(a), av))
        s.ensure("the activities given are not modified", eqv(s.v(acts), av))
    if nref is None: s.ensure("no network was given", n is None)
    elif n is None: s.ensure("no network only if it had no nodes", zint(net.m.n) == 0)
    else:
        s.ensure("the network is the one that was set", eqv(netval(s, n), net.m))
        s.ensure("the network given is not modified", eqv(netval(s, nref), net.m))


@unit(("C08", "C09"), "Network.copy")
def net_copy(s):
    codec(s)
    net = Net(s, rotation=s.split(z3.Bool("rotation system")))
    m = net.m
    c = s.method(net.ref, "copy")
    s.ensure("a copy is another object", Not(s.eng.identical(c, net.ref)))
    s.ensure("a copy is equal", eqv(netval(s, c), m))
    i = z3.Int("ci")
    s.ensure("with the nodes in the same order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(m.n)), netval(s, c).key(i) == m.key(i))))
    s.ensure("the original is not modified", eqv(netval(s, net.ref), m))
    x = z3.Const("x", L)
    s.assume(zb(m.has(x)))
    who = s.split(z3.Bool("change the copy"))
    a, b = (c, net.ref) if who else (net.ref, c)
    y = z3.Const("y", L)
    s.assume(zb(m.has(y)), zb(m.val(y).d["incoming"].has(x)))
    s.method(a, "add_edge", x, y)
    s.ensure("changing one leaves the other as it was", eqv(netval(s, b), m))

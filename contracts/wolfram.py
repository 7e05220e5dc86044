"""C25 the Wolfram physics model."""
import ast, hashlib
from .common import *

WP = "netomaton.wolfram_physics_model:WolframPhysicsModel"
SYM = TSort("Symbol")


def bound(b, x, old, rule, k):
    """the keys: those from before and the first k symbols of the rule"""
    return z3.Or(zb(old.has(x)), Z_exists(lambda q: rule.at(q) == x, 0, k))


_n = [0]        # the depth, which names the bound constant: the same statement is the same formula


def _quantified(f):
    _n[0] += 1
    try:
        q = z3.Int("zq%d" % _n[0])
        return q, zb(f(q))
    finally: _n[0] -= 1


def Z_exists(f, lo, hi):
    if not is_z(hi) and hi <= lo: return z3.BoolVal(False)
    q, b = _quantified(f)
    return z3.Exists([q], z3.And(lo <= q, q < zint(hi), b))


def Z_all(f, lo, hi):
    hi = conc(z3.simplify(hi)) if is_z(hi) else hi
    if not is_z(hi) and hi <= 0: return z3.BoolVal(True)
    q, b = _quantified(f)
    return z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < zint(hi)), b))


@invariant(WP + "._matches", ("symbol_bindings", "added_symbols"), force=True)
def matching(E):
    rule, rel, old = E.old("rule"), E.old("relation"), E.old("symbol_bindings")
    b, a = E.v("symbol_bindings"), E.v("added_symbols")
    k = E.k
    if not eqv(E.loop.n, rule.n) is True: raise KeyError("another loop")
    x = z3.Const("bx", SYM.sort())
    isnew = lambda x: z3.And(zb(b.has(x)), z3.Not(zb(old.has(x))))
    return [("the symbols so far are bound as the relation has them", Z_all(lambda q: And(b.has(rule.at(q)), eqv(b.val(rule.at(q)), rel.at(q))), 0, k)),
            ("earlier bindings are kept", z3.ForAll([x], z3.Implies(zb(old.has(x)), z3.And(zb(b.has(x)), zb(eqv(b.val(x), old.val(x))))))),
            ("new bindings are for symbols of the rule", z3.ForAll([x], z3.Implies(isnew(x), Z_exists(lambda q: rule.at(q) == x, 0, k)))),
            ("the added symbols are the new bindings", z3.And(Z_all(lambda q: isnew(a.at(q)), 0, a.n), z3.ForAll([x], z3.Implies(isnew(x), Z_exists(lambda q: a.at(q) == x, 0, a.n))))),
            ("no symbol is added twice", Z_all(lambda q: Z_all(lambda p: a.at(p) != a.at(q), q + 1, a.n), 0, a.n))]


@invariant(WP + "._matches", ("symbol_bindings", "added_symbols"), force=True)
def undoing(E):
    """the bindings made for a relation that does not match are taken back"""
    old, b, a, k = E.old("symbol_bindings"), E.v("symbol_bindings"), E.old("added_symbols"), zint(E.k)
    if not eqv(E.loop.n, a.n) is True: raise KeyError("another loop")
    x = z3.Const("bx", SYM.sort())
    gone = lambda x: Z_exists(lambda q: a.at(q) == x, 0, k)
    return [("those so far are gone", z3.ForAll([x], zb(b.has(x)) == z3.And(zb(old.has(x)), z3.Not(gone(x))))),
            ("the others keep their nodes", z3.ForAll([x], z3.Implies(zb(b.has(x)), zb(eqv(b.val(x), old.val(x))))))]


@unit("C25", "_matches")
def matches(s):
    rule, rel, binds = s.fresh(TList(SYM), "rule"), s.fresh(TList(TInt), "relation"), s.fresh(TDict(SYM, TInt), "bindings")
    ru, re, old = s.v(rule), s.v(rel), s.v(binds)
    m = s.obj(WP)
    r = s.method(m, "_matches", rule, rel, binds)
    new = s.v(binds)
    x = z3.Const("x", SYM.sort())
    q = s.int("q", 0)
    inside = q < zint(ru.n)
    if s.split(zb(r)):
        s.ensure("of the relation's arity", eqv(ru.n, re.n))
        s.ensure("every symbol is bound to the node at its place", Implies(inside, And(new.has(ru.at(q)), eqv(new.val(ru.at(q)), re.at(q)))))
        s.ensure("earlier bindings are kept", Implies(old.has(x), And(new.has(x), eqv(new.val(x), old.val(x)))))
        s.ensure("no other symbol is bound", Implies(And(new.has(x), Not(old.has(x))), Z_exists(lambda p: ru.at(p) == x, 0, ru.n)))
    else:
        s.ensure("the bindings are as before", And(eqv(new.has(x), old.has(x)), Implies(old.has(x), eqv(new.val(x), old.val(x)))))
        p, t = z3.Ints("p t")
        s.ensure("only when no extension of the bindings fits", Or(Not(eqv(ru.n, re.n)),
            Z_exists(lambda p: And(old.has(ru.at(p)), Not(eqv(old.val(ru.at(p)), re.at(p)))), 0, ru.n),
            z3.Exists([p, t], z3.And(0 <= p, p < zint(ru.n), 0 <= t, t < zint(ru.n), ru.at(p) == ru.at(t), re.at(p) != re.at(t)))))



# ------------------------------------------------------------------------------------------------ one update
# A relation is opaque here: it has an arity and nodes. The number of times a relation occurs in a list is stated as the sum of an arbitrary
# function w of relations over the list: two lists with the same sums for every w hold the same relations, equally often.
REL = TSort("Relation")
AR = z3.Function("arity", REL.sort(), z3.IntSort())
ND = z3.Function("node", REL.sort(), z3.IntSort(), z3.IntSort())
W = z3.Function("weight", REL.sort(), z3.IntSort())
G = {}


def weight(v, f=None):
    """the sum of f (w) over the list; appending, joining and removing are followed"""
    f = W if f is None else f
    if v.items is not None: return sum((zint(f(x)) for x in v.items), z3.IntVal(0))
    m = v.made
    if m and m[0] == "append": return weight(m[1], f) + zint(f(m[2]))
    if m and m[0] == "concat": return weight(m[1], f) + weight(m[2], f)
    if m and m[0] == "remove": return weight(m[1], f) - zint(f(m[1].at(m[2])))
    K = core.fresh_int("wk")
    return zint(SUMS.total(to_z(f(v.at(K))), K, v.n))


def inside(pair): return weight(pair[0])


def fits(ru, rel, b):
    """the relation is the rule's, under the binding"""
    return z3.And(AR(rel) == zint(ru.n), Z_all(lambda t: And(b.has(ru.at(t)), eqv(b.val(ru.at(t)), ND(rel, t))), 0, ru.n))


def groups_fit(m):
    """every group is a match of the whole left side under one binding"""
    if m.items is not None and not m.items: return z3.BoolVal(True)
    rin = G["in"]
    return Z_all(lambda g: z3.And(zint(m.at(g)[0].n) == zint(rin.n),
                                  Z_all(lambda q: fits(rin.at(q), m.at(g)[0].at(q), core.to_map(m.at(g)[1], SYM)), 0, rin.n)), 0, m.n)


def has(E, nm):
    try: E.v(nm); return True
    except Exception: return False


SCAN = ("relations", "partially_matched", "unmatched_relations", "matched_relations")


def left(E): return zint(E.v("relations").n) + z3.If(zb(E.v("scanning")), 1, 0)


@invariant(WP + ".topology_rule", SCAN + ("scanning",), force=True, own=("partially_matched",), variant=left)
def scans(E):
    if E.loop.n is not None or has(E, "new_config"): raise KeyError("another loop")
    rel, un, m = E.v("relations"), E.v("unmatched_relations"), E.v("matched_relations")
    return [("every relation is left over, unmatched or in one group", weight(rel) + weight(un) + weight(m, inside) == G["all"]),
            ("no group is open", zint(E.v("partially_matched").n) == 0),
            ("each group matches under one binding", groups_fit(m))]


@invariant(WP + ".topology_rule", SCAN + ("symbol_bindings", "scanning"), force=True, own=("partially_matched",), once=("symbol_bindings",))
def scan(E):
    rin, k = G["in"], zint(E.k)
    if E.loop.n is None or has(E, "new_config") or not eqv(E.loop.n, rin.n) is True: raise KeyError("another loop")
    rel, un, m, pa = E.v("relations"), E.v("unmatched_relations"), E.v("matched_relations"), E.v("partially_matched")
    b = core.to_map(E.v("symbol_bindings"), SYM)
    return [("every relation is left over, unmatched, in the open group or in one group", weight(rel) + weight(un) + weight(m, inside) + weight(pa) == G["all"]),
            ("the open group", z3.And(zint(pa.n) <= k, zint(pa.n) < zint(rin.n))),
            ("the open group matches so far", z3.Implies(zint(pa.n) == k, z3.BoolVal(True) if pa.items == [] else Z_all(lambda q: fits(rin.at(q), pa.at(q), b), 0, k))),
            ("scanning goes on only when a relation was taken", z3.And(zint(rel.n) <= zint(E.old("relations").n), z3.Implies(z3.And(k >= 1, zb(E.v("scanning"))), zint(rel.n) < zint(E.old("relations").n)))),
            ("each group matches under one binding", groups_fit(m))]


ST = z3.Function("start", z3.IntSort(), z3.IntSort())      # ST(g) = g * (number of relations on the right side)


ANY = z3.Function("any", z3.IntSort(), z3.BoolSort())      # an arbitrary set of numbers


def some(vs, body):
    """there are such values; the terms of the body that mention them all are what to look for"""
    def mentions(e): return {str(y) for y in core.subterms(e)}
    pats = []
    for e in core.subterms(body):
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(str(w) in mentions(e) for w in vs) and not any(e.eq(p) for p in pats): pats.append(e)
    return z3.Exists(vs, body, patterns=pats)


def built(E, cur, cfg):
    """the relations made so far, for the groups before cur and (some) of cur, and the new nodes"""
    old, L0, kept = G["before"]
    rout, M, last, base = G["out"], E.v("matched_relations"), zint(E.v("self").f["last_node"]), zint(G["before"][2].n)
    if M.items is not None: raise KeyError("no groups")
    b0, b = lambda g: core.to_map(old.at(g)[1], SYM), lambda g: core.to_map(M.at(g)[1], SYM)
    x, y, g, h, v = z3.Const("nx", SYM.sort()), z3.Const("ny", SYM.sort()), z3.Int("ng"), z3.Int("nh"), z3.Int("nv")
    ok = lambda g: z3.And(0 <= g, g < zint(M.n))
    new = lambda g, x: z3.And(ok(g), zb(b(g).has(x)), z3.Not(zb(b0(g).has(x))))
    return [("the groups", z3.And(zint(M.n) == zint(old.n), Z_all(lambda g: z3.And(zint(M.at(g)[0].n) == zint(old.at(g)[0].n), Z_all(lambda q: eqv(M.at(g)[0].at(q), old.at(g)[0].at(q)), 0, old.at(g)[0].n)), 0, M.n))),
            ("bindings are kept", z3.ForAll([g, x], z3.Implies(z3.And(ok(g), zb(b0(g).has(x))), z3.And(zb(b(g).has(x)), zb(eqv(b(g).val(x), b0(g).val(x))))))),
            ("the relations without a match are kept", Z_all(lambda c: eqv(cfg.at(c), kept.at(c)), 0, base)),
            ("the new relations are the right side under the group's binding", z3.ForAll([g, v], z3.Implies(z3.And(0 <= g, g <= cur, 0 <= v, v < zint(rout.n), base + ST(g) + v < zint(cfg.n)), fits(rout.at(v), cfg.at(base + ST(g) + v), b(g))))),
            ("new nodes are numbered after those in use", z3.And(last >= L0, z3.ForAll([g, x], z3.Implies(new(g, x), z3.And(g <= cur, L0 < b(g).val(x), b(g).val(x) <= last))))),
            ("no two symbols have the same new node", z3.ForAll([g, x, h, y], z3.Implies(z3.And(new(g, x), new(h, y), z3.Or(g != h, x != y)), b(g).val(x) != b(h).val(y)))),
            ("no number is left out", z3.ForAll([v], z3.Implies(z3.And(ANY(v), L0 < v, v <= last), some([g, x], z3.And(new(g, x), b(g).val(x) == v))), patterns=[ANY(v)])),
            ("new nodes are for symbols of the right side", z3.ForAll([g, x], z3.Implies(new(g, x), Z_exists(lambda o: Z_exists(lambda t: rout.at(o).at(t) == x, 0, rout.at(o).n), 0, rout.n))))]


BUILD = ("new_config", "matched_relations")


@invariant(WP + ".topology_rule", BUILD, force=True)
def groups(E):
    m = E.old("matched_relations")
    if E.loop.n is None or not has(E, "new_config") or not eqv(E.loop.n, m.n) is True: raise KeyError("another loop")
    G["before"] = (m, zint(E.old("self").f["last_node"]), E.old("new_config"))
    cfg = E.v("new_config")
    return [("one new relation for each on the right side", zint(cfg.n) == zint(G["before"][2].n) + ST(zint(E.k)))] + built(E, zint(E.k), cfg)


def group_of(E):
    r = E.eng.root(E.ref("bindings"))
    if len(r.path) != 2: raise KeyError("not a group's binding")
    return zint(r.path[0][1])


@invariant(WP + ".topology_rule", BUILD + ("bindings",), force=True)
def relations_of_a_group(E):
    if E.loop.n is None or not has(E, "new_config") or not eqv(E.loop.n, G["out"].n) is True: raise KeyError("another loop")
    cur, cfg = group_of(E), E.v("new_config")
    return [("a relation for each so far", zint(cfg.n) == zint(G["before"][2].n) + ST(cur) + zint(E.k))] + built(E, cur, cfg)


@invariant(WP + ".topology_rule", BUILD + ("bindings", "rule_out", "new_edge"), force=True)
def nodes_of_a_relation(E):
    ru = E.old("rule_out")
    if E.loop.n is None or not eqv(E.loop.n, ru.n) is True: raise KeyError("another loop")
    cur, cfg, e, b = group_of(E), E.v("new_config"), E.v("new_edge"), core.to_map(E.v("bindings"), SYM)
    return [("a node for each symbol so far", z3.And(zint(e.n) == zint(E.k), z3.BoolVal(True) if e.items == [] else Z_all(lambda t: And(b.has(ru.at(t)), eqv(b.val(ru.at(t)), e.at(t))), 0, E.k)))] + built(E, cur, cfg)


class interp_view:
    """the variables at the place of a call"""
    def __init__(self, eng): self.eng = eng
    def v(self, name):
        try: return self.eng.peek(self.eng.lookup(name))
        except Exception: raise core.Unsupported("no variable %s" % name)


@unit("C25", "topology_rule")
def update(s):
    G.clear()
    rin, rout = s.fresh(TList(TList(SYM)), "left"), s.fresh(TList(TList(SYM)), "right")
    G["in"], G["out"] = s.v(rin), s.v(rout)
    s.assume(G["in"].n >= 1)
    mono = s.clean("a < b and p >= 0 give p a + p <= p b", lambda a, b, p: ([a < b, p >= 0], p * a + p <= p * b), *[z3.IntSort()] * 3)
    g, h = z3.Ints("sg sh")          # the facts used of ST(g) = g * nout
    s.assume(ST(0) == 0, z3.ForAll([g], ST(g + 1) == ST(g) + zint(G["out"].n), patterns=[ST(g + 1)]),
             z3.ForAll([g, h], z3.Implies(g < h, ST(g) + zint(G["out"].n) <= ST(h)), patterns=[z3.MultiPattern(ST(g), ST(h))]))
    net = s.value(TSort("Net"), "network")
    rels = s.fresh(TList(REL), "relations")
    G["all"] = weight(s.v(rels))
    L0 = s.int("last", 0)
    m = s.obj(WP, rules=s.new(CMapV({"in": G["in"], "out": G["out"]})), last_node=s.int("last before", 0), network=net)
    def highest(e, env):
        e.oblige("the highest node of the network's relations", e.identical(env["config"], rels))
        return L0
    s.contract(WP + "._get_last_node", highest)
    def to_config(e, env):
        e.oblige("the network of the timestep is read", eqv(env["network"], net))
        return rels
    s.contract(WP + ".network_to_config", to_config)
    def match(e, env):
        ru, rel, b = e.peek(env["rule"]), env["relation"], core.to_map(e.peek(env["symbol_bindings"]), SYM)
        x, i = z3.Const("bx", SYM.sort()), z3.Int("bi")
        empty = isinstance(b.n, int) and b.n == 0
        what = "|".join(str(y) for y in ((False, 0) if empty else (zb(b.has(x)), b.val(x))) + (zint(ru.n), ru.at(i)))
        if not e.branch(z3.Function("matches:" + hashlib.md5(what.encode()).hexdigest()[:10], REL.sort(), z3.BoolSort())(rel)): return False
        r = s.fresh(TDict(SYM, TInt), "bound")
        new = e.peek(r)
        e.assume(fits(ru, rel, new))
        if not empty: e.assume(z3.ForAll([x], z3.Implies(zb(b.has(x)), z3.And(zb(new.has(x)), zb(eqv(new.val(x), b.val(x)))))))
        e.put(env["symbol_bindings"], new)
        return True
    s.contract(WP + "._matches", match)
    def new_tuple(e, args, kw):
        v = e.peek(args[0])
        r = s.value(REL, "made")
        e.assume(AR(r) == zint(v.n))
        if v.items != []: e.assume(Z_all(lambda t: ND(r, t) == v.at(t), 0, v.n))
        return r
    s.external("tuple", new_tuple)
    net2, last2 = s.value(TSort("Net"), "next network"), s.int("next last")
    ran = []
    def init(e, env):
        cfg, env_ = e.peek(env["config"]), interp_view(e)
        old, last0, kept = G["before"]
        e.oblige("kept and matched relations are the network's, each used once", weight(kept) + weight(old, inside) == G["all"])
        e.oblige("each group matches the left side under one binding", groups_fit(old))
        e.oblige("the numbers in use are unchanged until then", last0 == L0)
        e.oblige("as many relations as kept and made", zint(cfg.n) == zint(kept.n) + ST(zint(old.n)))
        for nm, g in built(env_, zint(old.n), cfg): e.oblige(nm, g)
        ran.append(1)
        return (net2, last2)
    s.contract(WP + "._init_network_and_conditions", init)
    r = s.method(m, "topology_rule", ctx(s, network=net))
    s.ensure("the network of the new configuration is given back", eqv(r, net2))
    s.ensure("and kept", And(eqv(s.v(m).f["network"], net2), eqv(s.v(m).f["last_node"], last2)))
    s.ensure("the configuration is made", len(ran) > 0)


# ------------------------------------------------------------------------------------------------ a configuration as a network
NETW = "netomaton.state:Network"


def top_so_far(last, v, upto, seen):
    """the highest node of the relations before upto and the first nodes of the next one"""
    ln = lambda c: zint(v.at(c).n)
    c, q = z3.Int("tc"), z3.Int("tq")
    before = lambda c, q: z3.And(0 <= c, 0 <= q, q < ln(c), z3.Or(c < upto, z3.And(c == upto, q < seen)))
    return z3.And(last >= 0, z3.ForAll([c, q], z3.Implies(before(c, q), v.at(c).at(q) <= last)),
                  z3.Or(last == 0, z3.Exists([c, q], z3.And(before(c, q), v.at(c).at(q) == last), patterns=[to_z(v.at(c).at(q))])))


def made(E, what): return zint(E.eng.peek(G[what]).f["n"])


@invariant(WP + "._init_network_and_conditions", ("last_node",), force=True)
def relations_done(E):
    v, C, T = G["config"], G["C"], G["T"]
    if not eqv(E.loop.n, v.n) is True: raise KeyError("another loop")
    k, ln = zint(E.k), zint(v.at(C).n)
    return [("the links of the relation", made(E, "mine") == z3.If(C < k, z3.If(ln == 1, 1, ln - 1), 0)),
            ("the link of the two nodes", made(E, "hits") == z3.If(C < k, 1, 0)),
            ("the highest node", top_so_far(zint(E.v("last_node")), v, k, 0))]


@invariant(WP + "._init_network_and_conditions", ("last_node", "prev", "next_edge_num"), force=True)
def nodes_done(E):
    v, C, T, c = G["config"], G["C"], G["T"], zint(E.v("c"))
    if not eqv(E.loop.n, v.at(c).n) is True: raise KeyError("another loop")
    k, ln, p = zint(E.k), zint(v.at(C).n), E.v("prev")
    none = z3.BoolVal(True) if p is None else zb(p.none) if isinstance(p, OptV) else z3.BoolVal(False)
    val = zint(p.v if isinstance(p, OptV) else p) if p is not None else None
    so_far = z3.If(k >= 1, k - 1, 0)
    return [("the node before", none == (k == 0)), ("which it is", z3.BoolVal(True) if p is None else z3.Implies(k >= 1, val == v.at(c).at(k - 1))),
            ("the links so far", zint(E.v("next_edge_num")) == so_far),
            ("the links of the relation so far", made(E, "mine") == z3.If(C < c, z3.If(ln == 1, 1, ln - 1), z3.If(c == C, so_far, 0))),
            ("the link of the two nodes", made(E, "hits") == z3.If(C < c, 1, z3.If(z3.And(c == C, ln > 1, T < k - 1), 1, 0))),
            ("the highest node", top_so_far(zint(E.v("last_node")), v, c, k))]


@unit("C25", "_init_network_and_conditions")
def to_network(s):
    config = s.fresh(TList(TList(TInt)), "config"); v = s.v(config)
    C, T = s.int("C", 0), s.int("T", 0)
    ln = lambda c: zint(v.at(c).n)
    s.assume(C < zint(v.n), ln(C) >= 1, T < z3.If(ln(C) == 1, 1, ln(C) - 1), s.forall(lambda c: s.forall(lambda t: v.at(c).at(t) >= 1, 0, ln(c)), 0, v.n))
    G.clear()
    hits, mine = s.new(RecV(None, {"n": 0})), s.new(RecV(None, {"n": 0}))
    G.update(config=v, C=C, T=T, hits=hits, mine=mine)
    def bump(e, r, c): e.setattr(r, "n", e.binop(ast.Add, e.getattr(r, "n"), z3.If(zb(c), 1, 0)))
    def add_edge(e, env):
        a = e.peek(env["attr"])
        of, n, pos = eqv(a.d["label"], STRI(C + 1)), ln(C), a.d.get("hyperedge_index")
        alone = a.d.get("unary", False)
        e.oblige("only the label, the place and the mark of a single node", set(a.d) <= {"label", "hyperedge_index", "unary"})
        place = pos == T if pos is not None else False
        what = z3.If(n == 1, zb(And(alone, pos is None)), z3.If(n == 2, zb(And(Not(alone), pos is None)), zb(And(Not(alone), place))))
        bump(e, mine, of)
        bump(e, hits, And(of, what, eqv(env["i"], v.at(C).at(T)), eqv(env["j"], z3.If(n == 1, v.at(C).at(T), v.at(C).at(T + 1)))))
    s.contract(NETW + ".__init__", lambda e, env: None)
    s.contract(NETW + ".add_edge", add_edge)
    net, last = s.call(s.fn(WP + "._init_network_and_conditions"), config)
    s.ensure("one link from each node of a relation to the next, in its place, or one from a single node to itself", s.v(hits).f["n"] == 1)
    s.ensure("no other link has the relation's label", s.v(mine).f["n"] == z3.If(ln(C) == 1, 1, ln(C) - 1))
    s.ensure("a node of the configuration at most", And(last >= v.at(C).at(T), last >= 1))
    s.ensure("the highest node in use", top_so_far(zint(last), v, zint(v.n), 0))


@invariant(WP + "._get_last_node", ("last_node",), force=True)
def relations_seen(E):
    v = G["config"]
    if not eqv(E.loop.n, v.n) is True: raise KeyError("another loop")
    return [("the highest node", top_so_far(zint(E.v("last_node")), v, zint(E.k), 0))]


@invariant(WP + "._get_last_node", ("last_node",), force=True)
def nodes_seen(E):
    if eqv(E.loop.n, G["config"].n) is True: raise KeyError("another loop")
    last, was, k = zint(E.v("last_node")), zint(E.old("last_node")), zint(E.k)
    q = z3.Int("lq")
    return [("no lower", last >= was), ("no node seen is higher", Z_all(lambda q: zint(E.at(q)) <= last, 0, k)),
            ("a node seen, or the one before", z3.Or(last == was, some([q], z3.And(0 <= q, q < k, zint(E.at(q)) == last))))]


@unit("C25", "_get_last_node")
def last_node(s):
    config = s.fresh(TList(TList(TInt)), "config"); v = s.v(config)
    G.clear(); G["config"] = v
    C, T = s.int("C", 0), s.int("T", 0)
    s.assume(s.forall(lambda c: s.forall(lambda t: v.at(c).at(t) >= 1, 0, v.at(c).n), 0, v.n))
    last = s.call(s.fn(WP + "._get_last_node"), config)
    s.ensure("the highest node in use, 0 if there is none", top_so_far(zint(last), v, zint(v.n), 0))

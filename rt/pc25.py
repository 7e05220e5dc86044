"""random configurations (unary, binary and longer relations, repetitions, more than 9 relations) there and back; random rules: each update
must decompose into matched sets, their right sides with fresh nodes, and kept relations"""
import netomaton as ntm
from collections import Counter
from harness import expect, canon, raises


def cfg(c): return [tuple(r) for r in c]


def roundtrip(config):
    c = cfg(config)
    m = ntm.WolframPhysicsModel(list(c), {"in": [(1, 2)], "out": [(1, 2)]})
    got = cfg(ntm.WolframPhysicsModel.network_to_config(m.network))
    expect(got == c, "configuration %r comes back as %r", c, got)
    expect(sorted(m.network.nodes) == sorted({x for r in c for x in r}), "nodes %r", sorted(m.network.nodes))
    expect(c == cfg(config), "configuration altered")


def bind(pats, rels):
    """all bindings of the patterns to the relations in this order, or None"""
    b = {}
    for p, r in zip(pats, rels):
        if len(p) != len(r): return None
        for s, x in zip(p, r):
            if b.setdefault(s, x) != x: return None
    return b


class Steps(Exception): pass


def explains(old, new, ins, outs):
    try: return explains_(old, new, ins, outs, [0])
    except Steps: return True      # not decided within the step limit: no verdict


def explains_(old, new, ins, outs, steps):
    """can new be old with groups of relations matching ins replaced by outs (under one binding each, fresh nodes numbered consecutively)?"""
    top = max(x for r in old for x in r)
    ni, no = len(ins), len(outs)
    # the number of updates from the sizes
    ks = [k for k in range(0, len(old) // ni + 1) if len(old) + k * (no - ni) == len(new)]
    for k in reversed(ks):
        body = new[:len(new) - k * no]
        groups = [new[len(new) - k * no + g * no:len(new) - k * no + (g + 1) * no] for g in range(k)]
        rest = Counter(old); rest.subtract(Counter(body))
        if any(v < 0 for v in rest.values()): continue
        used = +rest
        if assign(groups, used, ins, outs, top, steps): return True
    return False


def assign(groups, avail, ins, outs, top, steps):
    if not groups: return not +avail
    g = groups[0]
    # binding of the symbols of the right side
    b = bind(outs, g)
    if b is None: return False
    insyms = {s for p in ins for s in p}
    fresh, seen = [], set()
    for p in outs:
        for s in p:
            if s not in insyms and s not in seen: seen.add(s); fresh.append(s)
    for i, s in enumerate(fresh):
        if b[s] != top + 1 + i: return False
    def pick(i, bb, av):
        steps[0] += 1
        if steps[0] > 30000: raise Steps()
        if i == len(ins): return assign(groups[1:], av, ins, outs, top + len(fresh), steps)
        for r in list(+av):
            if av[r] <= 0 or len(r) != len(ins[i]): continue
            b2 = dict(bb)
            if all(b2.setdefault(s, x) == x for s, x in zip(ins[i], r)):
                a2 = Counter(av); a2[r] -= 1
                if pick(i + 1, b2, a2): return True
        return False
    return pick(0, {s: x for s, x in b.items() if s in insyms}, avail)


def update(config, ins, outs, T, runs=1):
    rules = {"in": cfg(ins), "out": cfg(outs)}
    m = ntm.WolframPhysicsModel(cfg(config), rules)
    start = m.network
    for _ in range(runs): tr = ntm.evolve(network=start, topology_rule=m.topology_rule, timesteps=T)      # the last of several runs
    cs = [cfg(c) for c in m.to_configurations(tr)]
    expect(len(cs) == T and cs[0] == cfg(config), "first configuration %r", cs[0])
    for a, b in zip(cs, cs[1:]):
        if len(b) > 400 or not a: break
        expect(explains(a, b, cfg(ins), cfg(outs)), "%r -> %r is no update by %r -> %r", a[:12], b[:12], ins, outs)
    expect(rules == {"in": cfg(ins), "out": cfg(outs)}, "rules altered")


KINDS = {"roundtrip": roundtrip, "update": update}


def systematic(tier):
    for c in ([[1, 1]], [[1, 2]], [[1]], [[1], [1]], [[1, 2, 3]], [[1, 1, 1]], [[1, 2], [1, 2]], [[1, 2, 1, 2]], [[2, 1], [1, 2], [2]], [[3], [1, 2, 2, 1], [1, 1], [1, 1]]): yield "roundtrip", dict(config=c)
    for n in range(1, 24): yield "roundtrip", dict(config=[[i, i % 3 + 1] for i in range(1, n + 1)])
    for ins, outs in (([[1, 2], [1, 3]], [[1, 2], [1, 4], [2, 4], [3, 4]]), ([[1, 2, 3]], [[1, 2, 4], [4, 3, 1]]), ([[1, 1, 2], [3, 4, 1]], [[1, 1, 4], [5, 4, 3], [2, 5, 1]]),
                      ([[1, 2]], [[1, 2], [2, 3]]), ([[1], [1, 2]], [[2], [1, 2], [3]]), ([[1, 2], [2, 1]], [[1, 2]])):
        for c in ([[1, 1], [1, 1]], [[1, 2], [1, 3]], [[1, 2, 3], [3, 2, 1]], [[1, 1, 1], [1, 1, 1]], [[1], [1, 2], [2, 3]], [[2, 1], [1, 2], [2, 2]], [[5, 9], [9, 5], [1, 5]]):
            for runs in (1, 2): yield "update", dict(config=c, ins=ins, outs=outs, T=4, runs=runs)


def rand(rng):
    n = rng.size(1, 5, 30)
    lens = rng.choice([[2], [3], [2, 3], [1, 2], [1, 2, 3, 4], [1, 2, 3]])
    rel = lambda hi: [rng.randint(1, hi) for _ in range(rng.choice(lens))]
    config = [rel(n) for _ in range(rng.size(1, 6, 25))]
    if rng.random() < 0.4: return "roundtrip", dict(config=config)
    ins = [rel(4) for _ in range(rng.randint(1, 3))]
    outs = [rel(6) for _ in range(rng.randint(1, 4))]
    return "update", dict(config=config, ins=ins, outs=outs, T=rng.randint(2, 4), runs=rng.choice([1, 1, 1, 2]))

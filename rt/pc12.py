"""all rings up to a size and radius (and random larger ones): adjacency matrix, network, neighbour order, and the activities the
rule sees; rejections"""
import netomaton as ntm
from netomaton.topology import adjacency
from harness import expect, canon, raises


def ring(n, r):
    A = canon(adjacency.cellular_automaton(n, r))
    near = lambda i, j: min((i - j) % n, (j - i) % n) <= r
    expect(A == [[1. if near(i, j) else 0. for j in range(n)] for i in range(n)], "adjacency matrix of the ring")
    for ordered in (True, False):
        net = ntm.topology.cellular_automaton(n, r, ordered=ordered)
        expect(sorted(net.nodes) == list(range(n)), "nodes")
        es = sorted((j, i) for j, i, a in net.edges)
        expect(es == sorted((j, i) for i in range(n) for j in range(n) if near(i, j)), "links of the ring (ordered=%s)", ordered)
        expect(all(canon(dict(a)) == {"weight": 1.0} for _, _, a in net.edges), "weights")
        if ordered:
            for i in range(n):
                want = [(i + d) % n for d in range(-r, r + 1)]
                expect(list(net.rotation_system[i]) == want, "neighbours of %d are %r, should be %r", i, list(net.rotation_system[i]), want)
    if n > 300: return
    net = ntm.topology.cellular_automaton(n, r)
    bad = []
    def rule(ctx):
        i = ctx.node_label
        if list(ctx.neighbourhood_activities) != [100 + (i + d) % n for d in range(-r, r + 1)]: bad.append((i, list(ctx.neighbourhood_activities)))
        return 0
    if n <= 60: ntm.evolve(net, [100 + i for i in range(n)], rule, 2)
    expect(not bad, "activities are not seen from left to right: %r", bad[:2])


def reject(n, r, boundary):
    expect(raises(adjacency.cellular_automaton, n, r, boundary) is not None, "%d cells, boundary %r accepted", n, boundary)


def reject_net(n):
    expect(raises(ntm.topology.cellular_automaton, n) is not None, "%d cells accepted", n)


KINDS = {"ring": ring, "reject": reject, "reject_net": reject_net}


def systematic(tier):
    for n in (-1, 0, 1, 2):
        yield "reject", dict(n=n, r=1, boundary="periodic"); yield "reject_net", dict(n=n)
    for b in ("fixed", "open", None, "Periodic", ""): yield "reject", dict(n=5, r=1, boundary=b)
    yield "ring", dict(n=521, r=130)
    for n in range(3, 14):
        for r in range(0, (n - 1) // 2 + 1): yield "ring", dict(n=n, r=r)


def rand(rng):
    if rng.random() < 0.02: n = rng.randint(515, 620); return "ring", dict(n=n, r=rng.randint(128, (n - 1) // 2))
    n = rng.size(3, 40, 120)
    return "ring", dict(n=n, r=rng.randint(0, (n - 1) // 2) if rng.random() < 0.5 else min(rng.randint(0, 4), (n - 1) // 2))

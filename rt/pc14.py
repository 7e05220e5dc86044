"""all small complete, disconnected, bipartite, lattice and Watts-Strogatz networks and random larger ones, edge by edge"""
import copy, itertools
import numpy as np
import netomaton as ntm
from harness import expect, canon, raises


def edges(net): return sorted(((i, j) for i, j, a in net.edges), key=repr)


def degrees(net):
    es = edges(net)
    for l in net.nodes:
        expect(net.in_degree(l) == sum(1 for e in es if e[1] == l) and net.out_degree(l) == sum(1 for e in es if e[0] == l), "degrees of %r", l)


def complete(n):
    net = ntm.topology.complete(n)
    expect(sorted(net.nodes) == list(range(n)), "nodes %r", list(net.nodes))
    expect(edges(net) == sorted(((i, j) for i in range(n) for j in range(n) if i != j), key=repr), "edges %r", edges(net)[:9])
    degrees(net)


def disconnected(nodes, form):
    arg = nodes if isinstance(nodes, int) else (np.array(nodes) if form == "np" else list(nodes))
    net = ntm.topology.disconnected(arg)
    expect(canon(list(net.nodes)) == (list(range(nodes)) if isinstance(nodes, int) else nodes), "nodes %r", list(net.nodes))
    expect(edges(net) == [], "edges %r", edges(net))
    degrees(net)


def bipartite(s1, s2, attrs, extra=False):
    ea = {l: {m: dict(attrs[i][j]) for j, m in enumerate(s2)} for i, l in enumerate(s1)} if attrs else None
    if extra and ea:
        # entries of other pairs (such as the second set's own ones) are not those of the pair
        for j, m in enumerate(s2): ea.setdefault(m, {}).update({l: {"weight": 1000 + j, "extra": 1} for l in s1})
    before = copy.deepcopy(ea)
    net = ntm.topology.bipartite(s1, s2, **({"edge_attributes": ea} if attrs else {}))
    want = []
    for i, l in enumerate(s1):
        for j, m in enumerate(s2):
            a = attrs[i][j] if attrs else {}
            want += [(l, m, a), (m, l, a)]
    got = [(i, j, dict(a)) for i, j, a in net.edges]
    expect(sorted(got, key=repr) == sorted(want, key=repr), "edges %r, should be %r", sorted(got, key=repr)[:8], sorted(want, key=repr)[:8])
    expect(ea == before, "the given attributes were altered")
    if s1 and s2: expect(sorted(net.nodes, key=repr) == sorted(set(s1) | set(s2), key=repr), "nodes %r", list(net.nodes))
    degrees(net)


def lattice(dim, periodic, first):
    kw = {} if first is None else {"first_label": first}
    if periodic is not None: kw["periodic"] = periodic
    net = ntm.topology.lattice(tuple(dim), **kw)
    f = first or 0
    pts = list(itertools.product(*[range(d) for d in reversed(dim)]))
    lab = {p: f + k for k, p in enumerate(pts)}
    want = set()
    for p in pts:
        for ax in range(len(p)):
            d = list(reversed(dim))[ax]
            for s in (-1, 1):
                q = p[ax] + s
                if periodic: q %= d
                if 0 <= q < d and q != p[ax]: want.add((lab[p], lab[p[:ax] + (q,) + p[ax + 1:]]))
    expect(sorted(net.nodes) == sorted(lab.values()), "nodes %r", list(net.nodes))
    got = [(i, j) for i, j, a in net.edges]
    expect(sorted(got) == sorted(want), "lattice %r: missing %r, extra %r", dim, sorted(want - set(got))[:5], sorted(set(got) - want)[:5])
    degrees(net)


def ws(n, k, p, seed):
    net = ntm.topology.watts_strogatz_graph(n, k, p, seed)
    expect(sorted(net.nodes) == list(range(n)), "nodes %r", list(net.nodes))
    es = edges(net)
    expect(len(set(es)) == len(es) and all(i != j for i, j in es), "self-links or double links")
    expect(all((j, i) in set(es) for i, j in es), "links are not symmetric")
    expect(len(es) == 2 * n * (k // 2), "%d directed links instead of %d", len(es), 2 * n * (k // 2))
    if p == 0:
        want = {(i, (i + s * d) % n) for i in range(n) for d in range(1, k // 2 + 1) for s in (1, -1)}
        expect(set(es) == want, "ring links: %r", sorted(set(es) ^ want)[:5])
    degrees(net)


KINDS = {"complete": complete, "disconnected": disconnected, "bipartite": bipartite, "lattice": lattice, "ws": ws}


def systematic(tier):
    for n in range(1, 9): yield "complete", dict(n=n)
    for n in range(0, 7): yield "disconnected", dict(nodes=n, form="int")
    for f in ("list", "np"):
        for ns in ([3, 1, 2], ["a", "b"], [0], [5, 4, 3, 2, 1, 0]): yield "disconnected", dict(nodes=ns, form=f)
    for a in range(1, 4):
        for b in range(1, 4):
            yield "bipartite", dict(s1=list(range(a)), s2=list(range(a, a + b)), attrs=None)
            yield "bipartite", dict(s1=list(range(a)), s2=list(range(a, a + b)), attrs=[[{"weight": 10 * i + j} if (i + j) % 3 else {} for j in range(b)] for i in range(a)], extra=(a + b) % 2 == 0)
    for per in (None, False, True):
        for first in (None, 0, 1, 7):
            for dim in ([1, 2, 2], [1, 3, 2], [1, 2, 3], [1, 3, 3], [1, 4, 3], [2, 2, 2], [1, 1, 2], [1, 1, 5], [3, 3], [2, 4], [5], [3, 4, 2], [2, 2, 3]): yield "lattice", dict(dim=dim, periodic=per, first=first)
    for n in range(3, 10):
        for k in range(2, n):
            yield "ws", dict(n=n, k=k, p=0, seed=1)
            yield "ws", dict(n=n, k=k, p=0.5, seed=n + k)


def rand(rng):
    x = rng.random()
    if x < 0.1: return "complete", dict(n=rng.size(1, 14, 40))
    if x < 0.2:
        if rng.random() < 0.3: return "disconnected", dict(nodes=rng.size(0, 12, 60), form="int")
        ns = rng.sample(range(100), rng.size(1, 12, 40))
        return "disconnected", dict(nodes=ns, form=rng.choice(["list", "np"]))
    if x < 0.5:
        a, b = rng.size(1, 5, 14), rng.size(1, 5, 14)
        labs = rng.choice([list(range(a + b)), rng.sample(range(200), a + b), ["v%d" % i for i in range(a + b)]])
        attrs = None
        if rng.random() < 0.7: attrs = [[{k: rng.choice([0, 1, -1, 0.5, 7]) for k in ("weight", "cost") if rng.random() < 0.6} for _ in range(b)] for _ in range(a)]
        return "bipartite", dict(s1=labs[:a], s2=labs[a:], attrs=attrs, extra=rng.random() < 0.3)
    if x < 0.75:
        while True:
            dim = [rng.size(1, 5, 9) for _ in range(rng.randint(1, 3))]
            tot = 1
            for d in dim: tot *= d
            if 2 <= tot <= 90: return "lattice", dict(dim=dim, periodic=rng.choice([None, False, True]), first=rng.choice([None, 0, 1, rng.randint(0, 50)]))
    n = rng.size(3, 20, 50)
    return "ws", dict(n=n, k=rng.randint(2, n - 1), p=rng.choice([0, 0, 0.1, 0.5, 1, rng.random()]), seed=rng.randint(0, 10 ** 6))

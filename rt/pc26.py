"""random pattern sets (repeated and constant patterns included): weights, links, and every evolution step against the sign rule and the
energy"""
import netomaton as ntm
import numpy as np
from harness import expect, canon


def weights(P): n = len(P[0]); return [[sum(p[i] * p[j] for p in P) if i != j else 0 for j in range(n)] for i in range(n)]


def train(P, form):
    n = len(P[0])
    net = ntm.HopfieldNet(n=n)
    net.train(np.array(P) if form == "np" else [tuple(p) for p in P] if form == "tuple" else [list(p) for p in P])
    W = weights(P)
    expect(canon(net.adjacency_matrix) == W, "weights %r, should be %r", canon(net.adjacency_matrix), W)
    expect(sorted(net.network.nodes) == list(range(n)), "nodes %r", list(net.network.nodes))
    es = sorted((i, j, canon(dict(a))["weight"]) for i, j, a in net.network.edges)
    expect(es == sorted((i, j, W[i][j]) for i in range(n) for j in range(n) if W[i][j]), "links %r", es[:6])
    return net, W


def steps(P, s0, T, form):
    net, W = train(P, form)
    n = len(s0)
    tr = ntm.evolve(net.network, list(s0), net.activity_rule, T)
    st = [[canon(x.activities[i]) for i in range(n)] for x in tr]
    expect(len(st) == T and st[0] == s0, "first state or number of states")
    E = lambda s: -sum(W[i][j] * s[i] * s[j] for i in range(n) for j in range(n)) / 2
    for a, b in zip(st, st[1:]):
        sg = [1 if sum(W[i][j] * a[j] for j in range(n)) >= 0 else -1 for i in range(n)]
        diff = [i for i in range(n) if a[i] != b[i]]
        expect(len(diff) <= 1, "%d nodes changed at once", len(diff))
        if diff: expect(b[diff[0]] == sg[diff[0]], "node %d changed to %r, should be %r", diff[0], b[diff[0]], sg[diff[0]])
        else: expect(any(sg[i] == a[i] for i in range(n)), "no node was updated: %r, signs %r", a, sg)
        expect(E(b) <= E(a), "energy rises from %r to %r", E(a), E(b))


def every(P, s0, form):
    """updates from one state, often enough to see every node: exactly those of the wrong sign are ever changed"""
    net, W = train(P, form)
    n = len(s0)
    sg = [1 if sum(W[i][j] * s0[j] for j in range(n)) >= 0 else -1 for i in range(n)]
    flipped = set()
    for _ in range(30 * n):
        tr = ntm.evolve(net.network, list(s0), net.activity_rule, 2)
        b = [canon(tr[1].activities[i]) for i in range(n)]
        d = [i for i in range(n) if b[i] != s0[i]]
        expect(len(d) <= 1, "%d nodes changed at once", len(d))
        flipped |= set(d)
    want = {i for i in range(n) if sg[i] != s0[i]}
    expect(flipped == want, "nodes that change from %r: %r, should be %r", s0, sorted(flipped), sorted(want))


def many(P, rep, form): train([list(p) for p in P for _ in range(rep)], form)


def unit(w, s, label):
    """the update of one node in a given context (weights of any size)"""
    net = ntm.HopfieldNet(n=len(s) + 1)
    labels = [i for i in range(len(s) + 1) if i != label]
    acts = {l: v for l, v in zip(labels, s)}
    acts[label] = 1
    ctx = ntm.NodeContext(label, 1, acts, labels, [acts[l] for l in labels], {l: [{"weight": x}] for l, x in zip(labels, w)}, 1, None, None)
    r = net._rule(ctx)
    want = 1 if sum(x * y for x, y in zip(w, s)) >= 0 else -1
    expect(canon(r) == want, "weights %r, activities %r: %r, should be %r", w, s, r, want)


KINDS = {"many": many, "unit": unit, "steps": steps, "every": every, "train": lambda P, form: (train(P, form), None)[1]}


def systematic(tier):
    import itertools
    for rep in (130, 260, 33000): yield "many", dict(P=[[1, 1, -1]], rep=rep, form="list")
    for n in (1, 2, 3):
        for k in (1, 2):
            for bits in itertools.product((-1, 1), repeat=n * k):
                P = [list(bits[i * n:(i + 1) * n]) for i in range(k)]
                yield "train", dict(P=P, form="list")
                for s in itertools.product((-1, 1), repeat=n): yield "steps", dict(P=P, s0=list(s), T=5, form="list")


def rand(rng):
    if rng.random() < 0.04: return "many", dict(P=[[rng.choice((-1, 1)) for _ in range(3)] for _ in range(rng.randint(1, 2))], rep=rng.choice([60, 127, 128, 129, 255, 256, 300, 17000, 33000]), form=rng.choice(["list", "np"]))
    if rng.random() < 0.2:
        k = rng.size(0, 6, 40)
        return "unit", dict(w=[rng.choice([1, -1, 2, 3, -3, 200, -70000]) for _ in range(k)], s=[rng.choice((-1, 1)) for _ in range(k)], label=rng.randint(0, k))
    n = rng.size(1, 8, 30)
    base = [rng.choice((-1, 1)) for _ in range(n)]
    P = [[rng.choice((-1, 1)) for _ in range(n)] if rng.random() < 0.8 else rng.choice([base, [-x for x in base], [1] * n]) for _ in range(rng.randint(1, 5))]
    f = rng.choice(["list", "np", "tuple"])
    s0 = [rng.choice((-1, 1)) for _ in range(n)] if rng.random() < 0.7 else list(P[0])
    if n <= 6 and rng.random() < 0.3: return "every", dict(P=P, s0=s0, form=f)
    return "steps", dict(P=P, s0=s0, T=rng.size(2, 2 * n + 2, 60), form=f)

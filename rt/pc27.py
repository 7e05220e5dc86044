"""random grids, resources, sites and seeds, with and without copying and compression: links and weights of every timestep and every
cell's resource"""
import netomaton as ntm
from harness import expect, canon


def grow(R, w, h, init, layer, T, seed, copy, compression):
    n = w * h
    kw = {"resource_layer": layer} if layer is not None else {}
    m = ntm.FungalGrowthModel(R, w, h, list(init), seed=seed, verbose=False, **kw)
    tr = ntm.evolve(m.network, list(init), m.activity_rule, T, topology_rule=m.topology_rule, update_order=m.update_order,
                    copy_network=m.copy_network if copy is None else copy, compression=compression)
    expect(len(tr) == T, "%d states", len(tr))
    adj = set()
    for p in range(n):
        x, y = p % w, p // w
        for q in ((x + 1) % w + y * w, (x - 1) % w + y * w, x + (y + 1) % h * w, x + (y - 1) % h * w):
            if q != p: adj.add((p, q))
    sites = layer if layer is not None else [1 if v else 0 for v in init]
    prev = set()
    S = list(init)
    for t, st in enumerate(tr):
        net = st.network
        es = [(i, j) for i, j, a in net.edges]
        expect(sorted(net.nodes) == list(range(n)), "nodes at %d", t)
        expect(len(set(es)) == len(es), "double link at %d", t)
        es = set(es)
        expect(es <= adj, "links between cells that are not adjacent at %d: %r", t, sorted(es - adj)[:3])
        expect(not any((j, i) in es for i, j in es), "links both ways at %d", t)
        expect(prev <= es, "links lost at %d: %r", t, sorted(prev - es)[:3])
        if t == 0: expect(not es, "links at the start")
        for i, j in es - prev: expect(S[i] > 0, "new link from %d without resource at %d", i, t)
        outs = {i: sum(1 for e in es if e[0] == i) for i in range(n)}
        for i, j, a in net.edges: expect(abs(a["weight"] - 1 / outs[i]) < 1e-12, "weight %r of %d -> %d with %d links out", a["weight"], i, j, outs[i])
        if t > 0:
            for j in range(n):
                ins = [i for i in range(n) if (i, j) in es]
                v = sum(S[i] / outs[i] for i in ins) if ins else S[j]
                if S[j] > 0 and sites[j]: v += R
                g = canon(st.activities[j])
                expect(abs(g - v) <= 1e-9 * max(1, abs(v)), "resource of %d at %d is %r, should be %r", j, t, g, v)
        S = [canon(st.activities[j]) for j in range(n)]
        prev = es


def cell(R, site, cur, ins):
    """the update of one cell in a given context"""
    m = ntm.FungalGrowthModel(R, 3, 3, [0] * 9, resource_layer=[site] + [1 - site] * 8, verbose=False)
    labels = [i + 1 for i in range(len(ins))]
    acts = {0: cur, **{l: a for l, (w, a) in zip(labels, ins)}}
    ctx = ntm.NodeContext(0, 1, acts, labels, [acts[l] for l in labels], {l: [{"weight": w}] for l, (w, a) in zip(labels, ins)}, cur, None, None)
    g = canon(m.activity_rule(ctx))
    v = (sum(w * a for w, a in ins) if ins else cur) + (R if cur > 0 and site else 0)
    expect(abs(g - v) <= 1e-9 * max(1, abs(v)), "resource %r, flows %r, site %r: %r, should be %r", cur, ins, site, g, v)


KINDS = {"grow": grow, "cell": cell}


def systematic(tier):
    for w, h in ((2, 2), (3, 3), (3, 4), (4, 3), (5, 5), (1, 4), (4, 1), (2, 3)):
        for p in (0, w * h // 2):
            yield "grow", dict(R=10.0, w=w, h=h, init=[10.0 if i == p else 0 for i in range(w * h)], layer=None, T=8, seed=3 + p, copy=None, compression=False)
        yield "grow", dict(R=2.5, w=w, h=h, init=[1.0] * (w * h), layer=[i % 2 for i in range(w * h)], T=5, seed=5, copy=None, compression=False)


def rand(rng):
    if rng.random() < 0.3:
        v = lambda: rng.choice([0, 0.0, 1.0, 0.25, 80000.0, 3, 1e-7])
        return "cell", dict(R=rng.choice([80000.0, 1.0, 0.5, 0]), site=rng.randint(0, 1), cur=v(), ins=[[rng.choice([1.0, 0.5, 1 / 3, 0.25]), v()] for _ in range(rng.randint(0, 4))])
    w, h = rng.size(1, 5, 9), rng.size(1, 5, 9)
    if w * h < 2: w = 3
    n = w * h
    d = rng.choice([0.1, 0.5, 1])
    init = [rng.choice([1.0, 0.25, 80000.0, 3]) if rng.random() < d else 0 for _ in range(n)]
    layer = [rng.randint(0, 1) for _ in range(n)] if rng.random() < 0.5 else None
    return "grow", dict(R=rng.choice([80000.0, 1.0, 0.5, 3]), w=w, h=h, init=init, layer=layer, T=rng.size(2, 6, 20), seed=rng.randint(1, 10 ** 6),
                        copy=rng.choice([None, None, True, False]), compression=rng.random() < 0.2)

"""every update order of up to 4 nodes presented in every node order, subsets, random larger ones; orders built from n, reshuffled
orders; rejected constructions"""
import itertools
import netomaton as ntm
from harness import expect, canon, raises
from sim import h


def setup(present, links):
    net = ntm.Network()
    for l in present: net.add_node(l)
    for i, j in links: net.add_edge(present[i], present[j])
    return net


def rule_of(seed, calls, fixed):
    def f(ctx):
        calls.append((ctx.timestep, canon(ctx.node_label), canon(ctx.current_activity), canon(list(ctx.neighbourhood_activities))))
        if fixed: return canon(ctx.current_activity) + 1
        return h(seed, canon(ctx.node_label), canon(ctx.current_activity), canon(list(ctx.neighbourhood_activities)), ctx.timestep) % 100000 + 100
    return f


def run(present, links, rule, calls, init, T, seed, fixed):
    net = setup(present, links)
    tr = ntm.evolve(net, dict(zip(present, init)), rule, T)
    states = [canon(dict(s.activities)) for s in tr]
    expect(len(states) == T, "%d states", len(states))
    seq = []
    for t in range(1, T):
        cs = [c for c in calls if c[0] == t]
        expect(len(cs) == 1, "the wrapped rule ran %d times in timestep %d (for %r)", len(cs), t, [c[1] for c in cs])
        l = cs[0][1]
        seq.append(l)
        nb = [states[t - 1][i] for i in net.in_edges(l)]
        expect(cs[0][2] == states[t - 1][l] and cs[0][3] == nb, "context of %r at timestep %d", l, t)
        v = states[t - 1][l] + 1 if fixed else h(seed, l, states[t - 1][l], nb, t) % 100000 + 100
        want = dict(states[t - 1]); want[l] = v
        expect(states[t] == want, "timestep %d: %r, should be %r", t, states[t], want)
    return seq


def ordered(present, links, order, init, T, seed, fixed=True, tup=False):
    calls = []
    rule = ntm.AsynchronousRule(rule_of(seed, calls, fixed), update_order=tuple(order) if tup else list(order))
    seq = run(present, links, rule, calls, init, T, seed, fixed)
    want = [order[(t - 1) % len(order)] for t in range(1, T)]
    expect(seq == want, "updated nodes %r, should be %r", seq, want)


def from_n(n, links, init, T, seed, fixed=True):
    calls = []
    rule = ntm.AsynchronousRule(rule_of(seed, calls, fixed), n=n)
    seq = run(list(range(n)), links, rule, calls, init, T, seed, fixed)
    for k in range(0, len(seq), n):
        cyc = seq[k:k + n]
        expect(cyc == seq[:len(cyc)], "cycle %r after cycle %r", cyc, seq[:n])
    if len(seq) >= n: expect(sorted(seq[:n]) == list(range(n)), "one cycle updates %r of 0..%d", seq[:n], n - 1)
    else: expect(len(set(seq)) == len(seq) and set(seq) <= set(range(n)), "updated %r", seq)


def reshuffled(present, links, order, init, T, seed, by_n):
    calls = []
    if by_n: rule = ntm.AsynchronousRule(rule_of(seed, calls, True), n=len(present), randomize_each_cycle=True)
    else: rule = ntm.AsynchronousRule(rule_of(seed, calls, True), update_order=list(order), randomize_each_cycle=True)
    seq = run(present, links, rule, calls, init, T, seed, True)
    expect(set(seq) <= set(order), "updated %r of %r", seq, order)


def reject():
    expect(raises(ntm.AsynchronousRule, lambda ctx: 0) is not None, "neither order nor n accepted")
    expect(raises(ntm.AsynchronousRule, lambda ctx: 0, randomize_each_cycle=True) is not None, "neither order nor n accepted")


KINDS = {"ordered": ordered, "from_n": from_n, "reshuffled": reshuffled, "reject": reject}


def systematic(tier):
    yield "reject", {}
    for n in (1, 2, 3):
        for pres in itertools.permutations(range(n)):
            for k in range(1, n + 1):
                for order in itertools.permutations(range(n), k):
                    yield "ordered", dict(present=list(pres), links=[[i, j] for i in range(n) for j in range(n)], order=list(order), init=[10 * i for i in range(n)], T=2 * k + 3, seed=1)
    for n in range(1, 6): yield "from_n", dict(n=n, links=[[i, i] for i in range(n)], init=[0] * n, T=3 * n + 2, seed=1)
    for by_n in (True, False):
        for n in (1, 2, 4): yield "reshuffled", dict(present=list(range(n)), links=[], order=list(range(n)), init=[0] * n, T=4 * n, seed=1, by_n=by_n)


def rand(rng):
    n = rng.size(1, 7, 30)
    links = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 2 * n))]
    seed, T = rng.randrange(10 ** 6), rng.size(2, 3 * n + 2, 80)
    x = rng.random()
    if x < 0.2: return "from_n", dict(n=n, links=links, init=[rng.randint(0, 3) for _ in range(n)], T=T, seed=seed, fixed=rng.random() < 0.3)
    labs = rng.choice([list(range(n)), rng.sample(range(100), n), ["n%d" % i for i in range(n)]])
    pres = list(labs); rng.shuffle(pres)
    order = rng.sample(labs, rng.randint(1, n) if rng.random() < 0.5 else n)
    init = [rng.randint(0, 3) for _ in range(n)]
    if x < 0.35:
        by_n = rng.random() < 0.5
        if by_n: pres = list(range(n)); order = list(range(n))
        return "reshuffled", dict(present=pres, links=links, order=order, init=init, T=T, seed=seed, by_n=by_n)
    return "ordered", dict(present=pres, links=links, order=order, init=init, T=T, seed=seed, fixed=rng.random() < 0.3, tup=rng.random() < 0.2)

"""random binary rules (tables, parity, elementary, label and time dependent) on rings and random networks: result against the XOR
equation, calls of the wrapped rule, and the reversed evolution"""
import netomaton as ntm
from harness import expect, canon
from sim import h


def mk(n, shape, seed):
    if shape == "ring": return ntm.topology.cellular_automaton(n)
    net = ntm.topology.disconnected(n)
    for i in range(n):
        for j in range(n):
            if h(seed, i, j) % 3 == 0: net.add_edge(j, i)
    return net


def rule_of(kind, seed, calls):
    def f(ctx):
        nb = canon(list(ctx.neighbourhood_activities))
        calls.append((ctx.timestep, ctx.node_label, canon(ctx.current_activity), nb, canon(dict(ctx.activities)), [canon(dict(p)) for p in ctx.past_activities]))
        if kind == "eca": return int(ntm.rules.nks_ca_rule(seed % 256)(ctx)) if len(nb) == 3 else sum(nb) % 2
        if kind == "label": return h(seed, ctx.node_label, nb) % 2
        return h(seed, nb) % 2
    return f


def evolve(n, shape, seed, kind, s0, s1, T, cls="ReversibleRule"):
    calls = []
    net = mk(n, shape, seed)
    tr = ntm.evolve(net, list(s1), ntm.ReversibleRule(rule_of(kind, seed, calls)), T, past_conditions=[list(s0)])
    states = [list(s0)] + [[canon(st.activities[i]) for i in range(n)] for st in tr]
    expect(len(states) == T + 1, "%d states", len(tr))
    expect(states[1] == list(s1), "first state %r", states[1])
    expect(len(calls) == n * (T - 1) and len({c[:2] for c in calls}) == len(calls), "the wrapped rule was called %d times, should be %d", len(calls), n * (T - 1))
    val = {}
    for t, l, cur, nb, acts, past in calls:
        expect(acts == dict(enumerate(states[t])) and cur == states[t][l], "context of node %r at %d", l, t)
        want = [states[t][j] for j in (net.rotation_system[l] if net.rotation_system else net.in_edges(l))]
        expect(nb == want, "neighbourhood of node %r at %d", l, t)
        expect(past == [dict(enumerate(states[t - 1]))], "past of node %r at %d is %r", l, t, past)
        if kind == "eca": v = (seed % 256) >> int("".join(map(str, nb)), 2) & 1 if len(nb) == 3 else sum(nb) % 2
        elif kind == "label": v = h(seed, l, nb) % 2
        else: v = h(seed, nb) % 2
        expect(states[t + 1][l] == v ^ states[t - 1][l], "node %r at %d is %r: rule %d, before %d", l, t, states[t + 1][l], v, states[t - 1][l])
    back = ntm.evolve(net, states[-2], ntm.ReversibleRule(rule_of(kind, seed, [])), T, past_conditions=[states[-1]])
    got = [states[-1]] + [[canon(st.activities[i]) for i in range(n)] for st in back]
    expect(got == states[::-1], "backwards the states are %r, should be %r", got, states[::-1])


def deep(n, seed, past, s1, T):
    """with more past conditions than one, the state two timesteps before is still the one used"""
    net = ntm.topology.cellular_automaton(n)
    tr = ntm.evolve(net, list(s1), ntm.ReversibleRule(lambda ctx: h(seed, canon(list(ctx.neighbourhood_activities))) % 2), T, past_conditions=[list(p) for p in past])
    st = [list(past[-1])] + [[canon(x.activities[i]) for i in range(n)] for x in tr]
    for t in range(1, len(st) - 1):
        for l in range(n):
            v = h(seed, [st[t][j] for j in net.rotation_system[l]]) % 2
            expect(st[t + 1][l] == v ^ st[t - 1][l], "%d past conditions: node %r at %d is %r: rule %d, before %d", len(past), l, t, st[t + 1][l], v, st[t - 1][l])


KINDS = {"evolve": evolve, "deep": deep}


def systematic(tier):
    for n in (3, 4):
        for b in range(0, 2 ** (2 * n), 1 if n == 3 else 5):
            bits = [b >> i & 1 for i in range(2 * n)]
            for kind in ("eca", "label"): yield "evolve", dict(n=n, shape="ring", seed=30 + b, kind=kind, s0=bits[:n], s1=bits[n:], T=4)


def rand(rng):
    if rng.random() < 0.3:
        n = rng.size(3, 6, 12); b = lambda: [rng.randint(0, 1) for _ in range(n)]
        return "deep", dict(n=n, seed=rng.randrange(10 ** 6), past=[b() for _ in range(rng.size(1, 4, 8))], s1=b(), T=rng.size(2, 6, 12))
    shape = rng.choice(["ring", "random"])
    n = rng.size(3, 8, 25) if shape == "ring" else rng.size(1, 8, 20)
    return "evolve", dict(n=n, shape=shape, seed=rng.randrange(10 ** 6), kind=rng.choice(["eca", "label", "hash"]), s0=[rng.randint(0, 1) for _ in range(n)],
                          s1=[rng.randint(0, 1) for _ in range(n)], T=rng.size(2, 8, 30))

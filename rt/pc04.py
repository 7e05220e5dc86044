"""past conditions of every length and form, also with topology rules, perturbation and memoization off: the past maps every
context holds"""
import sim
import netomaton as ntm
from harness import expect


def past(sc):
    rec, out = sim.run(sc)
    sim.cmp_calls(rec, out, ("label", "t", "past"))
    sim.cmp_acts(rec, out)


def accessor(n, m, t):
    """past_activity_of reads the last entry by default and any other by index"""
    past = [[100 * q + i for i in range(n)] for q in range(m)]
    seen = []
    def rule(ctx):
        ps = ctx.past_activities
        expect(len(ps) == m, "%d past entries instead of %d", len(ps), m)
        for l in range(n):
            expect(ctx.past_activity_of(l) == ps[-1][l], "past_activity_of default index")
            for q in range(m): expect(ctx.past_activity_of(l, q - m) == ps[q - m][l], "past_activity_of index")
        seen.append((ctx.timestep, [dict(p) for p in ps]))
        return 1000 * ctx.timestep + ctx.node_label
    tr = ntm.evolve(ntm.topology.disconnected(n), list(range(n)), rule, t, past_conditions=past)
    states = [dict(enumerate(p)) for p in past] + [{i: i for i in range(n)}] + [{i: 1000 * q + i for i in range(n)} for q in range(1, t)]
    for tt, ps in seen: expect(ps == states[tt - 1:tt - 1 + m], "past at timestep %d: %r", tt, ps)


KINDS = {"past": past, "accessor": accessor}


def systematic(tier):
    for m in (1, 2, 3, 5):
        for t in (2, 3, 6): yield "accessor", dict(n=2, m=m, t=t)


def rand(rng):
    sc = sim.gen(rng, past=rng.random() < 0.9)
    if rng.random() < 0.2: sc["compression"] = False
    return "past", dict(sc=sc)

"""random networks (multi-edges, self-loops, any labels), rotation systems, inputs, past, perturbation and update orders: every
context the rule sees and every resulting activity is compared with an independent reference evolution"""
import sim
from harness import expect, canon


def contexts(sc):
    rec, out = sim.run(sc)
    sim.cmp_calls(rec, out)
    sim.cmp_acts(rec, out)


KINDS = {"contexts": contexts}


def systematic(tier):
    base = dict(atype="int", m=3, timesteps=3, rule=dict(mode="full", seed=1))
    yield "contexts", dict(sc=dict(base, labels=[0], edges=[], init=[1]))
    yield "contexts", dict(sc=dict(base, labels=[0], edges=[[0, 0, {}]], init=[1]))
    yield "contexts", dict(sc=dict(base, labels=[0, 1], edges=[[0, 1, {}], [0, 1, {"weight": 2}], [1, 0, {}]], init=[1, 2], rotation=[1, 2]))


def rand(rng):
    return "contexts", dict(sc=sim.gen(rng, topo=rng.random() < 0.2, probe=True))

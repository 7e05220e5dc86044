"""random sequences of node additions and removals requested by rules (self-removal, removal of others, re-adding a removed label,
links to old and new nodes), with and without topology rule and perturbation: networks, activities and contexts of all timesteps"""
import sim
from harness import expect


def dynamic(sc):
    rec, out = sim.run(sc)
    sim.cmp_nets(rec, out)
    sim.cmp_acts(rec, out)
    sim.cmp_calls(rec, out, ("label", "t", "labels", "nb", "conn", "cur"))
    sim.cmp_same_nodes(rec)
    expect(rec["before"] == rec["after"], "the caller's network or initial conditions were altered")


KINDS = {"dynamic": dynamic}


def systematic(tier):
    base = dict(atype="int", m=3, timesteps=5, rule=dict(mode="full", seed=1), labels=[0, 1, 2], edges=[[0, 1, {"weight": 1}], [1, 2, {}], [2, 2, {}], [2, 0, {"weight": 3}], [0, 1, {}]], init=[1, 0, 2])
    for l in (0, 1, 2):
        for r in (0, 1, 2):
            yield "dynamic", dict(sc=dict(base, events=[[2, l, [["rm", r]]]]))
            yield "dynamic", dict(sc=dict(base, events=[[2, l, [["rm", r], ["add", r, 7, [[r, {"weight": 4}]]]]]]))
        yield "dynamic", dict(sc=dict(base, events=[[1, l, [["add", 9, 5, [[0, {"weight": 2}], [2, {"weight": 1, "x": 3}]]]]], [3, 9, [["rm", 9]]]]))
        yield "dynamic", dict(sc=dict(base, events=[[1, l, [["add", 9, 5, []]]]]))
        yield "dynamic", dict(sc=dict(base, events=[[1, l, [["add", 9, 5, []], ["add", 8, 4, [[9, {}]]]]], [2, 8, [["add", 7, 1, [[8, {}]]], ["rm", 9]]]]))


def rand(rng):
    sc = sim.gen(rng, n=rng.size(2, 6, 12), rotation=False, events=True, orders=False, topo=rng.random() < 0.2, topokind=rng.choice(["same", "inplace"]), tmax=12)
    return "dynamic", dict(sc=sc)

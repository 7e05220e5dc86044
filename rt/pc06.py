"""perturbed evolutions, with and without memoization, inputs, and nodes removing themselves: every call of the perturbation and
every resulting activity"""
import sim
from harness import expect


def pert(sc):
    rec, out = sim.run(sc)
    gone = {}
    for t, a, ops in sc.get("events", []):
        for o in ops:
            if o[0] == "rm" and o[1] != a: gone.setdefault(t, set()).add(o[1])
    f = lambda ps: sorted((p for p in ps if p["label"] not in gone.get(p["t"], ())), key=lambda p: (p["t"], repr(p["label"])))
    d = sim.first_diff(f(rec["pert"]), f(out["pert"]))
    expect(d is None, "perturbation calls: %s", d)
    sim.cmp_acts(rec, out)
    expect(rec["before"] == rec["after"], "initial state or network altered")


def cached(sc):
    """the cached results stay the rule's own: with memoization the perturbation gets the same activities as without"""
    rec0, out = sim.run(dict(sc, memoize=False))
    rec1, _ = sim.run(dict(sc, memoize=True))
    d = sim.first_diff(rec1["pert"], rec0["pert"])
    expect(d is None, "perturbation calls with memoization: %s", d)
    sim.cmp_acts(rec1, out)


KINDS = {"pert": pert, "cached": cached}


def systematic(tier):
    for memo in (False, True):
        for k in ("all", "some"):
            yield "pert", dict(sc=dict(atype="int", m=4, timesteps=6, rule=dict(mode="multiset", seed=2), labels=[0, 1, 2], edges=[[0, 1, {}], [1, 2, {}], [2, 0, {}]], init=[1, 0, 2],
                                       pert=dict(kind=k, seed=3), memoize=memo))


def rand(rng):
    if rng.random() < 0.4:
        sc = sim.gen(rng, mode="multiset", rotation=False, pert=True, topo=False, atype=rng.choice(["int", "str", "dig", "neg"]), tmax=20)
        return "cached", dict(sc=sc)
    sc = sim.gen(rng, pert=True, events=rng.random() < 0.5, topo=False)
    return "pert", dict(sc=sc)

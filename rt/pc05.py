"""memoized and plain evolutions of the same scenario (ordered, multiset and user keys): equal activities, at most one rule call per
distinct key"""
import copy
import sim
from netomaton import evolution as ev
from harness import expect


def memo(sc):
    rec0, out = sim.run(dict(sc, memoize=False))
    rec1, _ = sim.run(dict(sc, memoize=True))
    sim.cmp_acts(rec1, out)
    for a, b in zip(rec0["traj"], rec1["traj"]):
        expect(sim.state_acts(a) == sim.state_acts(b), "memoized activities differ: %r, should be %r", sim.state_acts(b), sim.state_acts(a))
    if sc.get("userkey"): key = lambda c: (c["cur"], tuple(c["nb"]))
    elif sc.get("rotation"): key = lambda c: tuple(c["nb"])
    else: key = lambda c: tuple(sorted(map(repr, c["nb"])))
    ks = [key(c) for c in rec1["calls"]]
    expect(len(ks) == len(set(ks)), "the rule was called twice for the same key")
    want = {key(c) for c in out["calls"]}
    expect(set(ks) == want, "the rule was not called for some keys")


KINDS = {"memo": memo}


def systematic(tier):
    ring = [[(i + d) % 5, i, {}] for i in range(5) for d in (-1, 0, 1)]
    for mode, rot in (("ordered", [1, 2, 3, 4, 5]), ("multiset", None)):
        for at in ("int", "str", "dig", "alike"):
            for seed in range(3):
                yield "memo", dict(sc=dict(atype=at, m=8, timesteps=8, rule=dict(mode=mode, seed=seed), labels=list(range(5)), edges=ring, rotation=rot,
                                           init=[sim.value(at, 8, i * i + seed) for i in range(5)]))


def rand(rng):
    k = rng.choice(["ordered", "multiset", "keyed"])
    sc = sim.gen(rng, mode=k, rotation=k == "ordered", topo=k != "ordered" and rng.random() < 0.3, topokind=rng.choice(["same", "inplace", "fresh"]), tmax=25,
                 atype=rng.choice(["int", "str", "dig", "neg", "float", "tuple", "alike"]))
    if k == "keyed": sc["userkey"] = True
    return "memo", dict(sc=sc)

"""timesteps and input lists/functions of all item shapes: number of states, step numbers, the node inputs and the arguments of
the input function are compared with the reference; the rejections are checked"""
import sim, copy
import netomaton as ntm
from harness import expect, canon, raises


def inputs(sc):
    rec, out = sim.run(sc)
    expect(len(rec["traj"]) == len(out["acts"]), "%d states instead of %d", len(rec["traj"]), len(out["acts"]))
    if "timesteps" in sc and not sc.get("input"): expect(len(rec["traj"]) == sc["timesteps"], "not exactly T states")
    expect(sim.state_acts(rec["traj"][0]) == out["acts"][0], "the first state is not the initial one: %r", sim.state_acts(rec["traj"][0]))
    sim.cmp_calls(rec, out, ("label", "t", "input"))
    ts = [c["t"] for c in rec["calls"]]
    expect(ts == sorted(ts), "timesteps out of order: %s", ts)
    d = sim.first_diff(rec["input"], out["input"])
    expect(d is None, "calls of the input function: %s", d)
    sim.cmp_acts(rec, out)


def neither(n):
    net = ntm.topology.disconnected(n)
    expect(raises(ntm.evolve, net, [0] * n, lambda c: 0) is not None, "neither timesteps nor input is accepted")


def mismatch(n, k, form, t):
    net = ntm.topology.disconnected(n)
    ini = [0] * k if form == "list" else {i: 0 for i in range(k)} if form == "dict" else None
    e = raises(ntm.evolve, net, ini, lambda c: 0, t)
    k = k if form != "none" else 0
    expect((e is not None) == (k != n), "%d nodes, %d initial activities: %s", n, k, e)


def anyrule(n, t):
    """without a rule the number of activities is free"""
    tr = ntm.evolve(ntm.topology.disconnected(n), timesteps=t)
    expect(len(tr) == t, "%d states instead of %d", len(tr), t)


KINDS = {"inputs": inputs, "neither": neither, "mismatch": mismatch, "anyrule": anyrule}


def systematic(tier):
    for n in (1, 2, 3): yield "neither", dict(n=n)
    for n in (1, 2, 3, 5):
        for k in (0, 1, 2, 3, 4, 5, 6):
            for f in ("list", "dict"):
                yield "mismatch", dict(n=n, k=k, form=f, t=2)
        yield "mismatch", dict(n=n, k=0, form="none", t=2)
        for t in (1, 2, 3): yield "anyrule", dict(n=n, t=t)
    base = dict(atype="int", m=3, rule=dict(mode="full", seed=1), labels=[0, 1, 2], edges=[[0, 1, {}], [1, 2, {}]], init=[1, 0, 2])
    for t in (1, 2, 3, 4, 8): yield "inputs", dict(sc=dict(base, timesteps=t))
    for item in ("scalar", "zero", "list", "tuple", "str", "dict"):
        for form in ("list", "fn"):
            for ln in (0, 1, 3):
                for ts in (None, 2):
                    sc = dict(base, input=dict(form=form, len=ln, seed=4, item=item))
                    if ts: sc["timesteps"] = ts
                    yield "inputs", dict(sc=sc)


def rand(rng):
    return "inputs", dict(sc=sim.gen(rng, input=rng.random() < 0.8, lk="int" if rng.random() < 0.6 else None, tmax=40))

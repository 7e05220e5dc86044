"""the three update orders with topology rules that change the network in place, return new networks or the same one: contexts of
both rules, activities and networks of every timestep against the equations; rejections"""
import sim
import netomaton as ntm
from netomaton import evolution as ev
from harness import expect, raises


def orders(sc):
    rec, out = sim.run(sc)
    d = sim.first_diff(rec["topo"], out["topo"])
    expect(d is None, "topology rule calls: %s", d)
    sim.cmp_calls(rec, out)
    sim.cmp_acts(rec, out)
    sim.cmp_nets(rec, out)
    if not sc.get("topo"):
        for st in rec["traj"]: expect(sim.snap(st.network) == rec["before"][0], "the network changed without a topology rule")


def badorder(v, topo):
    net = ntm.topology.complete(2)
    o = [None, 4, "ACTIVITIES_FIRST", 1, 0][v]
    e = raises(ntm.evolve, net, [0, 1], lambda c: 0, 3, update_order=o, topology_rule=(lambda c: c.network) if topo else None)
    expect(e is not None, "update order %r is accepted", o)


def nonetwork(sc):
    e = raises(sim.run, sc)
    expect(e is not None and not isinstance(e, AssertionError), "a topology rule that returns no network is accepted: %s", e)


def recorded(order, rot):
    """whatever network the rule returns is the one recorded (and used next)"""
    made, seen = [], []
    def topo(ctx):
        seen.append(ctx.network)
        n = ntm.topology.complete(3)
        if rot: n.rotation_system = {0: [2, 1], 1: [0, 2], 2: [1, 0]}
        made.append(n); return n
    nbs = []
    def rule(ctx): nbs.append((ctx.timestep, ctx.node_label, list(ctx.neighbour_labels))); return 0
    tr = ntm.evolve(ntm.topology.disconnected(3), [0, 0, 0], rule, 4, topology_rule=topo, update_order=getattr(ev.UpdateOrder, order), copy_network=False)
    expect([s.network for s in tr[1:]] == made and all(s.network is m for s, m in zip(tr[1:], made)), "recorded network is not the returned one")
    expect(all(a is b for a, b in zip(seen[1:], made)), "the returned network is not used next")
    for t, l, ns in nbs:
        has = t > 1 or order == "TOPOLOGY_FIRST"
        want = {0: [2, 1], 1: [0, 2], 2: [1, 0]}[l] if rot else {0: [1, 2], 1: [0, 2], 2: [0, 1]}[l]
        expect(ns == (want if has else []), "neighbours %r at t=%d", ns, t)


KINDS = {"orders": orders, "badorder": badorder, "nonetwork": nonetwork, "recorded": recorded}


def systematic(tier):
    for v in range(5):
        for topo in (False, True): yield "badorder", dict(v=v, topo=topo)
    for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS"):
        for rot in (False, True): yield "recorded", dict(order=o, rot=rot)
        base = dict(atype="int", m=3, timesteps=5, rule=dict(mode="full", seed=1), labels=[0, 1, 2], edges=[[0, 1, {}], [1, 2, {}]], init=[1, 0, 2], order=o)
        yield "orders", dict(sc=base)
        for at in (1, 2, 4): yield "nonetwork", dict(sc=dict(base, topo=dict(kind="none_at", at=at, seed=3)))
        for k in ("inplace", "fresh", "fresh_rot", "same"):
            for seed in (1, 2): yield "orders", dict(sc=dict(base, topo=dict(kind=k, seed=seed)))


def rand(rng):
    sc = sim.gen(rng, topo=rng.random() < 0.85, orders=True)
    if sc["labels"] and rng.random() < 0.1: sc["norule"] = False
    return "orders", dict(sc=sc)

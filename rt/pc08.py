"""evolutions with topology rules that modify the network they are given, and with added and removed nodes: every recorded network
and activity map against the reference history, and the caller's objects; Network.copy: equality and independence under random
later operations"""
import copy
import sim
import netomaton as ntm
from harness import expect, canon


def history(sc):
    rec, out = sim.run(sc)
    sim.cmp_acts(rec, out)
    sim.cmp_nets(rec, out, skip=sc.get("persist_network") is False)
    expect(rec["before"] == rec["after"], "the caller's network or initial conditions were altered")
    ids = [id(s.activities) for s in rec["traj"] if s.activities is not None]
    if not sc.get("compression"): expect(len(ids) == len(set(ids)), "two states share their activities")


def ops_on(net, ops, L):
    for o in ops:
        a, b = L[o[1] % len(L)], L[o[2] % len(L)]
        if o[0] == "edge": net.add_edge(a, b, weight=o[3])
        elif o[0] == "rem" and net.has_edge(a, b): net.remove_edge(a, b)
        elif o[0] == "upd" and net.has_edge(a, b): net.update_edge(a, b, weight=o[3], z=1)
        elif o[0] == "node": net.add_node(a, tag=o[3])
        elif o[0] == "del" and a in net.nodes: net.remove_node(a)
        elif o[0] == "attr" and a in net.nodes: net[a]["deep"] = [o[3]]


def copying(sc, ops, which):
    net, ref = sim.build(sc)
    for l in list(net.nodes)[:2]: net[l]["data"] = [1, {"k": 2}]
    s0 = sim.snap(net)
    e0 = [[i, j, dict(a)] for i, j, a in net.edges]
    c = net.copy()
    expect(sim.snap(c) == s0, "the copy differs: %r from %r", sim.snap(c), s0)
    expect(c == net and [[i, j, dict(a)] for i, j, a in c.edges] == e0 and list(c.nodes) == list(net.nodes), "the copy is not equal")
    expect(all(c.degree(l) == net.degree(l) for l in net.nodes), "degrees")
    expect(all(c[l]["outgoing"] == net[l]["outgoing"] for l in net.nodes), "outgoing lists")
    a, b = (net, c) if which else (c, net)
    L = list(net.nodes)
    ops_on(a, ops, L)
    if L and L[0] in a.nodes and "data" in a[L[0]]: a[L[0]]["data"].append(5); a[L[0]]["data"][1]["k"] = 9
    expect(sim.snap(b) == s0, "changing %s changed %s", "the original" if which else "the copy", "the copy" if which else "the original")
    expect([[i, j, dict(x)] for i, j, x in b.edges] == e0, "edges changed")


def copy_rotation(n):
    """the neighbour order given by a rotation system is kept by a copy"""
    net = ntm.topology.cellular_automaton(n, ordered=True) if False else ntm.topology.cellular_automaton(n)
    net.rotation_system = {i: [(i + 1) % n, i, (i - 1) % n] for i in range(n)}
    expect(net.copy().rotation_system == net.rotation_system, "a copy has no rotation system")


KINDS = {"history": history, "copying": copying, "copy_rotation": copy_rotation}


def systematic(tier):
    for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS"):
        for seed in range(4):
            yield "history", dict(sc=dict(atype="int", m=3, timesteps=7, rule=dict(mode="full", seed=1), labels=[0, 1, 2], edges=[[0, 1, {"weight": 1}], [1, 2, {}], [2, 2, {}]], init=[1, 0, 2],
                                          order=o, topo=dict(kind="inplace", seed=seed, ops=3)))


def rand(rng):
    x = rng.random()
    if x < 0.4:
        sc = sim.gen(rng, rotation=False, topo=False)
        ops = [[rng.choice(["edge", "rem", "upd", "node", "del", "attr"]), rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9)] for _ in range(rng.randint(1, 6))]
        return "copying", dict(sc=sc, ops=ops, which=rng.random() < 0.5)
    sc = sim.gen(rng, rotation=False, topo=rng.random() < 0.8, topokind="inplace" if rng.random() < 0.8 else None, events=rng.random() < 0.3, orders=rng.random() < 0.6)
    if sc.get("events") and sc.get("topo") and sc["topo"]["kind"] == "fresh_rot": sc["topo"]["kind"] = "inplace"
    sc["copy_network"] = True
    if rng.random() < 0.3: sc["persist_network"] = False
    if rng.random() < 0.3: sc["compression"] = True; sc["atype"] = "int"; sc["init"] = [i % 3 for i in range(len(sc["init"]))]; sc.pop("past", None); sc.pop("init_form", None)
    return "history", dict(sc=sc)

"""the same scenario with every combination of compression and persistence: contexts, activities and networks against the reference;
compress/decompress round trips of networks and activity maps"""
import sim
import netomaton as ntm
from netomaton.state import _Compressor, State
from harness import expect, canon


def options(sc, compression, pa, pn):
    rec, out = sim.run(dict(sc, compression=compression, persist_activities=pa, persist_network=pn))
    sim.cmp_calls(rec, out)
    d = sim.first_diff(rec["topo"], out["topo"]); expect(d is None, "topology calls: %s", d)
    tr = rec["traj"]
    expect(len(tr) == len(out["acts"]), "number of states")
    for t, st in enumerate(tr):
        a, n = st.activities, st.network
        if pa or t == 0: expect(a is not None and canon(dict(a)) == out["acts"][t], "activities at %d: %r, should be %r", t, a, out["acts"][t])
        else: expect(not a, "activities persisted at %d", t)
        if pn or t == 0:
            expect(n is not None and sim.snap(n) == out["nets"][t], "network at %d", t)
        else: expect(n is None, "network persisted at %d", t)
        if a is not None and pa: expect(canon(dict(st.activities)) == canon(dict(a)), "reading twice differs")


def roundtrip(sc):
    net, ref = sim.build(sc)
    n2 = ntm.Network.decompress(net.compress())
    expect(n2 == net and sim.snap(n2) == sim.snap(net) and [[i, j, dict(a)] for i, j, a in n2.edges] == [[i, j, dict(a)] for i, j, a in net.edges], "network changed by compression")
    expect(all(n2[l]["outgoing"] == net[l]["outgoing"] for l in net.nodes), "outgoing")
    acts = {l: v for l, v in zip(sc["labels"], sc["init"])}
    expect(_Compressor.decompress(_Compressor.compress(acts)) == acts, "activities changed by compression")
    st = State(activities=acts, network=net, compression=True)
    expect(st.activities == acts and sim.snap(st.network) == sim.snap(net), "state changed by compression")
    expect(list(st.activities) == list(acts), "order of activities changed by compression")


KINDS = {"options": options, "roundtrip": roundtrip}


def systematic(tier):
    sc = dict(atype="int", m=3, timesteps=5, rule=dict(mode="full", seed=1), labels=[0, 1, 2], edges=[[0, 1, {"weight": 1}], [1, 2, {}], [2, 2, {}]], init=[1, 0, 2])
    for c in (False, True):
        for pa in (False, True):
            for pn in (False, True):
                for x in ({}, {"topo": dict(kind="inplace", seed=2)}, {"topo": dict(kind="fresh", seed=2), "order": "TOPOLOGY_FIRST"}, {"pert": dict(kind="all", seed=1)}):
                    yield "options", dict(sc=dict(sc, **x), compression=c, pa=pa, pn=pn)


def rand(rng):
    at = rng.choice(["int", "str", "float", "list", "neg", "ffloat", "ffloat", "odd", "alike"])
    sc = sim.gen(rng, atype=at, rotation=rng.random() < 0.2, topo=rng.random() < 0.4, events=rng.random() < 0.25)
    if sc.get("init_form") == "np": sc["init_form"] = "list"
    if sc.get("topo") and sc["topo"]["kind"] == "fresh_rot": sc["topo"]["kind"] = "fresh"
    if rng.random() < 0.3: return "roundtrip", dict(sc=sc)
    pa = rng.random() < 0.5
    if not pa: sc.pop("past", None)
    return "options", dict(sc=sc, compression=rng.random() < 0.7, pa=pa, pn=rng.random() < 0.5)

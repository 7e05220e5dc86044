"""An independent reference semantics of evolve (networks, contexts, update orders, memoization, perturbation, past,
input, node addition and removal), run next to the real one on the same scenario."""
import copy, json, zlib
from collections import Counter
import numpy as np
import netomaton as ntm
from netomaton import evolution as ev
from harness import expect, canon, Bad


class RefNet:
    def __init__(self): self.nodes, self.inc, self.rotation = {}, {}, None
    def copy(self):
        n = RefNet()
        n.nodes, n.inc = copy.deepcopy(self.nodes), copy.deepcopy(self.inc)
        return n
    def add_node(self, l, **attr):
        self.nodes.setdefault(l, {}); self.inc.setdefault(l, {})
        self.nodes[l].update(attr)
    def add_edge(self, i, j, **attr):
        for x in (i, j):
            self.nodes.setdefault(x, {}); self.inc.setdefault(x, {})
        self.inc[j].setdefault(i, []).append(dict(attr))
    def remove_node(self, l):
        del self.nodes[l]; del self.inc[l]
        for j in self.inc: self.inc[j].pop(l, None)
    def remove_edge(self, i, j): del self.inc[j][i]
    def has_edge(self, i, j): return j in self.inc and i in self.inc[j]
    def indeg(self, l): return sum(len(v) for v in self.inc[l].values())
    def outdeg(self, l): return sum(len(self.inc[j].get(l, [])) for j in self.inc)
    def snap(self):
        return [[l, self.nodes[l], [[i, v] for i, v in self.inc[l].items()], self.indeg(l), self.outdeg(l)] for l in self.nodes]


def snap(net):
    """the observable content of a real network, in the shape of RefNet.snap"""
    r = []
    for l in net.nodes:
        d = net[l]
        attrs = {k: v for k, v in d.items() if k not in ("in", "out", "incoming", "outgoing")}
        r.append([l, copy.deepcopy(attrs), [[i, copy.deepcopy(v)] for i, v in net.in_edges(l).items()], net.in_degree(l), net.out_degree(l)])
    return r


def h(*xs): return zlib.crc32(repr(xs).encode())


def value(atype, m, x):
    x = x % m
    if atype == "int": return x
    if atype == "neg": return x - m // 2
    if atype == "str": return ["a", "aa", "b", "ab", "ba", "bb", "c", "ca"][x % 8]
    if atype == "float": return x / 4.0
    if atype == "np": return np.int64(x)
    if atype == "list": return [x, (x * 7 + 1) % m]
    if atype == "dig": return [1, 11, 111, 2, 21, 12, 0, 10][x % 8]
    if atype == "odd": return [None, 0, "", 1, 0.1, "a", -1, 2 ** 33][x % 8]
    if atype == "ffloat": return [0.1, 1 / 3, 1e-9, -2.7, 1e300, 0.0, 3.0000001, 16777217.0][x % 8]
    if atype == "alike": return [1, "1", 0, "0", "True", "None", 2, "2"][x % 8]
    if atype == "tuple": return (x, (x * 5) % m)
    raise ValueError(atype)


def rule_value(sc, c):
    """the value of the activity rule for a (canonical) context"""
    mode, seed = sc["rule"]["mode"], sc["rule"]["seed"]
    nb = c["nb"]
    if mode == "ordered": x = h(seed, nb)
    elif mode == "multiset": x = h(seed, sorted(nb, key=repr))
    elif mode == "keyed": x = h(seed, c["cur"], nb)
    elif mode == "label": x = h(seed, c["label"], nb)
    else: x = h(seed, c["label"], c["t"], c["cur"], nb, c["labels"], c["conn"], c["past"], c["input"])
    return value(sc["atype"], sc["m"], x)


def build(sc):
    """the real network and its reference"""
    net, ref = ntm.Network(), RefNet()
    L = sc["labels"]
    for l, a in zip(L, sc.get("nattrs") or [{}] * len(L)): net.add_node(l, **a); ref.add_node(l, **a)
    for i, j, a in sc["edges"]: net.add_edge(L[i], L[j], **a); ref.add_edge(L[i], L[j], **a)
    if sc.get("rotation"):
        rot = {}
        for l, s in zip(L, sc["rotation"]):
            srcs = list(ref.inc[l])
            if s % 4 == 3 and l not in srcs: srcs.append(l)      # a rotation system may list the node itself without a link to itself
            rot[l] = [srcs[k] for k in _perm(len(srcs), s)]
        if sc.get("rot_tuple"): rot = {k: tuple(v) for k, v in rot.items()}
        net.rotation_system = rot
        ref.rotation = copy.deepcopy(rot)
    return net, ref


def _perm(n, seed):
    idx = list(range(n)); r = seed
    for i in range(n - 1, 0, -1):
        r = (r * 1103515245 + 12345) & 0x7fffffff
        j = (r >> 8) % (i + 1)
        idx[i], idx[j] = idx[j], idx[i]
    return idx


def topo_plan(sc, t, acts, nodes, has):
    """the operations a topology rule performs, decided by the timestep and the activities"""
    ops = []
    seed = sc["topo"]["seed"]
    nodes = list(nodes)
    for q in range(sc["topo"].get("ops", 2)):
        x = h(seed, t, q, sorted(((repr(k), repr(v)) for k, v in acts.items())))
        i, j = nodes[x % len(nodes)], nodes[(x // 31) % len(nodes)]
        if has(i, j) and (x // 7) % 2: ops.append(("rem", i, j))
        elif has(i, j) and (x // 7) % 3 == 0: ops.append(("upd", i, j, {"weight": x % 9}))
        else: ops.append(("add", i, j, {"weight": x % 5}))
        # a later operation sees the earlier ones only through has(): keep to one operation per pair
        if len({o[1:3] for o in ops}) < len(ops): ops.pop()
    return ops


def apply_ops(net, ops):
    for o in ops:
        if o[0] == "add": net.add_edge(o[1], o[2], **o[3])
        elif o[0] == "rem": net.remove_edge(o[1], o[2])
        elif isinstance(net, RefNet):
            for e in net.inc[o[2]][o[1]]: e.update(o[3])
        else: net.update_edge(o[1], o[2], **o[3])


def input_value(sc, t, acts, n):
    """the item of timestep t (>= 1), or None"""
    s = sc["input"]
    if s["form"] == "fn" and t > s["len"]: return None
    x = h(s["seed"], t)
    k = s["item"]
    if k == "list": return [x % 7 + i for i in range(n)]
    if k == "tuple": return tuple(x % 7 + i for i in range(n))
    if k == "str": return "".join("abcdefghijklmnopqrstuvwxyz"[(x + i) % 26] for i in range(n))
    if k == "zero": return 0
    if k == "falsy": return [False, 0.0, {}, 0, set()][x % 5]
    if k == "dict": return {"v": x % 5}
    if k == "acts": return [v for v in acts.values()][0]
    return x % 11


class Key(ev.MemoizationKey):
    def to_key(self, ctx): return (ctx.current_activity, tuple(ctx.neighbourhood_activities))


def conn(d): return [[k, [dict(a) for a in v]] for k, v in d.items()]


def scenario_args(sc, rec):
    """arguments of the real evolve, recording what the rules see"""
    net, ref = build(sc)
    L = sc["labels"]
    init = {L[i]: copy.deepcopy(sc["init"][i]) for i in sc.get("init_order", range(len(L)))}
    if sc.get("init_form") == "list": ini = list(copy.deepcopy(sc["init"]))
    elif sc.get("init_form") == "np": ini = np.array(sc["init"])
    else: ini = init
    events = {(e[0], e[1]): e[2] for e in sc.get("events", [])}
    def rule(ctx):
        c = dict(label=ctx.node_label, t=ctx.timestep, cur=canon(ctx.current_activity), nb=canon(list(ctx.neighbourhood_activities)), labels=list(ctx.neighbour_labels),
                 conn=sorted(conn(ctx.connection_states), key=repr), past=[canon(dict(p)) for p in ctx.past_activities] if ctx.past_activities is not None else None,
                 input=canon(ctx.input), acts=canon(dict(ctx.activities)))
        c = copy.deepcopy(c)
        rec["calls"].append(c)
        if sc.get("probe"):
            for l in c["labels"]: expect(canon(ctx.activity_of(l)) == c["acts"][l], "activity_of")
        for op in events.get((ctx.timestep, ctx.node_label), []):
            if op[0] == "rm": ctx.remove_node(op[1])
            else: ctx.add_node(copy.deepcopy(op[2]), {k: v for k, v in op[3]}, op[1])
        return rule_value(sc, dict(c, past=repr(c["past"])))
    def topo(ctx):
        rec["topo"].append(dict(t=ctx.timestep, acts=copy.deepcopy(canon(dict(ctx.activities))), net=snap(ctx.network)))
        ops = topo_plan(sc, ctx.timestep, canon(dict(ctx.activities)), ctx.network.nodes, ctx.network.has_edge)
        if sc["topo"]["kind"] == "none_at" and ctx.timestep == sc["topo"]["at"]: return None
        if sc["topo"]["kind"] in ("inplace", "none_at"):
            apply_ops(ctx.network, ops); return ctx.network
        if sc["topo"]["kind"] == "same": return ctx.network
        n = ntm.Network()
        for l in ctx.network.nodes: n.add_node(l)
        for i, j, a in ctx.network.edges: n.add_edge(i, j, **a)
        apply_ops(n, ops)
        if sc["topo"]["kind"] == "fresh_rot": n.rotation_system = {l: list(n.in_edges(l))[::-1] for l in n.nodes}
        return n
    def pert(pc):
        rec["pert"].append(dict(label=pc.node_label, act=canon(copy.deepcopy(pc.node_activity)), t=pc.timestep, input=canon(pc.input)))
        return pert_value(sc, pc.node_label, canon(pc.node_activity), pc.timestep, canon(pc.input))
    kw = dict(network=net, initial_conditions=ini, activity_rule=rule if not sc.get("norule") else None)
    if "timesteps" in sc: kw["timesteps"] = sc["timesteps"]
    if sc.get("input"):
        n = len(L)
        if sc["input"]["form"] == "fn":
            def infn(t, acts, network):
                rec["input"].append(dict(t=t, acts=copy.deepcopy(canon(dict(acts))), net=snap(network)))
                return input_value(sc, t, canon(dict(acts)), n)
            kw["input"] = infn
        else:
            kw["input"] = [input_value(sc, t, {}, n) for t in range(1, sc["input"]["len"] + 1)]
    if sc.get("topo"): kw["topology_rule"] = topo
    if sc.get("pert"): kw["perturbation"] = pert
    if sc.get("past"):
        f = sc.get("past_form", "dict")
        kw["past_conditions"] = [list(p) if f == "list" else np.array(p) if f == "np" else {l: v for l, v in zip(L, p)} for p in sc["past"]]
    if sc.get("order"): kw["update_order"] = getattr(ev.UpdateOrder, sc["order"], sc["order"])
    for k in ("copy_network", "compression", "persist_activities", "persist_network", "memoize"):
        if k in sc: kw[k] = sc[k]
    if sc.get("userkey"): kw["memoization_key"] = Key()
    return kw, ref, {L[i]: canon(copy.deepcopy(sc["init"][i])) for i in sc.get("init_order", range(len(L)))}


def pert_value(sc, label, act, t, inp):
    p = sc["pert"]
    x = h(p["seed"], label, t, repr(inp))
    if p["kind"] == "some" and x % 3: return act
    if p["kind"] == "id": return act
    return value(sc["atype"], sc["m"], h(x, repr(act)))


def reference(sc, ref, init):
    """what must happen: calls, topology calls, perturbations, activities and networks of every state"""
    L = sc["labels"]
    out = dict(calls=[], topo=[], pert=[], input=[], acts=[init], nets=[ref.snap()])
    net, acts = ref, init
    hist = [init]
    events = {(e[0], e[1]): e[2] for e in sc.get("events", [])}
    past_c = [{l: canon(v) for l, v in zip(L, p)} for p in sc["past"]] if sc.get("past") else None
    order = sc.get("order") or "ACTIVITIES_FIRST"
    t = 1
    memo = {}
    def topology(net, acts, t):
        if not sc.get("topo"): return net
        out["topo"].append(dict(t=t, acts=acts, net=net.snap()))
        ops = topo_plan(sc, t, acts, net.nodes, net.has_edge)
        kind = sc["topo"]["kind"]
        n = net.copy()
        if sc["topo"]["kind"].startswith("fresh"):
            m = RefNet()
            for l in n.nodes: m.add_node(l)
            for j in n.inc:
                for i in n.inc[j]:
                    for a in n.inc[j][i]: m.add_edge(i, j, **a)
            n = m
        if kind != "same": apply_ops(n, ops)
        elif not sc.get("copy_network", True): n.rotation = net.rotation
        if kind == "fresh_rot": n.rotation = {l: list(n.inc[l])[::-1] for l in n.nodes}
        return n
    def activity(net, acts, t, inp):
        new, added, removed = {}, [], []
        if sc.get("norule"): return new, added, removed
        for l in net.nodes:
            labels = list(net.rotation[l]) if net.rotation is not None else list(net.inc[l])
            if inp is NOINPUT: x = None
            elif isinstance(inp, (list, tuple, str)): x = inp[l]
            else: x = inp
            c = dict(label=l, t=t, cur=acts[l], nb=[acts[q] for q in labels], labels=labels, conn=sorted(conn(net.inc[l]), key=repr),
                     past=[past_c[len(past_c) + k] if k < 0 else hist[k] for k in range(t - 1 - len(past_c), t - 1)] if past_c else None, input=x, acts=acts)
            c = copy.deepcopy(c)
            out["calls"].append(c)
            v = canon(rule_value(sc, dict(c, past=repr(c["past"]))))
            evs = events.get((t, l), [])
            gone = [o[1] for o in evs if o[0] == "rm"]
            removed += gone
            added += [(o[2], o[3], o[1]) for o in evs if o[0] == "add"]
            if l not in gone:
                if sc.get("pert"):
                    out["pert"].append(dict(label=l, act=v, t=t, input=x))
                    v = canon(pert_value(sc, l, v, t, x))
                new[l] = v
        for l in removed: new.pop(l, None)
        for s, links, l in added: new[l] = canon(copy.deepcopy(s))
        return new, added, removed
    while True:
        if sc.get("input"):
            if sc["input"]["form"] == "fn":
                out["input"].append(dict(t=t, acts=acts, net=net.snap()))
                inp = input_value(sc, t, acts, len(L))
            else: inp = input_value(sc, t, {}, len(L)) if t <= sc["input"]["len"] else None
            if inp is None: break
        else:
            if t == sc["timesteps"]: break
            inp = NOINPUT
        if order == "ACTIVITIES_FIRST":
            new, added, removed = activity(net, acts, t, inp)
            nn = net
            if added or removed:
                nn = net.copy()
                for l in removed: nn.remove_node(l)
                for s, links, l in added:
                    nn.add_node(l, activity=canon(copy.deepcopy(s)))
                    for tgt, a in links: nn.add_edge(l, tgt, **a)
            nn = topology(nn, new, t)
        elif order == "TOPOLOGY_FIRST":
            nn = topology(net, acts, t)
            new, _, _ = activity(nn, acts, t, inp)
        else:
            nn = topology(net, acts, t)
            new, _, _ = activity(net, acts, t, inp)
        net, acts = nn, new
        hist.append(new)
        out["acts"].append(new); out["nets"].append(net.snap())
        t += 1
        if t > 400: raise Bad("reference does not stop")
    return out


class _No: pass
NOINPUT = _No()


def run(sc):
    """(real record, reference record): the trajectory is read after the run"""
    rec = dict(calls=[], topo=[], pert=[], input=[])
    kw, ref, init = scenario_args(sc, rec)
    net0 = kw["network"]
    before = snap(net0), copy.deepcopy(canon(kw["initial_conditions"])), copy.deepcopy(net0.rotation_system)
    traj = ntm.evolve(**kw)
    rec["traj"] = traj
    rec["before"], rec["after"] = before, (snap(net0), canon(kw["initial_conditions"]), net0.rotation_system)
    return rec, reference(sc, ref, init)


def by_node(calls): return sorted(calls, key=lambda c: (c["t"], repr(c["label"])))


def first_diff(a, b):
    if len(a) != len(b): return "%d instead of %d entries" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                ks = [k for k in y if x.get(k) != y[k]]
                return "entry %d (t=%s, node %s): %s" % (i, y.get("t"), y.get("label"), "; ".join("%s is %r, should be %r" % (k, x.get(k), y[k]) for k in ks[:3]))
            return "entry %d is %r, should be %r" % (i, x, y)
    return None


def cmp_calls(rec, out, keys=None):
    pick = (lambda c: {k: c[k] for k in keys}) if keys else (lambda c: c)
    d = first_diff([pick(c) for c in by_node(rec["calls"])], [pick(c) for c in by_node(out["calls"])])
    expect(d is None, "rule calls: %s", d)


def state_acts(st):
    a = st.activities
    return canon(dict(a)) if a is not None else None


def cmp_acts(rec, out):
    tr = rec["traj"]
    expect(len(tr) == len(out["acts"]), "%d states instead of %d", len(tr), len(out["acts"]))
    for t, (st, a) in enumerate(zip(tr, out["acts"])):
        expect((state_acts(st) or {}) == a, "activities of timestep %d are %r, should be %r", t, state_acts(st), a)


def cmp_nets(rec, out, skip=False):
    tr = rec["traj"]
    expect(len(tr) == len(out["nets"]), "%d states instead of %d", len(tr), len(out["nets"]))
    for t, (st, n) in enumerate(zip(tr, out["nets"])):
        if skip and t: continue
        s = snap(st.network) if st.network is not None else None
        expect(s == n, "network of timestep %d is %r, should be %r", t, s, n)


def cmp_same_nodes(rec):
    for t, st in enumerate(rec["traj"]):
        if st.network is not None and st.activities is not None:
            expect(set(st.activities) == set(st.network.nodes), "activities and network of timestep %d have different nodes", t)


# ---------------------------------------------------------------- scenario generation
def gen(rng, **want):
    """a random scenario; `want` fixes or biases features"""
    n = want.get("n") or rng.size(1, 6, 24)
    lk = want.get("lk") or rng.choice(["int", "int", "off", "str", "mixed"])
    if lk == "int": labels = list(range(n))
    elif lk == "off": labels = [3 + 2 * i for i in range(n)]; rng.shuffle(labels)
    elif lk == "str": labels = ["n%d" % i for i in range(n)]; rng.shuffle(labels)
    elif lk == "rev": labels = list(range(n)); rng.shuffle(labels)
    else: labels = [i if i % 2 else "s%d" % i for i in range(n)]; rng.shuffle(labels)
    edges = []
    dens = rng.choice([0.15, 0.35, 0.7])
    for i in range(n):
        for j in range(n):
            if rng.random() < dens:
                for _ in range(1 if rng.random() < 0.8 else rng.randint(2, 3)):
                    a = {}
                    if rng.random() < 0.7: a["weight"] = rng.choice([1, 2, 0, 0.5, -1, 0.1])
                    if rng.random() < 0.2: a["label"] = "e%d" % rng.randint(0, 3)
                    edges.append([i, j, a])
    rng.shuffle(edges)
    atype = want.get("atype") or rng.choice(["int", "int", "str", "float", "np", "neg", "dig", "odd", "ffloat"])
    m = rng.choice([2, 3, 5, 8]) if atype not in ("odd", "ffloat", "alike") else 8
    x = rng.randint(0, 10 ** 6)
    it = "int" if atype == "np" else atype
    sc = dict(labels=labels, edges=edges, atype=atype, m=m, init=[value(it, m, h(x, i)) for i in range(n)],
              rule=dict(mode=want.get("mode", "full"), seed=rng.randint(0, 10 ** 6)), timesteps=rng.size(1, 6, want.get("tmax", 14)))
    if rng.random() < 0.3: sc["nattrs"] = [{"tag": rng.randint(0, 9)} if rng.random() < 0.5 else {} for _ in range(n)]
    if rng.random() < 0.3:
        o = list(range(n)); rng.shuffle(o); sc["init_order"] = o
    if lk == "int" and "init_order" not in sc and rng.random() < 0.5: sc["init_form"] = rng.choice(["list", "np"]) if it not in ("str", "list", "tuple", "odd", "alike") else "list"
    def maybe(key, p): return want[key] if key in want else rng.random() < p
    if maybe("rotation", 0.3):
        sc["rotation"] = [rng.randint(0, 999) for _ in range(n)]
        if rng.random() < 0.3: sc["rot_tuple"] = True
    if maybe("input", 0.2):
        items = ["scalar", "scalar", "zero", "dict", "falsy"] + (["list", "tuple", "str"] if lk == "int" else []) + (["acts"] if atype == "int" else [])
        form = rng.choice(["list", "fn"])
        item = rng.choice(items)
        if item == "acts" and form == "list": item = "scalar"
        sc["input"] = dict(form=form, len=rng.size(0, 5, 12), seed=rng.randint(0, 999), item=item)
        if rng.random() < 0.5: del sc["timesteps"]
    if maybe("topo", 0.25):
        kinds = ["fresh", "fresh_rot", "same", "inplace"]
        kind = want.get("topokind") or rng.choice(kinds)
        sc["topo"] = dict(kind=kind, seed=rng.randint(0, 999), ops=rng.randint(1, 3))
        if kind.startswith("fresh") and rng.random() < 0.3: sc["copy_network"] = False
        sc.pop("rotation", None); sc.pop("rot_tuple", None)
        if maybe("orders", 0.6): sc["order"] = rng.choice(["ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS"])
    elif maybe("orders", 0.2): sc["order"] = rng.choice(["ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS"])
    if maybe("pert", 0.25): sc["pert"] = dict(kind=rng.choice(["all", "some", "id"]), seed=rng.randint(0, 999))
    if maybe("past", 0.25):
        y = rng.randint(0, 10 ** 6)
        sc["past"] = [[value(it, m, h(y, q, i)) for i in range(n)] for q in range(rng.size(1, 4, 9))]
        if lk == "int": sc["past_form"] = rng.choice(["dict", "list", "np"] if it in ("int", "neg", "float", "dig", "ffloat") else ["dict", "list"])
    if maybe("events", 0.0) and n >= 2 and not sc.get("order", "ACTIVITIES_FIRST") != "ACTIVITIES_FIRST":
        gen_events(rng, sc)
    return sc


def gen_events(rng, sc):
    """node additions and removals, consistent with the network they happen in"""
    sc.pop("rotation", None); sc.pop("rot_tuple", None); sc.pop("order", None)
    if sc.get("input") and sc["input"]["item"] in ("list", "tuple", "str"): sc["input"]["item"] = "scalar"
    if sc.get("past"):
        sc.pop("past")           # the past of an added node is not defined
    T = sc.get("timesteps") or 6
    cur = list(sc["labels"])
    evs, fresh = [], 100
    it = "int" if sc["atype"] == "np" else sc["atype"]
    for t in range(1, T):
        if rng.random() < 0.4 and t > 1: continue
        removed, ops_by, added = [], {}, []
        for _ in range(rng.randint(1, 3)):
            actor = rng.choice(cur)
            left = [l for l in cur if l not in removed]
            if rng.random() < 0.5 and len(left) > 1:
                tgt = actor if rng.random() < 0.5 and actor in left else rng.choice(left)
                removed.append(tgt)
                ops_by.setdefault(actor, []).append(["rm", tgt])
        left = [l for l in cur if l not in removed]
        for _ in range(rng.randint(0, 2)):
            actor = rng.choice(cur)
            if removed and rng.random() < 0.3 and not any(a == removed[0] for a in added): lab = removed[0]
            elif rng.random() < 0.12 and left + added: lab = rng.choice(left + added)        # a node that is already there gets a new state and more links
            else: lab = fresh if rng.random() < 0.6 else "x%d" % fresh; fresh += 1
            tg = list(dict.fromkeys(left + added + [lab]))
            links = []
            for q in rng.sample(tg, min(len(tg), rng.randint(0, 3))): links.append([q, {"weight": rng.randint(1, 5)} if rng.random() < 0.7 else {"weight": 2, "kind": "k"}])
            added.append(lab)
            ops_by.setdefault(actor, []).append(["add", lab, value(it, sc["m"], rng.randint(0, 99)), links])
        # additions link to nodes added by earlier actors only: order the additions as the nodes are processed
        order = []
        for a in cur:
            for o in ops_by.get(a, []):
                if o[0] == "add": order.append(o)
        okl = list(left)
        for o in order:
            o[3] = [x for x in o[3] if x[0] in okl or x[0] == o[1]]
            okl.append(o[1])
        for a in cur:
            if a in ops_by: evs.append([t, a, ops_by[a]])
        cur = left + [l for k, l in enumerate(o[1] for o in order) if l not in left and l not in [o[1] for o in order[:k]]]
    sc["events"] = evs

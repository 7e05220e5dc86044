"""random operation sequences on Network (nodes, multi-edges, self-loops, integer and string labels) against a list-of-edges
reference: all observations after every operation; operations on edges and nodes that do not exist"""
import copy
import netomaton as ntm
from harness import expect, raises


class Ref:
    def __init__(self, n): self.nodes, self.edges = {i: {} for i in range(n)}, []     # edges: [i, j, attrs] in order of addition
    def node(self, l): self.nodes.setdefault(l, {})


def observe(net, ref, all_labels):
    expect(list(net.nodes) == list(ref.nodes), "nodes are %r, should be %r", list(net.nodes), list(ref.nodes))
    expect(len(net) == len(ref.nodes), "len")
    es = [(i, j, dict(a)) for i, j, a in net.edges]
    expect(sorted(es, key=repr) == sorted(((i, j, a) for i, j, a in ref.edges), key=repr), "edges are %r, should be %r", es, ref.edges)
    for l in ref.nodes:
        ind = sum(1 for e in ref.edges if e[1] == l); outd = sum(1 for e in ref.edges if e[0] == l)
        expect(net.in_degree(l) == ind, "in-degree of %r is %r, should be %d", l, net.in_degree(l), ind)
        expect(net.out_degree(l) == outd, "out-degree of %r is %r, should be %d", l, net.out_degree(l), outd)
        expect(net.degree(l) == ind + outd, "degree of %r", l)
        inc = {}
        for i, j, a in ref.edges:
            if j == l: inc.setdefault(i, []).append(a)
        got = {i: [dict(a) for a in v] for i, v in net.in_edges(l).items()}
        expect(got == inc, "incoming links of %r are %r, should be %r", l, got, inc)
        attrs = {k: v for k, v in net[l].items() if k not in ("in", "out", "incoming", "outgoing")}
        expect(attrs == ref.nodes[l], "attributes of %r are %r, should be %r", l, attrs, ref.nodes[l])
    for i in all_labels:
        for j in all_labels:
            es = [e[2] for e in ref.edges if e[0] == i and e[1] == j]
            expect(bool(net.has_edge(i, j)) == bool(es), "has_edge(%r, %r)", i, j)
            if es: expect([dict(a) for a in net.edge(i, j)] == es, "edge(%r, %r) is %r, should be %r", i, j, net.edge(i, j), es)


def sequence(n, labels, ops):
    net, ref = ntm.Network(n), Ref(n)
    allL = list(dict.fromkeys(list(range(n)) + labels))
    observe(net, ref, allL)
    for o in ops:
        a, b = (allL[x % len(allL)] for x in (o[1], o[2]))
        attrs = o[3]
        if o[0] == "edge":
            net.add_edge(a, b, **attrs)
            ref.node(a); ref.node(b); ref.edges.append([a, b, dict(attrs)])
        elif o[0] == "bidir":
            net.add_edge_bidir(a, b, **attrs)
            ref.node(a); ref.node(b); ref.edges.append([a, b, dict(attrs)]); ref.edges.append([b, a, dict(attrs)])
        elif o[0] == "node":
            net.add_node(a, **attrs); ref.node(a); ref.nodes[a].update(attrs)
        elif o[0] == "rmnode":
            if a not in ref.nodes: continue
            if len(attrs) % 2: del net[a]
            else: net.remove_node(a)
            del ref.nodes[a]; ref.edges = [e for e in ref.edges if a not in e[:2]]
        elif o[0] == "rmedge":
            if not any(e[:2] == [a, b] for e in ref.edges): continue
            net.remove_edge(a, b); ref.edges = [e for e in ref.edges if e[:2] != [a, b]]
        elif o[0] == "upd":
            es = [e for e in ref.edges if e[:2] == [a, b]]
            if not es:
                e = raises(net.update_edge, a, b, **attrs)
                expect(e is not None, "updating the missing edge %r -> %r is accepted", a, b)
                e = raises(net.update_edge, a, b, indices=[0], **attrs)
                expect(e is not None, "updating the missing edge %r -> %r by index is accepted", a, b)
            elif o[4] is None:
                net.update_edge(a, b, **attrs)
                for e in es: e[2].update(attrs)
            else:
                idx = sorted({k % len(es) for k in o[4]}) if o[1] % 3 else sorted({k % len(es) - len(es) for k in o[4]})
                net.update_edge(a, b, indices=idx, **attrs)
                for k in idx: es[k][2].update(attrs)
        observe(net, ref, allL)


KINDS = {"sequence": sequence}


def attrs(rng):
    a = {}
    if rng.random() < 0.6: a["weight"] = rng.randint(-2, 5)
    if rng.random() < 0.25: a["label"] = rng.choice("xyz")
    if rng.random() < 0.2: a[rng.word("hands")] = rng.randint(1, 3)
    return a


def systematic(tier):
    import itertools
    E, A = "edge", {}
    pairs = [(0, 0), (0, 1), (1, 0), (1, 1)]
    rem = [["rmnode", 0, 0, {}], ["rmnode", 1, 0, {}], ["rmedge", 0, 0, {}], ["rmedge", 0, 1, {}], ["rmedge", 1, 0, {}], ["rmedge", 1, 1, {}],
           ["upd", 0, 1, {"w": 1}, None], ["upd", 0, 0, {"w": 1}, [0]], ["upd", 1, 0, {"w": 1}, [1]]]
    for k in (1, 2, 3):
        for es in itertools.product(pairs, repeat=k):
            for r in rem:
                yield "sequence", dict(n=2, labels=[0, 1], ops=[["edge", a, b, {"id": q}] for q, (a, b) in enumerate(es)] + [r, ["edge", 0, 1, {"id": 9}]])


def rand(rng):
    n = rng.size(0, 3, 12)
    labels = rng.choice([[0, 1, 2, 3], ["a", "b", "c"], [5, "x", 2], [10, 11]])
    ops = []
    for _ in range(rng.size(2, 12, 40)):
        k = rng.choice(["edge", "edge", "edge", "bidir", "node", "rmnode", "rmedge", "upd"])
        o = [k, rng.randint(0, 9), rng.randint(0, 9), attrs(rng)]
        if k == "upd": o.append(None if rng.random() < 0.5 else [rng.randint(0, 4) for _ in range(rng.randint(1, 3))])
        ops.append(o)
    return "sequence", dict(n=n, labels=labels, ops=ops)

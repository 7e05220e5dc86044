"""random matrices and multigraphs through from_adjacency_matrix, to_adjacency_matrix (node lists, weights, multi-edges) and the
NetworkX conversions"""
import copy
import numpy as np
import netomaton as ntm
import networkx as nx
from harness import expect, canon


def from_matrix(M, np_form):
    A = np.array(M) if np_form else copy.deepcopy(M)
    net = ntm.topology.from_adjacency_matrix(A)
    n = len(M)
    expect(sorted(net.nodes) == list(range(n)), "nodes %r for %d rows", list(net.nodes), n)
    es = sorted((i, j, canon(dict(a))) for i, j, a in net.edges) if False else sorted([[i, j, canon(dict(a))["weight"]] for i, j, a in net.edges])
    want = sorted([i, j, M[i][j]] for i in range(n) for j in range(n) if M[i][j] != 0)
    expect(es == want, "edges %r, should be %r", es, want)
    for i, j, a in net.edges: expect(set(a) == {"weight"}, "edge attributes %r", a)
    back = canon(net.to_adjacency_matrix(nodelist=list(range(n))))
    expect(back == M, "matrix read back is %r", back)
    for i in range(n):
        expect(net.in_degree(i) == sum(1 for q in range(n) if M[q][i] != 0) and net.out_degree(i) == sum(1 for q in range(n) if M[i][q] != 0), "degrees of %d", i)


def net_of(labels, nattrs, edges):
    net = ntm.Network()
    for l, a in zip(labels, nattrs): net.add_node(l, **a)
    for i, j, a in edges: net.add_edge(labels[i], labels[j], **a)
    return net


def to_matrix(labels, nattrs, edges, nodelist, summed, weight):
    net = net_of(labels, nattrs, edges)
    n = len(labels)
    order = [labels[k] for k in nodelist] if nodelist else labels
    kw = {}
    if nodelist: kw["nodelist"] = list(order)
    if summed is not None: kw["sum_multiedges"] = summed
    if weight: kw["weight"] = weight
    M = canon(net.to_adjacency_matrix(**kw))
    w = weight or "weight"
    want = [[0] * n for _ in range(n)]
    per = {}
    for i, j, a in edges: per.setdefault((labels[i], labels[j]), []).append(a.get(w, 1))
    for (i, j), ws in per.items():
        want[order.index(i)][order.index(j)] = ws[-1] if summed is False else sum(ws)
    expect(M == want, "adjacency matrix %r, should be %r", M, want)


def networkx(labels, nattrs, edges):
    net = net_of(labels, nattrs, edges)
    G = net.to_networkx()
    expect(isinstance(G, nx.MultiDiGraph), "not a MultiDiGraph")
    expect([[l, d] for l, d in G.nodes(data=True)] == [[l, a] for l, a in zip(labels, nattrs)], "NetworkX nodes %r", list(G.nodes(data=True)))
    key = lambda es: sorted(([i, j, dict(a)] for i, j, a in es), key=repr)
    want = key([labels[i], labels[j], a] for i, j, a in edges)
    expect(key(G.edges(data=True)) == want, "NetworkX edges %r, should be %r", key(G.edges(data=True)), want)
    back = ntm.Network.from_networkx(G)
    expect(list(back.nodes) == labels, "nodes after the round trip: %r", list(back.nodes))
    expect(key(back.edges) == want, "edges after the round trip: %r, should be %r", key(back.edges), want)
    for l, a in zip(labels, nattrs):
        got = {k: v for k, v in back[l].items() if k not in ("in", "out", "incoming", "outgoing")}
        expect(got == a, "attributes of %r after the round trip: %r", l, got)
        expect(back.in_degree(l) == net.in_degree(l) and back.out_degree(l) == net.out_degree(l), "degrees of %r", l)
        expect({i: [dict(x) for x in v] for i, v in back.in_edges(l).items()} == {i: [dict(x) for x in v] for i, v in net.in_edges(l).items()}, "incoming of %r", l)
    expect(key(net.edges) == want, "the network was changed by the conversion")


def digraph(labels, nattrs, edges):
    """a simple directed graph keeps its edges and attributes"""
    G = nx.DiGraph()
    for l, a in zip(labels, nattrs): G.add_node(l, **a)
    for i, j, a in edges: G.add_edge(labels[i], labels[j], **a)
    net = ntm.Network.from_networkx(G)
    key = lambda es: sorted(([i, j, dict(a)] for i, j, a in es), key=repr)
    expect(list(net.nodes) == labels and key(net.edges) == key(G.edges(data=True)), "from_networkx of a DiGraph")


KINDS = {"from_matrix": from_matrix, "to_matrix": to_matrix, "networkx": networkx, "digraph": digraph}


def systematic(tier):
    import itertools
    for n in (1, 2):
        for bits in itertools.product((0, 1), repeat=n * n):
            for f in (False, True): yield "from_matrix", dict(M=[list(bits[i * n:(i + 1) * n]) for i in range(n)], np_form=f)
    for k in (0, 1, 2, 3):
        for es in itertools.product([(0, 1), (1, 0), (0, 0)], repeat=k):
            E = [[a, b, {"weight": 2 + q} if q != 1 else {}] for q, (a, b) in enumerate(es)]
            for nl in (None, [0, 1], [1, 0]):
                for s in (None, True, False): yield "to_matrix", dict(labels=["a", "b"], nattrs=[{}, {}], edges=E, nodelist=nl, summed=s, weight=None)
            yield "networkx", dict(labels=["a", "b"], nattrs=[{"x": 1}, {}], edges=E)


def rand(rng):
    x = rng.random()
    n = rng.size(1, 6, 20)
    if x < 0.3:
        d = rng.choice([0.1, 0.4, 0.9])
        vals = rng.choice([[1], [1, 2, 3], [0.5, -1, 2], [1., 0.25], [-1, 1]])
        return "from_matrix", dict(M=[[rng.choice(vals) if rng.random() < d else 0 for _ in range(n)] for _ in range(n)], np_form=rng.random() < 0.4)
    labels = rng.choice([list(range(n)), ["n%d" % i for i in range(n)], [7 + 3 * i for i in range(n)]])
    rng.shuffle(labels)
    nattrs = [{k: rng.randint(0, 5) for k in ("a", "label", rng.word("input", "x")) if rng.random() < 0.3} for _ in labels]
    edges = []
    for _ in range(rng.randint(0, 3 * n)):
        a = {}
        if rng.random() < 0.6: a["weight"] = rng.choice([0, 1, 2, -1, 0.5, 3])
        if rng.random() < 0.4: a["cost"] = rng.randint(0, 4)
        if rng.random() < 0.15: a[rng.word("label", "x")] = rng.randint(0, 3)
        edges.append([rng.randrange(n), rng.randrange(n), a])
    if x < 0.65:
        nl = None
        if rng.random() < 0.6: nl = list(range(n)); rng.shuffle(nl)
        return "to_matrix", dict(labels=labels, nattrs=nattrs, edges=edges, nodelist=nl, summed=rng.choice([None, True, False, False]), weight=rng.choice([None, "weight", "cost", "none"]))
    if x < 0.75: return "digraph", dict(labels=labels, nattrs=nattrs, edges=edges)
    return "networkx", dict(labels=labels, nattrs=nattrs, edges=edges)

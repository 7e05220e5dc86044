"""random point sets: distances, matrices, node updates from random states against the Hopfield-Tank equation, tours of all small and
random permutations, double claims"""
import itertools, math
import numpy as np
import netomaton as ntm
from harness import expect, canon, raises


def close(a, b, what): expect(abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)), "%s is %r, should be %r", what, a, b)


def dist(p, q): return math.hypot(p[0] - q[0], p[1] - q[1])


def maps(points):
    n = len(points)
    net = ntm.HopfieldTankTSPNet([tuple(p) for p in points])
    ds = net.get_distances()
    expect([(i, j) for i, j, d in ds] == [(i, j) for i in range(n) for j in range(i + 1, n)] or sorted((i, j) for i, j, d in ds) == [(i, j) for i in range(n) for j in range(i + 1, n)], "pairs %r", [(i, j) for i, j, d in ds])
    for i, j, d in ds: close(d, dist(points[i], points[j]), "distance of %d and %d" % (i, j))
    expect(canon(net.adjacency_matrix) == [[1] * (n * n) for _ in range(n * n)], "adjacency matrix")
    lm, cm, dm = [getattr(net, a, None) for a in ("_node_label_map", "_coordinate_map", "_distances_map")]
    if isinstance(lm, dict): expect({k: tuple(v) for k, v in lm.items()} == {k: divmod(k, n) for k in range(n * n)}, "node labels %r", lm)
    if isinstance(cm, dict): expect({tuple(k): v for k, v in cm.items()} == {divmod(k, n): k for k in range(n * n)}, "coordinates %r", cm)
    if isinstance(dm, dict) and n > 1:
        expect(set(dm) == {(i, j) for i in range(n) for j in range(n)}, "pairs of the distance map")
        for (i, j), d in dm.items(): close(d, dist(points[i], points[j]), "distance of %d and %d" % (i, j))


def update(points, par, u):
    n = len(points)
    A, B, C, D, dt, u0, m = [par[k] for k in ("A", "B", "C", "D", "dt", "u_0", "n")]
    net = ntm.HopfieldTankTSPNet([tuple(p) for p in points], dt=dt, A=A, B=B, C=C, D=D, u_0=u0, n=m)
    nw = ntm.topology.from_adjacency_matrix(net.adjacency_matrix)
    tr = ntm.evolve(nw, list(u), net.activity_rule, 2)
    V = [[0.5 * (1 + math.tanh(u[x * n + i] / u0)) for i in range(n)] for x in range(n)]
    for x in range(n):
        for i in range(n):
            row = sum(V[x][j] for j in range(n) if j != i)
            col = sum(V[y][i] for y in range(n) if y != x)
            tot = sum(map(sum, V))
            dd = sum(dist(points[x], points[y]) * (V[y][(i + 1) % n] + V[y][(i - 1) % n]) for y in range(n) if y != x)
            k = x * n + i
            w = u[k] + dt * (-u[k] - A * row - B * col - C * (tot - m) - D * dd)
            g = float(tr[1].activities[k])
            sc = abs(A * row) + abs(B * col) + abs(C * (tot + abs(m))) + abs(D * dd) + abs(u[k]) + 1
            expect(abs(g - w) <= 1e-9 * sc, "node (%d, %d) becomes %r, should be %r", x, i, g, w)
    pm = canon(net.get_permutation_matrix([[0.0] * (n * n), list(u)]))
    for x in range(n):
        for i in range(n): close(pm[x][i], V[x][i], "permutation matrix entry (%d, %d)" % (x, i))


def tour(points, perm, noise):
    """perm[x] is the position of city x"""
    n = len(points)
    pts = [tuple(p) for p in points]
    net = ntm.HopfieldTankTSPNet(pts)
    M = [[(0.95 if perm[x] == i else 0) + (noise[(x * n + i) % len(noise)] if noise else 0) for i in range(n)] for x in range(n)]
    if len(set(perm)) < n:
        expect(raises(net.get_tour_graph, pts, np.array(M)) is not None, "a position claimed twice was accepted: %r", perm)
        return
    for form in (np.array(M), M):
        G, pos, length = net.get_tour_graph(pts, form)
        at = {perm[x]: x for x in range(n)}
        want = {frozenset((at[i], at[(i + 1) % n])) for i in range(n)}
        expect({frozenset(e) for e in G.edges} == want, "tour %r, should be %r", sorted(G.edges), sorted(map(sorted, want)))
        expect(sorted(G.nodes) == list(range(n)), "cities %r", sorted(G.nodes))
        close(length, sum(dist(points[at[i]], points[at[(i + 1) % n]]) for i in range(n)), "length")
        expect({k: tuple(v) for k, v in pos.items()} == dict(enumerate(pts)), "positions %r", pos)


KINDS = {"maps": maps, "update": update, "tour": tour}
BASE = dict(A=500, B=500, C=200, D=500, dt=1e-5, u_0=0.02, n=15)


def systematic(tier):
    P = [[0, 0], [3, 4], [1, 1], [-2, 5], [0.5, -1]]
    for n in range(1, 6): yield "maps", dict(points=P[:n])
    for n in range(2, 5):
        for perm in itertools.product(range(n), repeat=n): yield "tour", dict(points=P[:n], perm=list(perm), noise=[])
        for z in range(n * n):
            yield "update", dict(points=P[:n], par=BASE, u=[0.01 if k == z else -0.02 for k in range(n * n)])


def rand(rng):
    x = rng.random()
    n = rng.size(2, 5, 9)
    pts = [[rng.choice([rng.random(), rng.randint(-5, 5)]) for _ in range(2)] for _ in range(n)]
    if x < 0.15: return "maps", dict(points=[[rng.random(), rng.random()] for _ in range(rng.size(1, 8, 20))])
    if x < 0.6:
        par = {k: rng.choice([BASE[k], round(rng.random() * 10, 3), 0]) for k in BASE}
        par["u_0"] = rng.choice([0.02, 0.5, 2.0]); par["dt"] = rng.choice([1e-5, 1.0, 0.1])
        return "update", dict(points=pts, par=par, u=[rng.choice([0, rng.gauss(0, 0.05), rng.gauss(0, 1)]) for _ in range(n * n)])
    perm = list(range(n)); rng.shuffle(perm)
    if rng.random() < 0.3: perm[rng.randrange(n)] = perm[rng.randrange(n)]
    return "tour", dict(points=pts, perm=perm, noise=[rng.random() * 0.04 for _ in range(rng.randint(1, 11))])

"""grids of all small shapes, radii and neighbourhood types (and random larger ones): links against the torus distances; rejections"""
import netomaton as ntm
from netomaton.topology import adjacency
from harness import expect, canon, raises


def tor(a, b, n): return min((a - b) % n, (b - a) % n)


def linked(p, q, rows, cols, r, kind):
    """is there a link from q into p?"""
    (a, b), (c, d) = divmod(p, cols), divmod(q, cols)
    dr, dc = tor(a, c, rows), tor(b, d, cols)
    if kind == "Moore": return dr <= r and dc <= r
    if kind == "von Neumann": return dr + dc <= r
    if dr + dc <= 1: return True
    side = 1 if a % 2 == 0 else -1
    return dr == 1 and d == (b + side) % cols


def grid(rows, cols, r, kind):
    n = rows * cols
    A = canon(adjacency.cellular_automaton2d(rows, cols, r, kind))
    want = [[1. if linked(p, q, rows, cols, r, kind) else 0. for q in range(n)] for p in range(n)]
    # row p of the matrix lists the links of p; the network has the link q -> p exactly when linked(p, q)
    net = ntm.topology.cellular_automaton2d(rows, cols, r, kind, ordered=False)
    expect(sorted(net.nodes) == list(range(n)), "nodes")
    if kind != "Hex": expect(A == want, "adjacency matrix")
    else: expect(A == want, "adjacency matrix (hex)")
    got = {(q, p) for q, p, a in net.edges}
    # from_adjacency_matrix reads entry (i, j) as i -> j
    w = {(p, q) for p in range(n) for q in range(n) if want[p][q]}
    expect(got == w, "links: missing %r, extra %r", sorted(w - got)[:4], sorted(got - w)[:4])
    # the relation is symmetric, so links into p are exactly linked(p, .)
    for p in range(n):
        ins = set(net.in_edges(p))
        expect(ins == {q for q in range(n) if linked(p, q, rows, cols, r, kind)}, "links into %d: %r", p, sorted(ins))
    expect(all(canon(dict(a)) == {"weight": 1.0} for _, _, a in net.edges), "weights")
    expect(len(list(net.edges)) == len(got), "double links")
    net = ntm.topology.cellular_automaton2d(rows, cols, r, kind)
    expect({(q, p) for q, p, a in net.edges} == w, "links with ordering")
    for p in range(n): expect(sorted(net.rotation_system[p]) == sorted(net.in_edges(p)), "neighbour list of %d", p)


def reject(rows, cols, kind, boundary):
    expect(raises(adjacency.cellular_automaton2d, rows, cols, 1, kind, boundary) is not None, "%dx%d %r %r accepted", rows, cols, kind, boundary)


KINDS = {"grid": grid, "reject": reject}


def systematic(tier):
    for rows, cols in ((0, 0), (1, 1), (2, 4), (4, 2), (1, 8), (2, 2), (8, 1), (0, 9)): yield "reject", dict(rows=rows, cols=cols, kind="Moore", boundary="periodic")
    for k in ("moore", "VonNeumann", "", None, "hex"): yield "reject", dict(rows=4, cols=4, kind=k, boundary="periodic")
    for b in ("fixed", None, "open"): yield "reject", dict(rows=4, cols=4, kind="Moore", boundary=b)
    for rows in range(3, 7):
        for cols in range(3, 7):
            for k in ("Moore", "von Neumann"):
                for r in (0, 1, 2):
                    if 2 * r + 1 <= min(rows, cols): yield "grid", dict(rows=rows, cols=cols, r=r, kind=k)
    for rows in (4, 6, 8):
        for cols in (3, 4, 5, 6): yield "grid", dict(rows=rows, cols=cols, r=1, kind="Hex")


def rand(rng):
    k = rng.choice(["Moore", "von Neumann", "Hex"])
    rows, cols = rng.size(3, 9, 14), rng.size(3, 9, 14)
    r = rng.randint(0, (min(rows, cols) - 1) // 2)
    if k == "Hex": r = 1; rows += rows % 2
    return "grid", dict(rows=rows, cols=cols, r=r, kind=k)

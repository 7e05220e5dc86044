"""all grid shapes up to 6 x 6: presented neighbourhood, rule lookups, rotations of random tables, missing entries; Langton's table and
loop pattern"""
import itertools
import netomaton as ntm
from harness import expect, canon, raises
from langton_data import TABLE, LOOP


def shape(rows, cols):
    seen = {}
    c = ntm.CTRBLRule((rows, cols), {(0, 0, 0, 0, 0): 0})
    ids = [7 * i + 3 for i in range(rows * cols)]
    def rule(ctx):
        seen[ctx.node_label] = (canon(list(ctx.neighbourhood_activities)), canon(list(ctx.neighbour_labels)))
        return 0
    ntm.evolve(c.network, ids, rule, 2)
    expect(len(seen) == rows * cols, "%d cells", len(seen))
    for p in range(rows * cols):
        a, b = divmod(p, cols)
        cells = [p, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols]
        expect(seen[p][0] == [ids[q] for q in cells] and seen[p][1] == cells, "cell %d of %dx%d sees %r, should be %r", p, rows, cols, seen[p][1], cells)
        nm = c.neighbourhood_map[p]
        expect([nm.center, nm.top, nm.right, nm.bottom, nm.left] == cells, "neighbourhood map of %d: %r", p, nm)


def lookup(rows, cols, table, add, init, default):
    """table: list of [key, image]; with `default` every missing neighbourhood gets that image first"""
    t = {}
    for k, v in table: t[tuple(k)] = v
    given = dict(t)
    c = ntm.CTRBLRule((rows, cols), t, add_rotations=add)
    want = {}
    for k, v in given.items():
        want[k] = v
        if add:
            for q in range(1, 4): want[(k[0],) + k[1 + q:] + k[1:1 + q]] = v
    expect(t == given, "the given table was modified")
    expect(dict(c.rule_table) == want, "rule table: %r, should be %r", sorted(set(c.rule_table.items()) ^ set(want.items()))[:4], None)
    def cells(p):
        a, b = divmod(p, cols)
        return [p, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols]
    nxt = [want.get(tuple(init[q] for q in cells(p))) for p in range(rows * cols)]
    if None in nxt:
        expect(raises(ntm.evolve, c.network, list(init), c.activity_rule, 2) is not None, "a neighbourhood missing from the table was accepted")
    else:
        tr = ntm.evolve(c.network, list(init), c.activity_rule, 2)
        got = [canon(tr[1].activities[p]) for p in range(rows * cols)]
        expect(got == nxt, "next state %r, should be %r", got, nxt)
    expect(t == given, "the given table was modified")


def langton(rows, cols, pos):
    l = ntm.LangtonsLoop((rows, cols))
    want = {}
    for k, v in TABLE.items():
        want[k] = v
        for q in range(1, 4): want[(k[0],) + k[1 + q:] + k[1:1 + q]] = v
    expect(dict(l.rule_table) == want, "rule table: %r", sorted(set(l.rule_table.items()) ^ set(want.items()))[:4])
    grid = [[0] * cols for _ in range(rows)]
    for r, c in pos:
        for i, line in enumerate(LOOP):
            for j, ch in enumerate(line):
                if ch != " ": grid[r + i][c - 1 + j] = int(ch)
    got = canon(list(l.init_loops(len(pos), [p[0] for p in pos], [p[1] for p in pos])))
    expect(got == [v for row in grid for v in row], "initial loops at %r: differ at %r", pos, [divmod(i, cols) for i, (x, y) in enumerate(zip(got, [v for row in grid for v in row])) if x != y][:6])


KINDS = {"shape": shape, "lookup": lookup, "langton": langton}


def systematic(tier):
    for rows in range(3, 7):
        for cols in range(3, 7): yield "shape", dict(rows=rows, cols=cols)
    yield "langton", dict(rows=12, cols=20, pos=[[0, 1]])
    yield "langton", dict(rows=12, cols=20, pos=[[2, 5], ])
    yield "langton", dict(rows=30, cols=40, pos=[[1, 1], [12, 20], [1, 20]])
    yield "langton", dict(rows=12, cols=20, pos=[])


def rand(rng):
    x = rng.random()
    if x < 0.1: return "shape", dict(rows=rng.size(3, 9, 20), cols=rng.size(3, 9, 20))
    if x < 0.15:
        pos = []
        for _ in range(rng.randint(0, 3)):
            p = [rng.randint(0, 30), rng.randint(1, 40)]
            if all(abs(p[0] - q[0]) > 10 or abs(p[1] - q[1]) > 15 for q in pos): pos.append(p)
        return "langton", dict(rows=rng.randint(41, 45), cols=rng.randint(55, 60), pos=pos)
    rows, cols = rng.randint(3, 6), rng.randint(3, 6)
    s = rng.randint(2, 3)
    add = rng.random() < 0.5
    init = [rng.choice([0, rng.randrange(s)]) for _ in range(rows * cols)]
    tab, have = [], set()
    keys = list(itertools.product(range(s), repeat=5))
    rng.shuffle(keys)
    frac = rng.choice([0.3, 0.9, 1, 1, 1])
    for k in keys:
        if rng.random() > frac: continue
        rots = {(k[0],) + k[1 + q:] + k[1:1 + q] for q in range(4)}
        if add and rots & have: continue
        have |= rots
        tab.append([list(k), rng.randrange(s + 1)])
    return "lookup", dict(rows=rows, cols=cols, table=tab, add=add, init=init, default=None)

"""random and structured piles on all small grids and larger ones, closed and open: every cell against the law, grain totals"""
import netomaton as ntm
from harness import expect, canon


def pile(rows, cols, closed, init, T, default=False):
    s = ntm.Sandpile(rows, cols) if default else ntm.Sandpile(rows, cols, is_closed_boundary=closed)
    tr = ntm.evolve(s.network, list(init), s.activity_rule, T)
    st = [[canon(x.activities[i]) for i in range(rows * cols)] for x in tr]
    expect(len(st) == T and st[0] == init, "first state or number of states")
    for t in range(1, T):
        cur = st[t - 1]
        want = []
        lost = False
        for p in range(rows * cols):
            a, b = divmod(p, cols)
            border = a in (0, rows - 1) or b in (0, cols - 1)
            if closed and border: want.append(0); continue
            nb = [(a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols]
            want.append(cur[p] + sum(1 for q in nb if cur[q] >= 4) - (4 if cur[p] >= 4 else 0))
        expect(st[t] == want, "timestep %d: cells %r", t, [(divmod(i, cols), cur[i], x, y) for i, (x, y) in enumerate(zip(st[t], want)) if x != y][:4])
        if not closed: expect(sum(st[t]) == sum(cur), "grains %d -> %d", sum(cur), sum(st[t]))


KINDS = {"pile": pile}


def systematic(tier):
    for rows in (3, 4, 5):
        for cols in (3, 4, 5):
            for closed in (True, False):
                for v in (0, 3, 4, 5, 8): yield "pile", dict(rows=rows, cols=cols, closed=closed, init=[v] * (rows * cols), T=3)
                for p in range(rows * cols): yield "pile", dict(rows=rows, cols=cols, closed=closed, init=[4 if i == p else 3 if (i * 5) % 7 == 0 else 0 for i in range(rows * cols)], T=3)
    yield "pile", dict(rows=4, cols=5, closed=True, init=[5] * 20, T=3, default=True)


def rand(rng):
    rows, cols = rng.size(3, 6, 12), rng.size(3, 6, 12)
    hi = rng.choice([4, 5, 9, 40])
    init = [rng.choice([rng.randint(0, hi), rng.num(0, hi), 3, 4]) for _ in range(rows * cols)]
    return "pile", dict(rows=rows, cols=cols, closed=rng.random() < 0.5, init=init, T=rng.size(2, 5, 12))

"""all small and random larger sizes, values, colour counts and types of the initial conditions; trajectories to lists; binomials
against Pascal's triangle; binarization"""
import math
import numpy as np
import netomaton as ntm
from harness import expect, canon, raises

DT = {"int": {}, "float": {"dtype": float}, "np": {"dtype": np.int32}, "npf": {"dtype": np.float64}}


def simple(n, v, dt):
    a = ntm.init_simple(n, **DT[dt]) if v is None else ntm.init_simple(n, v, **DT[dt])
    v = 1 if v is None else v
    expect(isinstance(a, list) and a == [v if i == n // 2 else 0 for i in range(n)], "init_simple(%d, %r) is %r", n, v, a)


def simple2d(rows, cols, v, dt):
    a = ntm.init_simple2d(rows, cols, **DT[dt]) if v is None else ntm.init_simple2d(rows, cols, v, **DT[dt])
    v = 1 if v is None else v
    expect(isinstance(a, list) and a == [v if i == rows // 2 * cols + cols // 2 else 0 for i in range(rows * cols)], "init_simple2d(%d, %d, %r) is %r", rows, cols, v, a)


def rnd(n, k, m, e, dt, seed):
    np.random.seed(seed)
    kw = dict(DT[dt])
    if k is not None: kw["k"] = k
    if e is not None: kw["empty_value"] = e
    if m is not None: kw["n_randomized"] = m
    if m is not None and not 0 <= m <= n:
        expect(raises(ntm.init_random, n, **kw) is not None, "n_randomized=%r accepted for %d", m, n)
        return
    a = ntm.init_random(n, **kw)
    k, e, m = k or 2, e or 0, n if m is None else m
    expect(isinstance(a, list) and len(a) == n, "%d entries instead of %d", len(a), n)
    left = (n - m) // 2
    for i, x in enumerate(a):
        if left <= i < left + m:
            expect(0 <= x <= k - 1, "entry %d is %r of %d colours", i, x, k)
            if dt in ("int", "np"): expect(isinstance(x, int), "entry %d is %r", i, x)
        else: expect(x == e, "entry %d is %r, should be %r (%d centred in %d)", i, x, e, m, n)
    if m >= 40 and dt == "int": expect(set(a[left:left + m]) <= set(range(k)) and len(set(a[left:left + m])) > 1 or k == 1, "all %d random entries are %r", m, a[left])


def as_list(rows, labels, order, holes):
    tr = []
    for t, r in enumerate(rows):
        d = {labels[i]: r[i] for i in order}
        tr.append(ntm.State(activities=None if t in holes else d, network=None, compression=bool(t % 2)))
    got = ntm.get_activities_over_time_as_list(tr)
    srt = sorted(range(len(labels)), key=lambda i: labels[i])
    want = [[r[i] for i in srt] for t, r in enumerate(rows) if t not in holes]
    expect(got == want, "activities %r, should be %r", got, want)


def ncr(n, r):
    row = [1]
    for _ in range(n): row = [1] + [a + b for a, b in zip(row, row[1:])] + [1]
    w = row[r] if r <= n else 0
    g = ntm.ncr(n, r)
    expect(g == w and isinstance(g, int), "ncr(%d, %d) = %r, should be %d", n, r, g, w)


def ncr_bad(n, r): expect(raises(ntm.ncr, n, r) is not None, "ncr(%r, %r) accepted", n, r)


def binarize(nums):
    got = canon([list(r) for r in ntm.binarize_for_plotting([[x] for x in nums])])
    w = max(max(x.bit_length(), 1) for x in nums)
    expect(got == [[x >> (w - 1 - i) & 1 for i in range(w)] for x in nums], "binarized %r: %r", nums, got)


KINDS = {"simple": simple, "simple2d": simple2d, "random": rnd, "as_list": as_list, "ncr": ncr, "ncr_bad": ncr_bad, "binarize": binarize}


def systematic(tier):
    for n in range(1, 14):
        for v in (None, 1, 5, -2):
            for dt in DT: yield "simple", dict(n=n, v=v, dt=dt)
        for m in [None] + list(range(-2, n + 3)):
            for k in (None, 2, 3):
                for e in (None, 7): yield "random", dict(n=n, k=k, m=m, e=e, dt="int", seed=n)
            yield "random", dict(n=n, k=4, m=m, e=9, dt="float", seed=n)
    for rows in range(1, 7):
        for cols in range(1, 7):
            for v in (None, 4): yield "simple2d", dict(rows=rows, cols=cols, v=v, dt="int")
    for n in range(0, 16):
        for r in range(0, 18): yield "ncr", dict(n=n, r=r)
    for n, r in ((-1, 0), (0, -1), (-1, -1), (2.0, 1), (2, 1.0), (2.5, 1), (3, 1.5), ("2", 1), (2, "1"), (None, 1), (5, None), (5, -3), (-5, 3), (3, -1)): yield "ncr_bad", dict(n=n, r=r)
    for a in range(0, 18):
        for b in range(0, 18): yield "binarize", dict(nums=[a, b])


def rand(rng):
    x = rng.random()
    dt = rng.choice(list(DT))
    if x < 0.2: return "simple", dict(n=rng.size(1, 30, 2000), v=rng.choice([None, rng.num(0, 300)]), dt=dt)
    if x < 0.35: return "simple2d", dict(rows=rng.size(1, 12, 60), cols=rng.size(1, 12, 60), v=rng.choice([None, rng.num(0, 300)]), dt=dt)
    if x < 0.6:
        n = rng.size(0, 20, 300)
        m = rng.choice([None, rng.randint(0, n), rng.randint(-3, n + 3), n])
        return "random", dict(n=n, k=rng.choice([None, 1, 2, 3, 10, rng.randint(1, 40)]), m=m, e=rng.choice([None, 0, 1, 5, -1]), dt=dt, seed=rng.randrange(10 ** 6))
    if x < 0.75:
        n = rng.size(1, 6, 30)
        labels = rng.choice([rng.sample(range(100), n), ["n%d" % i for i in range(n)], list(range(n))])
        order = list(range(n)); rng.shuffle(order)
        T = rng.size(1, 6, 20)
        return "as_list", dict(rows=[[rng.choice([0, 1, 2.5, "a"]) for _ in range(n)] for _ in range(T)], labels=labels, order=order, holes=[t for t in range(T) if t and rng.random() < 0.15])
    if x < 0.85: n = rng.size(0, 60, 300); return "ncr", dict(n=n, r=rng.randint(0, n + 2))
    return "binarize", dict(nums=[rng.choice([rng.randrange(2 ** rng.randint(1, 50)), 2 ** rng.randint(0, 40), 0, 1]) for _ in range(rng.size(1, 6, 30))])

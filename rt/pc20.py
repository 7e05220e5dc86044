"""random tables for all small k and radius with every option, walks towards random targets from them, and table lookups"""
import itertools, random
import netomaton as ntm
from call import call_rule
from harness import expect, canon, raises

D = "0123456789"


def keys(k, r): return ["".join(x) for x in itertools.product(D[:k], repeat=2 * r + 1)]


def check_table(t, k, r, q, sq, iso, ret):
    expect(sorted(t) == keys(k, r), "keys: %d instead of %d, or different", len(t), k ** (2 * r + 1))
    expect(all(isinstance(canon(v), int) and 0 <= v < k for v in t.values()), "values %r", sorted(set(map(repr, t.values())))[:5])
    lam = sum(1 for v in t.values() if v != q) / len(t)
    expect(abs(ret - lam) < 1e-12, "reported lambda %r, actual %r", ret, lam)
    if sq:
        for d in D[:k]: expect(t[d * (2 * r + 1)] == int(d), "strong quiescence: %s maps to %r", d * (2 * r + 1), t[d * (2 * r + 1)])
    if iso:
        for s in t: expect(t[s] == t[s[::-1]], "isotropy: %s maps to %r and its mirror image to %r", s, t[s], t[s[::-1]])


def table(k, r, lam, q, sq, iso, seed):
    random.seed(seed)
    import numpy as np
    np.random.seed(seed % 2 ** 31)
    t, l, q2 = ntm.random_rule_table(k, r, lambda_val=lam, quiescent_state=q, strong_quiescence=sq, isotropic=iso)
    expect(0 <= q2 < k and (q is None or q2 == q), "quiescent state %r", q2)
    check_table(t, k, r, q2, sq, iso, l)


def bad(k, r, q): expect(raises(ntm.random_rule_table, k, r, quiescent_state=q) is not None, "quiescent state %r accepted for k=%d", q, k)


def walk(k, r, lam, q, sq, iso, target, seed):
    random.seed(seed)
    t, l, q = ntm.random_rule_table(k, r, lambda_val=lam, quiescent_state=q, strong_quiescence=sq, isotropic=iso)
    before = dict(t)
    t2, l2 = ntm.table_walk_through(t, target, k, r, q, strong_quiescence=sq, isotropic=iso)
    check_table(t2, k, r, q, sq, iso, l2)
    ch = [s for s in before if before[s] != t2[s]]
    N = len(before)
    if l == target: expect(not ch, "changed a table that has the lambda asked for")
    elif l > target:
        expect(all(t2[s] == q for s in ch), "changed entries away from the target")
        if ch: expect(l2 * N + (2 if iso else 1) > target * N - 1e-9, "moved beyond the target: %r, target %r", l2, target)
    else:
        expect(all(before[s] == q and t2[s] != q for s in ch), "changed entries away from the target: %r", [(s, before[s], t2[s]) for s in ch][:4])
        if ch: expect(l2 * N - (2 if iso else 1) < target * N + 1e-9, "moved beyond the target: %r, target %r", l2, target)


def rule(nb, k, vals, missing):
    s = "".join(map(str, nb))
    t = {x: vals[i % len(vals)] for i, x in enumerate(keys(k, (len(nb) - 1) // 2))}
    if missing:
        t.pop(s, None)
        expect(raises(call_rule, ntm.table_rule(t), nb, len(nb) // 2) is not None, "neighbourhood %r not in the table accepted", nb)
        return
    r, a = call_rule(ntm.table_rule(t), nb, len(nb) // 2)
    expect(canon(r) == t[s] and canon(a) == t[s], "table rule on %r gives %r, should be %r", nb, r, t[s])


KINDS = {"table": table, "bad": bad, "walk": walk, "rule": rule}


def systematic(tier):
    for k in range(2, 11):
        for r in (0, 1) if k > 4 else (0, 1, 2) if k > 2 else (0, 1, 2, 3):
            for sq in (False, True):
                for iso in (False, True):
                    for lam in (None, 0., 0.5, 1.): yield "table", dict(k=k, r=r, lam=lam, q=None if lam is None else k - 1, sq=sq, iso=iso, seed=k + r)
                    for tg in (0., 0.4, 1.): yield "walk", dict(k=k, r=r, lam=0.5, q=0, sq=sq, iso=iso, target=tg, seed=k * 7 + r)
        for q in (-1, k, k + 1, -k): yield "bad", dict(k=k, r=1, q=q)
    for nb in itertools.product(range(3), repeat=3):
        for m in (False, True): yield "rule", dict(nb=list(nb), k=3, vals=[0, 1, 2, 1, 5, 7, 8], missing=m)


def rand(rng):
    x = rng.random()
    k = rng.choice([2, 2, 3, 3, 4, 5, 7, 10])
    r = rng.randint(0, 3 if k == 2 else 2 if k <= 3 else 1)
    q = rng.randrange(k) if rng.random() < 0.8 else None
    o = dict(k=k, r=r, q=q, sq=rng.random() < 0.5, iso=rng.random() < 0.5, seed=rng.randrange(10 ** 6), lam=rng.choice([None, rng.random(), rng.random(), 0., 1.]))
    if x < 0.4: return "table", o
    if x < 0.85:
        N = k ** (2 * r + 1)
        return "walk", dict(o, target=rng.choice([rng.random(), rng.randint(0, N) / N, 0., 1.]))
    return "rule", dict(nb=[rng.randrange(k) for _ in range(2 * r + 1)], k=k, vals=[rng.randint(0, 20) for _ in range(rng.randint(1, 30))], missing=rng.random() < 0.3)

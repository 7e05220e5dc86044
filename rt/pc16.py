"""small colour counts and neighbourhoods with all sums, rule numbers at both ends of the range and just outside, random larger ones"""
import netomaton as ntm
from call import call_rule
from harness import expect, canon, raises


def rule(k, R, nb):
    n, s = len(nb), sum(nb)
    r, a = call_rule(ntm.rules.totalistic_ca(k, R), nb, n // 2)
    w = (R // k ** s) % k
    expect(canon(r) == w and canon(a) == w, "k=%d rule %d on %r gives %r, should be %d", k, R, nb, r, w)


def out_of_range(k, R, nb):
    expect(raises(call_rule, ntm.rules.totalistic_ca(k, R), nb, len(nb) // 2) is not None, "k=%d rule %d accepted for %d cells", k, R, len(nb))


KINDS = {"rule": rule, "out": out_of_range}


def systematic(tier):
    import itertools
    for k, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (2, 5)):
        N = k ** (n * (k - 1) + 1)
        for R in sorted({0, 1, k - 1, k, N - 1, N // 2, N // 3, N - k}):
            for nb in itertools.product(range(k), repeat=n): yield "rule", dict(k=k, R=R, nb=list(nb))
        for R in (N, N + 1, 2 * N, N * k): yield "out", dict(k=k, R=R, nb=[k - 1] * n)
    for k in range(2, 37):
        N = k ** (3 * (k - 1) + 1)
        yield "rule", dict(k=k, R=N - 1, nb=[k - 1] * 3)
        yield "rule", dict(k=k, R=N - 2, nb=[0, 0, 0])
        yield "out", dict(k=k, R=N, nb=[0] * 3)
        for v in range(k): yield "rule", dict(k=k, R=sum(((i * 7 + v) % k) * k ** i for i in range(3 * (k - 1) + 1)), nb=[v, k - 1, 0])


def rand(rng):
    k = rng.choice([2, 3, 4, 5, rng.randint(2, 36)])
    n = rng.randint(1, 9)
    N = k ** (n * (k - 1) + 1)
    if rng.random() < 0.12: return "out", dict(k=k, R=N + rng.choice([0, 1, rng.randrange(N)]), nb=[rng.randrange(k) for _ in range(n)])
    R = rng.choice([rng.randrange(N), rng.randrange(N), rng.randrange(min(N, 5000)), N - 1])
    return "rule", dict(k=k, R=R, nb=[rng.choice([0, k - 1, rng.randrange(k)]) for _ in range(n)])

"""every binary neighbourhood up to 10 cells' live counts and positions, every Wireworld state and head count, all small majority
neighbourhoods (numbers and strings); random larger ones"""
import itertools
from collections import Counter
import netomaton as ntm
from call import call_rule
from harness import expect, canon


def life(nb, c):
    total, cur = sum(nb), nb[c]
    r, a = call_rule(ntm.rules.game_of_life_rule, nb, c)
    live = total - cur
    w = 1 if (cur == 1 and live in (2, 3)) or (cur == 0 and live == 3) else 0
    expect(canon(r) == w and canon(a) == w, "cell %r in %r becomes %r, should be %d", cur, nb, r, w)


def wire(nb, c):
    r, a = call_rule(ntm.rules.wireworld_rule, nb, c)
    cur, heads = nb[c], nb.count(1)
    w = {0: 0, 1: 2, 2: 3, 3: 1 if heads in (1, 2) else 3}[cur]
    expect(canon(r) == w and canon(a) == w, "cell %r in %r becomes %r, should be %d", cur, nb, r, w)


def majority(nb, c):
    r, a = call_rule(ntm.rules.majority_rule, nb, c)
    r = canon(r)
    cnt = Counter(nb)
    top = max(cnt.values())
    best = [v for v in cnt if cnt[v] == top]
    if len(best) == 1: expect(r == best[0], "majority of %r is %r, should be %r", nb, r, best[0])
    expect(r in nb, "majority of %r is %r", nb, r)
    expect(canon(a) == r, "the evolution recorded %r", a)


KINDS = {"life": life, "wire": wire, "majority": majority}


def systematic(tier):
    for live in range(0, 10):
        for cur in (0, 1):
            if (cur and live == 9) or (not cur and live > 8): continue
            k = live - 0
            others = [1] * min(8, k) + [0] * (8 - min(8, k))
            for c in (0, 4, 8): yield "life", dict(nb=others[:c] + [cur] + others[c:], c=c)
    for nb in itertools.product((0, 1), repeat=4):
        for c in range(4): yield "life", dict(nb=list(nb), c=c)
    for cur in range(4):
        for heads in range(9):
            for fill in (0, 2, 3):
                nb = [1] * heads + [fill] * (8 - heads)
                yield "wire", dict(nb=nb[:4] + [cur] + nb[4:], c=4)
    for nb in itertools.product(range(4), repeat=3): yield "wire", dict(nb=list(nb), c=1)
    for n in range(1, 6):
        for nb in itertools.product(range(3), repeat=n): yield "majority", dict(nb=list(nb), c=0)
    for nb in itertools.product(("a", "b", ""), repeat=4): yield "majority", dict(nb=list(nb), c=0)


def rand(rng):
    x = rng.random()
    n = rng.size(1, 12, 40)
    c = rng.randrange(n)
    if x < 0.3:
        p = rng.random()
        return "life", dict(nb=[1 if rng.random() < p else 0 for _ in range(n)], c=c)
    if x < 0.6: return "wire", dict(nb=[rng.choice([0, 1, 2, 3, 3]) for _ in range(n)], c=c)
    vals = rng.choice([[0, 1], [0, 1, 2], [-1, 5, 7, 9], list(range(20)), ["a", "b", "ab"], [0.5, 1.5, 2]])
    return "majority", dict(nb=[rng.choice(vals) for _ in range(n)], c=c)

"""every rule number on every neighbourhood of up to 3 cells, random and extreme rule numbers for up to 7 cells; conversions"""
import itertools
import netomaton as ntm
from netomaton import rules
from call import call_rule
from harness import expect, canon
import numpy as np


def conv(bits, form):
    return np.array(bits) if form == "np" else tuple(bits) if form == "tuple" else list(bits)


def rule(m, R, nbs):
    for nb in nbs:
        s = int("".join(map(str, nb)), 2)
        for f, w in ((ntm.rules.nks_ca_rule(R), R >> s & 1), (ntm.rules.binary_ca_rule(R, scheme="nks"), R >> s & 1), (ntm.rules.binary_ca_rule(R), R >> (2 ** m - 1 - s) & 1)):
            r, a = call_rule(f, nb, m // 2)
            expect(canon(r) == w and canon(a) == w, "rule %d on %r gives %r, should be %d", R, nb, r, w)


def bits(num, d, form):
    b = canon(list(rules.int_to_bits(num, d)))
    expect(b == [num >> (d - 1 - i) & 1 for i in range(d)], "the %d digits of %d are %r", d, num, b)
    expect(canon(rules.bits_to_int(rules.int_to_bits(num, d))) == num, "%d through bits and back is %r", num, rules.bits_to_int(rules.int_to_bits(num, d)))
    expect(canon(rules.bits_to_int(conv(b, form))) == num, "bits_to_int(%r) = %r", b, rules.bits_to_int(conv(b, form)))


KINDS = {"rule": rule, "bits": bits}


def systematic(tier):
    for d in range(1, 7):
        for num in range(2 ** d):
            for f in ("list", "tuple", "np"): yield "bits", dict(num=num, d=d, form=f)
    for m in (1, 2, 3):
        nbs = [list(x) for x in itertools.product((0, 1), repeat=m)]
        step = 1 if m < 3 or tier != "quick" else 3
        for R in sorted(set(range(0, 2 ** 2 ** m, step)) | {0, 1, 30, 90, 110, 254, 255} & set(range(2 ** 2 ** m))): yield "rule", dict(m=m, R=R, nbs=nbs)


def rand(rng):
    if rng.random() < 0.3:
        d = rng.size(1, 20, 80)
        d = min(d, 120)
        return "bits", dict(num=rng.choice([rng.randrange(2 ** d), 2 ** d - 1, 2 ** (d - 1), 0]), d=d, form=rng.choice(["list", "tuple", "np"]) if d < 60 else "list")
    m = rng.randint(1, 7)
    N = 2 ** 2 ** m
    R = rng.choice([rng.randrange(N), N - 1, 0, 1, N // 2, rng.randrange(min(N, 256))])
    nbs = [[rng.randint(0, 1) for _ in range(m)] for _ in range(3)] + [[0] * m, [1] * m]
    return "rule", dict(m=m, R=R, nbs=nbs)

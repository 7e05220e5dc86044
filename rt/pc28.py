"""random symbol sequences (strings and lists, one and several characters, numbers) against the definitions; averages over random
histories and real trajectories; rejections"""
import math
from collections import Counter
import netomaton as ntm
from harness import expect, canon, raises


def H(xs):
    c = Counter(xs)
    return -sum(v / len(xs) * math.log2(v / len(xs)) for v in c.values())


def close(a, b, what): expect(abs(float(a) - b) < 1e-9, "%s is %r, should be %r", what, a, b)


def pair(x, y):
    close(ntm.shannon_entropy(x), H(list(x)), "entropy of %r" % (x,))
    close(ntm.joint_shannon_entropy(x, y), H(list(zip(x, y))), "joint entropy of %r and %r" % (x, y))
    close(ntm.mutual_information(x, y), H(list(x)) + H(list(y)) - H(list(zip(x, y))), "mutual information of %r and %r" % (x, y))


def average(rows, d, trajectory):
    n = len(rows[0])
    if trajectory:
        arg = [ntm.State(activities=dict(reversed(list(enumerate(r)))), network=None) for r in rows]
        if trajectory == "evolve":
            it = {i: None for i in range(n)}
            arg = ntm.evolve(ntm.topology.disconnected(n), list(rows[0]), lambda ctx: rows[ctx.timestep][ctx.node_label], len(rows))
    else: arg = [list(r) for r in rows]
    cols = [[repr(r[i]) for r in rows] for i in range(n)]
    close(ntm.average_node_entropy(arg), sum(H(c) for c in cols) / n, "average entropy of %r" % (rows,))
    if 1 <= d <= len(rows) - 1:
        mi = [H(c[:-d]) + H(c[d:]) - H(list(zip(c[:-d], c[d:]))) for c in cols]
        close(ntm.average_mutual_information(arg, temporal_distance=d), sum(mi) / n, "average mutual information at distance %d of %r" % (d, rows))
        if d == 1: close(ntm.average_mutual_information(arg), sum(mi) / n, "average mutual information of %r" % (rows,))
    else: expect(raises(ntm.average_mutual_information, arg, temporal_distance=d) is not None, "temporal distance %r accepted for %d timesteps", d, len(rows))


def empty():
    expect(raises(ntm.average_node_entropy, []) is not None and raises(ntm.average_mutual_information, []) is not None, "no activities accepted")


KINDS = {"pair": pair, "average": average, "empty": empty}


def systematic(tier):
    import itertools
    yield "empty", {}
    for n in range(1, 5):
        for x in itertools.product("01", repeat=n):
            for y in itertools.product("01", repeat=n): yield "pair", dict(x="".join(x), y="".join(y))
    for T in range(1, 5):
        for n in range(1, 4):
            for d in range(-1, T + 2):
                for tr in (None, "state", "evolve"): yield "average", dict(rows=[[(3 * t * i + t) % 3 for i in range(n)] for t in range(T)], d=d, trajectory=tr)


def rand(rng):
    if rng.random() < 0.4:
        n = rng.size(1, 12, 80)
        al = rng.choice(["01", "abc", "0123456789", ["0", "1", "10", "11"], [0, 1, 5], ["a", "aa", "b"], [-1, 1], "a b\n", " \t_-", "".join(rng.sample(rng.chars, min(5, len(rng.chars))))])
        x, y = [[rng.choice(al) for _ in range(n)] for _ in range(2)]
        if rng.random() < 0.3: y = list(x)
        if isinstance(al, str) and rng.random() < 0.7: x, y = "".join(x), "".join(y)
        return "pair", dict(x=x, y=y)
    T, n = rng.size(1, 8, 60), rng.size(1, 6, 20)
    al = rng.choice([[0, 1], [0, 1, 2, 3], [1, 11, 111], ["a", "b", "ab"], [0.5, 1.25], [-1, 1], [10, 1, 0, 101]])
    return "average", dict(rows=[[rng.choice(al) for _ in range(n)] for _ in range(T)], d=rng.choice([1, 1, rng.randint(1, max(1, T - 1)), T - 1, T, 0, -1, T + 1]), trajectory=rng.choice([None, "state", "evolve"]))

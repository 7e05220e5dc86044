"""random Turing machines (1-5 states, 1-4 symbols, complete and incomplete tables) on random tapes in both forms, step by step and
against each other; stopping criteria; missing entries"""
import netomaton as ntm
from harness import expect, canon, raises

STEP = {0: -1, 1: 0, 2: 1}


def ref(tape, table, q, p, maxlen, halt=None):
    """tapes and heads until the number of tapes is maxlen, the terminating state, or a missing entry (third result)"""
    tapes, heads = [list(tape)], [(q, p)]
    while len(tapes) < maxlen and not (halt is not None and len(tapes) > 1 and heads[-1][0] == halt):
        q, p = heads[-1]
        e = table.get(q, {}).get(tapes[-1][p])
        if e is None: return tapes, heads, True
        t = list(tapes[-1])
        t[p] = e[1]
        tapes.append(t)
        heads.append((e[0], (p + STEP[e[2]]) % len(t)))
    return tapes, heads, False


def mk(table): return {q: {s: (a, b, d) for s, a, b, d in row} for q, row in table}


def tape_machine(tape, table, q, p, T):
    tb = mk(table)
    tapes, heads, miss = ref(tape, tb, q, p, T)
    tm = ntm.TapeCentricTuringMachine(len(tape), tb, q, p)
    if miss:
        expect(raises(ntm.evolve, tm.network, list(tape), tm.activity_rule, T) is not None, "a missing entry was accepted")
        return
    tr = ntm.evolve(tm.network, list(tape), tm.activity_rule, T)
    got = [[canon(s.activities[i]) for i in range(len(tape))] for s in tr]
    expect(got == tapes, "tapes %r, should be %r", got, tapes)
    ha = tm.head_activities(tr)
    want = [[str(h[0]) if i == h[1] else None for i in range(len(tape))] for h in heads]
    expect(canon(ha) == want, "heads %r, should be %r", ha, want)


def head_machine(tape, table, q, p, maxt, halt):
    tb = mk(table)
    # a run of at most 60 tapes when only the terminating state can stop it
    tapes, heads, miss = ref(tape, tb, q, p, maxt or 60, halt)
    if not miss and maxt is None and heads[-1][0] != halt: return
    if maxt is None and len(tapes) == 60 and heads[-1][0] != halt: return
    given = list(tape)
    kw = {}
    if maxt is not None: kw["max_timesteps"] = maxt
    if halt is not None: kw["terminating_state"] = halt
    tm = ntm.HeadCentricTuringMachine(given, tb, q, p, **kw)
    go = lambda: ntm.evolve(tm.network, tm.initial_conditions, tm.activity_rule, input=tm.input_function)
    if miss:
        expect(raises(go) is not None, "a missing entry was accepted")
        return
    tr = go()
    th, ha = tm.activities_for_plotting(tr)
    expect(canon([list(x) for x in th]) == tapes, "tape history %r, should be %r", th, tapes)
    expect(given == list(tape), "the given tape was altered")
    hs = [tuple(canon(s.activities[0])) for s in tr]
    expect(hs == heads, "heads %r, should be %r", hs, heads)
    want = [[str(h[0]) if i == h[1] else None for i in range(len(tape))] for h in heads]
    expect(canon(ha) == want, "head activities %r, should be %r", ha, want)


def reject(n):
    expect(raises(ntm.HeadCentricTuringMachine, [0] * n, {}, 0, 0) is not None, "no stopping criterion accepted")


KINDS = {"tape": tape_machine, "head": head_machine, "reject": reject}


def gen(rng, complete, n=None):
    states = rng.choice([list(range(rng.randint(1, 5))), ["q%d" % i for i in range(rng.randint(1, 4))], [1, 2, 6][:rng.randint(1, 3)]])
    syms = rng.choice([[0, 1], [0, 1, 2], [0], ["", "a", "b"], [" ", "x"], [0, 1, 2, 3]])
    table = [[q, [[s, rng.choice(states), rng.choice(syms), rng.randrange(3)] for s in syms if complete or rng.random() < 0.85]] for q in states if complete or rng.random() < 0.95]
    n = n or rng.size(3, 7, 20)
    return dict(tape=[rng.choice(syms) for _ in range(n)], table=table, q=rng.choice(states), p=rng.choice([0, n - 1, rng.randrange(n)])), states


def systematic(tier):
    import random
    for n in range(1, 4): yield "reject", dict(n=n)
    for d in (0, 1, 2):
        for n in (3, 4):
            for p in range(n):
                o = dict(tape=[0, 1, 0, 1][:n], table=[["A", [[0, "A", 1, d], [1, "B", 0, d]]], ["B", [[0, "A", 0, 2 - d], [1, "B", 1, d]]]], q="A", p=p)
                yield "tape", dict(o, T=3 * n)
                yield "head", dict(o, maxt=3 * n, halt=None)
                yield "head", dict(o, maxt=3 * n, halt="B")
                for m in (1, 2): yield "head", dict(o, maxt=m, halt=None)


def rand(rng):
    comp = rng.random() < 0.8
    if rng.random() < 0.45:
        o, _ = gen(rng, comp)
        return "tape", dict(o, T=rng.size(2, 12, 60))
    o, states = gen(rng, comp, n=rng.choice([None, None, 1, 2]))
    hs = [s for s in states if s != o["q"]]
    x = rng.random()
    halt = None if x < 0.4 or not hs else rng.choice(hs + (["never"] if rng.random() < 0.2 else []))
    maxt = None if halt is not None and rng.random() < 0.4 else rng.size(1, 12, 50)
    if halt is None and maxt is None: maxt = 5
    return "head", dict(o, maxt=maxt, halt=halt)

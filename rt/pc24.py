"""random substitution systems on blocks of 1 to 3 symbols (with constants, empty replacements, string and number axioms) against
parallel rewriting of the string; rejected rule sets; padding"""
import numpy as np
import netomaton as ntm
from harness import expect, canon, raises


def rewrite(s, rules, m): return "".join(rules[s[i:i + m]] for i in range(len(s) - m + 1))


def system(axiom, rules, constants, form, T, before=()):
    full = dict(rules)
    for c in constants or []: full[c] = c
    m = len(next(iter(full)))
    strs = [axiom]
    for _ in range(T - 1):
        n = rewrite(strs[-1], full, m)
        if not n or len(n) > 250: break
        strs.append(n)
    T = len(strs)
    if T < 2: return
    ax = [int(c) for c in axiom] if form == "ints" else axiom if form == "str" else list(axiom)
    s = ntm.SubstitutionSystem(ax, dict(rules), **({"constants": list(constants)} if constants is not None else {}))
    for T0 in before: ntm.evolve(s.network, s.initial_conditions, s.activity_rule, min(T0, T))      # earlier runs of the same system
    tr = ntm.evolve(s.network, s.initial_conditions, s.activity_rule, T)
    expect(len(tr) == T, "%d states", len(tr))
    for t, st in enumerate(tr):
        a = st.activities
        got = [canon(a[l]) for l in sorted(a)]
        want = [int(c) for c in strs[t]] if form == "ints" else list(strs[t])
        expect(got == want, "timestep %d spells %r, should be %r", t, "".join(map(str, got)), strs[t])
    if form == "ints":
        p = canon(ntm.SubstitutionSystem.pad(tr))
        w = max(map(len, strs))
        expect(p == [[int(c) for c in x] + [0] * (w - len(x)) for x in strs], "padded %r", p)
    else:
        expect(ntm.SubstitutionSystem.to_string(tr) == strs, "strings %r", ntm.SubstitutionSystem.to_string(tr))


def reject(axiom, rules, constants):
    expect(raises(ntm.SubstitutionSystem, axiom, dict(rules), **({"constants": constants} if constants else {})) is not None, "rules %r accepted", rules)


def padding(rows, base, backwards):
    """trajectories of states as a substitution system leaves them: consecutive labels, recorded in any order"""
    tr = []
    for r in rows:
        items = [(base + i, v) for i, v in enumerate(r)]
        if backwards: items.reverse()
        tr.append(ntm.State(activities=dict(items), network=None))
    w = max(map(len, rows))
    p = canon(ntm.SubstitutionSystem.pad(tr))
    expect(p == [list(r) + [0] * (w - len(r)) for r in rows], "padded rows differ at %r", [i for i, r in enumerate(rows) if i >= len(p) or p[i] != list(r) + [0] * (w - len(r))][:3])


KINDS = {"padding": padding, "system": system, "reject": reject}


def systematic(tier):
    for n in (9, 11, 101, 1001, 10013): yield "padding", dict(rows=[[1], [(7 * i * i + i) % 251 + 1 for i in range(n)], [2, 3]], base=0, backwards=n % 2 == 0)
    yield "reject", dict(axiom="ab", rules={"a": "b", "ab": "a"}, constants=None)
    yield "reject", dict(axiom="ab", rules={"ab": "b", "a": "a"}, constants=None)
    yield "reject", dict(axiom="abc", rules={"ab": "b", "bc": "c", "abc": "a"}, constants=None)
    yield "reject", dict(axiom="ab", rules={"ab": "b"}, constants=["c"])
    for before in ([2], [3], [2, 2], [1, 3, 2]):
        for T in (2, 3, 4): yield "system", dict(axiom="AAB", rules={"AA": "AB", "AB": "BA", "BA": "AA", "BB": "B"}, constants=None, form="str", T=T, before=before)
    yield "system", dict(axiom="F", rules={"F": "F+F"}, constants=["+"], form="str", T=5)
    yield "system", dict(axiom="X", rules={"X": "F[X]", "F": "FF"}, constants=["[", "]"], form="list", T=5)
    yield "system", dict(axiom="12", rules={"22": "22", "21": "1", "12": "21", "11": ""}, constants=None, form="ints", T=6)
    yield "system", dict(axiom="212", rules={"2": "21", "1": ""}, constants=None, form="ints", T=5)


def rand(rng):
    if rng.random() < 0.1: return "padding", dict(rows=[[rng.randint(-3, 300) for _ in range(rng.size(1, 12, 3000))] for _ in range(rng.randint(1, 5))], base=rng.choice([0, 0, 0, rng.num(0, 2000), rng.randint(0, 10 ** 6)]), backwards=rng.random() < 0.5)
    m = rng.choice([1, 1, 2, 2, 3])
    form = rng.choice(["ints", "str", "list"])
    al = rng.choice(["12", "0123", "123"]) if form == "ints" else rng.choice(["ab", "AB+", "Fxy"])
    import itertools
    ks = ["".join(x) for x in itertools.product(al, repeat=m)]
    consts = None
    if m == 1 and rng.random() < 0.4:
        consts = rng.sample(al, rng.randint(0, len(al) - 1))
        ks = [k for k in ks if k not in consts]
    lens = rng.choice([[1, 2], [0, 1, 2], [0, 1, 2, 3], [2], [1, 2, 3]])
    rules = {k: "".join(rng.choice(al) for _ in range(rng.choice(lens))) for k in ks}
    axiom = "".join(rng.choice(al) for _ in range(rng.size(1, 9, 40)))
    if rng.random() < 0.05:
        k = rng.choice(list(rules))
        bad = dict(rules); bad[k + "a"] = "a"
        return "reject", dict(axiom=axiom, rules=bad, constants=None)
    return "system", dict(axiom=axiom, rules=rules, constants=consts, form=form, T=rng.size(2, 6, 15), before=[rng.randint(1, 4) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))])

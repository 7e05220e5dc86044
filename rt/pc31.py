"""random instruction sequences on turtles started anywhere, step by step; L-system strings with random bindings against the expected
instruction sequence"""
import math
import netomaton as ntm
from harness import expect, canon


class T(ntm.Turtle):
    def plot(self, *a, **k): self.plotted = getattr(self, "plotted", 0) + 1
    def animate(self, *a, **k): self.plotted = getattr(self, "plotted", 0) + 1


def close(a, b, what): expect(abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)), "%s is %r, should be %r", what, a, b)


def ops(start, seq):
    t = T(*start) if start else T()
    x, y, o = start if start else (0, 0, 0)
    stack, segs = [], []
    for op in seq:
        px, py, po, ns = t.x, t.y, t.orientation, len(t.trajectory)
        if op[0] == "f":
            d = op[1] if len(op) > 1 else 1
            t.forward(*op[1:])
            nx, ny = x + d * math.sin(math.radians(o)), y + d * math.cos(math.radians(o))
            segs.append(([x, nx], [y, ny])); x, y = nx, ny
        elif op[0] == "r":
            t.rotate(op[1]); o += op[1]
            expect((t.x, t.y) == (px, py), "rotating moves the turtle")
        elif op[0] == "[":
            t.push(); stack.append((x, y, o, t.x, t.y, t.orientation))
            expect((t.x, t.y, t.orientation) == (px, py, po), "push changes the turtle")
        else:
            t.pop()
            x, y, o, rx, ry, ro = stack.pop()
            expect((t.x, t.y, t.orientation) == (rx, ry, ro), "pop restores %r instead of %r", (t.x, t.y, t.orientation), (rx, ry, ro))
        close(t.x, x, "x"); close(t.y, y, "y"); close(t.orientation, o, "heading")
        expect(tuple(t.pos) == (t.x, t.y), "pos")
        expect(len(t.trajectory) == len(segs), "%d segments after %r, should be %d", len(t.trajectory), op, len(segs))
    for i, (s, w) in enumerate(zip(t.trajectory, segs)):
        for a, b in zip(list(s[0]) + list(s[1]), w[0] + w[1]): close(a, b, "segment %d" % i)
        expect(len(s) == 2 and len(s[0]) == 2 and len(s[1]) == 2, "segment %d: %r", i, s)


def system(string, bindings, start, animate):
    """bindings: symbol -> list of instructions (op, args...) with a form: single, tuple, list"""
    log = []
    def fn(name):
        def f(*a): log.append([name] + list(a))
        return f
    fs = {n: fn(n) for n in "fgrpq"}
    def one(i, form): return fs[i[0]] if len(i) == 1 and form != "tuple" else tuple([fs[i[0]]] + i[1:])
    b = {}
    for sym, (form, ins) in bindings.items(): b[sym] = [one(i, "plain") for i in ins] if form == "list" else one(ins[0], form)
    state = ntm.State(activities=dict(reversed(list(enumerate(string)))), network=None)
    t = T()
    (ntm.animate_L_system if animate else ntm.plot_L_system)(state, t, b)
    want = []
    for s in string: want += bindings[s][1] if bindings[s][0] == "list" else bindings[s][1][:1]
    expect(canon(log) == want, "instructions %r, should be %r", log, want)
    expect(getattr(t, "plotted", 0) == 1, "plotted %d times", getattr(t, "plotted", 0))


KINDS = {"ops": ops, "system": system}


def systematic(tier):
    for a in (0, 30, 45, 90, 180, 270, 360, -90, 725):
        for d in (0, 1, 2.5, -1): yield "ops", dict(start=[1, 2, a], seq=[["f", d], ["f"]])
    yield "ops", dict(start=None, seq=[["f"], ["["], ["r", 90], ["f", 2], ["["], ["r", -30], ["f", 1], ["]"], ["f", 3], ["]"], ["f", 1]])
    for f in ("single", "tuple", "list"):
        for an in (False, True): yield "system", dict(string="aba", bindings={"a": [f, [["f"]]], "b": ["list", [["r", 25], ["g"], ["p", 1, 2]]]}, start=None, animate=an)


def rand(rng):
    if rng.random() < 0.5:
        seq, depth = [], 0
        for _ in range(rng.size(1, 20, 150)):
            x = rng.random()
            if x < 0.45: seq.append(["f"] if rng.random() < 0.2 else ["f", rng.choice([0, 1, -2, rng.random() * 5, rng.randint(0, 9)])])
            elif x < 0.7: seq.append(["r", rng.choice([90, -90, 25.7, 180, 360, rng.randint(-720, 720), rng.random() * 100])])
            elif x < 0.87 or not depth: seq.append(["["]); depth += 1
            else: seq.append(["]"]); depth -= 1
        seq += [["]"]] * depth
        return "ops", dict(start=rng.choice([None, [rng.randint(-5, 5), rng.random(), rng.choice([0, 90, 33, -10])]]), seq=seq)
    syms = rng.sample("abFX+-[]01", rng.randint(1, 6))
    ins = lambda: [rng.choice("fgrpq")] + [rng.choice([0, 1, 90, -25, 0.5]) for _ in range(rng.choice([0, 0, 1, 2]))]
    bind = {s: [rng.choice(["single", "tuple", "list"]), [ins() for _ in range(rng.randint(1, 4))]] for s in syms}
    for s in bind:
        if bind[s][0] == "list" and rng.random() < 0.2: bind[s][1] = []
    return "system", dict(string="".join(rng.choice(syms) for _ in range(rng.size(1, 10, 60))), bindings=bind, start=None, animate=rng.random() < 0.3)

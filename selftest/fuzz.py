"""Differential test of the prover: random small functions are run by Python and by the symbolic engine on the same input
(given to the engine as constraints, so that loops are summarised symbolically). What Python does must be among the
behaviours the engine allows: an engine that excludes it would prove false things.
usage: python3-vt selftest/fuzz.py SEED COUNT"""
import os, random, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = tempfile.mkdtemp(prefix="dvfuzz")
os.environ["DV_REPO"] = D
import z3
from dv import session, interp, core, loops, builtins as B
from dv.core import *
from dv.session import S
from dv.interp import Engine, PyExc, PathEnd, Dec


class Endless(BaseException): pass


class Gen:
    def __init__(self, rnd): self.r = rnd; self.depth = 0
    def ch(self, *a): return self.r.choice(a)
    def iexpr(self, vs, d=0):
        k = self.r.randrange(9)
        if d > 1 or k < 3: return self.ch(*vs)
        if k == 3: return str(self.r.randrange(-2, 4))
        if k == 4: return "(%s + %s)" % (self.iexpr(vs, d + 1), self.iexpr(vs, d + 1))
        if k == 5: return "(%s - %s)" % (self.iexpr(vs, d + 1), self.iexpr(vs, d + 1))
        if k == 6: return "(%s * %d)" % (self.iexpr(vs, d + 1), self.r.randrange(-1, 3))
        if k == 7: return "(%s %s %d)" % (self.iexpr(vs, d + 1), self.ch("//", "%"), self.r.randrange(1, 4))
        return "(%s if %s else %s)" % (self.iexpr(vs, d + 1), self.cond(vs, d + 1), self.iexpr(vs, d + 1))
    def cond(self, vs, d=0):
        c = "%s %s %s" % (self.iexpr(vs, d + 1), self.ch("<", "<=", "==", "!=", ">"), self.iexpr(vs, d + 1))
        return c if self.r.random() < .8 else "(%s %s %s)" % (c, self.ch("and", "or"), self.cond(vs, d + 1) if d < 2 else c)
    def idx(self, vs, i):
        return self.ch(i, i, i, i + " - 1", i + " + 1", "len(x) - 1 - " + i, "0", "-1", self.iexpr(vs) + " % len(x)")
    def stmt(self, vs, i, lv):
        r = self.r
        k = r.randrange(21)
        e = lambda: self.iexpr(vs + ["x[%s]" % self.idx(vs, i)] * 2)
        if k <= 2: return ["x[%s] = %s" % (self.idx(vs, i), e())]
        if k == 3: return ["a += %s" % e()]
        if k == 4: return ["y.append(%s)" % e()]
        if k == 5: return ["b = %s" % e()]
        if k == 6: return ["d[%s] = %s" % (self.ch(i, e(), i), e())]
        if k == 7: return ["y[%s] = %s" % (i, e())] if r.random() < .5 else ["a -= y[%s]" % self.ch(i, i + " - 1", "0", "-1")]
        if k == 8: return ["if %s:" % self.cond(vs + ["x[%s]" % self.idx(vs, i)])] + ["    " + s for s in self.block(vs, i, lv)] + (["else:"] + ["    " + s for s in self.block(vs, i, lv)] if r.random() < .4 else [])
        if k == 9: return ["if %s: %s" % (self.cond(vs + ["x[%s]" % i]), self.ch("continue", "break", "return a"))]
        if k == 10 and lv < 2: return self.loop(vs, lv + 1)
        if k == 11: return ["a = max(a, %s)" % e()] if r.random() < .5 else ["b, a = a, b"]
        if k == 12: return ["if %s in d: a += d[%s]" % (i, i)] if r.random() < .5 else ["a += d.get(%s, 7)" % e()]
        if k == 13: return ["c = [%s for q in %s%s]" % (self.iexpr(vs + ["q"]), self.ch("x", "y", "range(%s)" % i), self.ch("", " if %s" % self.cond(vs + ["q"]))), "a += len(c) + sum(c)"]
        if k == 14: return ["y = x" if r.random() < .2 else "y = %s" % self.ch("[]", "list(x)", "x[1:]", "[b] * 3", "y + [a]")]
        if k == 15: return ["a += %s" % self.ch("sum(q * q for q in x)", "int(any(q > b for q in x))", "int(all(q > b for q in y))", "sum(1 for q in x if q == %s)" % e(), "len([q for q in d if q > 1])", "len(set(x))", "sum(p - q for p, q in zip(x, x[1:]))", "max([q for q in x] + [0])", "x.count(%s)" % e(), "int(%s in x)" % e(), "int(%s in y)" % e())]
        if k == 16: return self.ch(["y.sort()"], ["y.reverse()"], ["if y: a += y.pop()"], ["if y: a += y.pop(0)"], ["y.insert(0, %s)" % e()], ["y.extend(x)"], ["y = y[::-1]"], ["y = sorted(x)"], ["y = y[%s:]" % e()], ["y = y[:%s]" % e()], ["y = [q for q in reversed(y)]"])
        if k == 17: return self.ch(["d.pop(%s, None)" % e()], ["d[%s] = d.get(%s, 0) + 1" % (i, i)], ["for q in d: a += d[q]"], ["for q, w in d.items(): a += q * w"], ["for q in list(d): d[q] = a"], ["d = {q: a for q in x}"], ["a += len(d)"], ["if %s in d: del d[%s]" % (i, i)])
        if k == 18 and lv < 2:
            c = "c%d" % r.randrange(1000)
            return ["%s = 0" % c, "while %s < %s:" % (c, self.ch("len(x)", "n", "3"))] + ["    " + t for t in self.block(vs + [c], c, lv + 1)] + ["    %s += 1" % c]
        if k == 19: return ["w = x[%s]" % i, "x[%s] = x[%s]" % (i, self.idx(vs, i)), "x[%s] = w" % self.idx(vs, i)] if r.random() < .5 else ["p, q = x[%s], %s" % (i, e()), "a += p * 2 - q"]
        if k == 20: return self.ch(["for q in z: a += len(q)"], ["for q in z: q.append(a)"], ["z = [list(q) for q in z]"], ["z.append([a])"], ["z = z + z"], ["a += sum(sum(q) for q in z)"], ["y = z[%s]" % self.ch(i, "0", "-1")], ["z[%s] = y" % self.ch(i, "0", "-1")], ["z[0], z[-1] = z[-1], z[0]"])
        return ["a += %s(x)" % self.ch("len", "sum", "max", "min")] if r.random() < .5 else ["x.append(%s)" % e()] if r.random() < .15 else ["z[%s].append(%s)" % (self.ch(i, "0", "-1"), e())] if r.random() < .5 else ["z[%s][%s] = %s" % (self.ch(i, "0", "-1"), self.ch("0", i), e())]
    def block(self, vs, i, lv): return [s for _ in range(self.r.choice([1, 1, 2, 2, 3])) for s in self.stmt(vs, i, lv)]
    def loop(self, vs, lv=0):
        v = "ijk"[lv]
        L = self.ch("for %s in range(len(x)):" % v, "for %s in range(len(x)):" % v, "for %s in range(1, len(x)):" % v, "for %s in range(len(x) - 1):" % v, "for %s in range(len(x) - 1, -1, -1):" % v,
                    "for w, %s in zip(x, range(7)):" % v, "for %s, w in enumerate(reversed(x)):" % v, "for %s, w in list(d.items()):" % v, "for %s in d:" % v, "for %s, w in d.items():" % v, "for %s, w in enumerate(x):" % v, "for %s, w in enumerate(y):" % v, "for %s in range(a %% 4):" % v, "for %s in x:" % v, "for %s in range(n):" % v)
        vs2 = vs + [v] * 2 + (["w"] if ", w in" in L else [])
        return [L] + ["    " + s for s in self.block(vs2, v, lv)]
    def func(self, name):
        b = []
        b += self.ch([], ["y = list(x)"], ["y = [0] * len(x)"], ["d = {q: q + 1 for q in x}"], ["z = [[q, 1] for q in x]"], ["z = [[] for q in x]"])
        for _ in range(self.ch(1, 1, 2)): b += self.loop(["a", "b", "n"])
        return "def %s(x, n):\n    a, b, y, d, z = 0, 1, [], {}, [[0, 0], [0, 0]]\n" % name + "".join("    %s\n" % s for s in b) + "    return a, b, x, y, d, z\n"


class MGen(Gen):
    """nested loops that fill matrices"""
    def stmt(self, vs, i, lv):
        r, up = self.r, [v for v in "ijk"[:lv + 1]]
        ix = lambda: self.ch(*up, *up, *up, i, i + " - 1", "0", "-1", "(%s + 1) %% len(x)" % i, "%s %% len(x)" % self.iexpr(up))
        e = lambda: self.iexpr(vs + up + ["z[%s][%s]" % (ix(), ix()), "x[%s]" % ix()])
        k = r.randrange(10)
        if k <= 1: return ["z[%s][%s] += %s" % (ix(), ix(), e())]
        if k == 2: return ["z[%s][%s] = %s" % (ix(), ix(), self.ch("1", "1", e()))]
        if k == 3: return ["x[%s] += %s" % (ix(), e())]
        if k == 4: return ["a += %s" % e()]
        if k == 5: return ["if %s:" % self.cond(up + ["z[%s][%s]" % (ix(), ix())])] + ["    " + s for s in self.block(vs, i, lv)] + (["else:"] + ["    " + s for s in self.block(vs, i, lv)] if r.random() < .6 else [])
        if k == 6: return ["q = z[%s]" % ix(), "q[%s] %s %s" % (ix(), self.ch("=", "+="), e())]
        if lv < 2: return self.loop(vs, lv + 1)
        return ["z[%s][%s] %s %s" % (up[0], up[-1], self.ch("=", "+=", "-="), e())]
    def loop(self, vs, lv=0):
        v = "ijk"[lv]
        L = self.ch(*["for %s in range(len(x)):" % v] * 4, "for %s, w in enumerate(x):" % v, "for %s in range(n):" % v, "for %s in range(len(x) - 1):" % v, "for %s, w in enumerate(z):" % v, "for %s in range(%s):" % (v, "i" if lv else "len(x)"))
        return [L] + ["    " + s for s in self.block(vs, v, lv)]
    def block(self, vs, i, lv): return [s for _ in range(self.r.choice([1, 1, 1, 2])) for s in self.stmt(vs, i, lv)]
    def func(self, name):
        b = self.ch(["z = [[0 for q in x] for p in x]"], ["z = [[p * q for q in x] for p in x]"], ["z = [[0] * len(x) for p in x]"], ["z = [list(x), list(x), x[:]]"])
        b += self.loop(["a", "n"])
        return "def %s(x, n):\n    a, b, y, d, z = 0, 1, [], {}, [[0, 0], [0, 0]]\n" % name + "".join("    %s\n" % s for s in b) + "    return a, b, x, y, d, z\n"


def matches(v, py):
    """a formula: the symbolic value is the Python value"""
    if isinstance(py, (tuple, list)):
        it = v if isinstance(v, tuple) else None
        if it is not None: return And(len(it) == len(py), *[matches(a, b) for a, b in zip(it, py)])
        if not isinstance(v, SeqV): return False
        return And(eqv(v.n, len(py)), *[matches(v.at(i), py[i]) for i in range(len(py))] if not isinstance(v.n, int) or v.n == len(py) else [False])
    if isinstance(py, dict):
        if isinstance(v, CMapV) and not v.d: return not py
        m = to_map(v, TInt)
        if core._nomap(m): return not py
        return And(eqv(m.n, len(py)), *[And(m.has(k), matches(m.val(k), x)) for k, x in py.items()])
    if py is None: return v is None
    if isinstance(v, OptV): return And(Not(v.none), matches(v.v, py))
    if v is None: return False
    return eqv(v, py)


def one(name, src, xs, n):
    """None, or what is wrong"""
    ns = {}
    exec(src, ns)
    x0 = list(xs)
    steps = [0]
    def tr(f, ev, a):
        steps[0] += 1
        if steps[0] > 5000: raise Endless()
        return tr
    sys.settrace(tr)
    try: exp = ("ret", ns[name](x0, n))
    except Endless: return "skip: endless"
    except Exception as e: exp = ("exc", type(e).__name__)
    finally: sys.settrace(None)
    eng = Engine({}, {})
    eng.unit = name; eng.hints = {}
    eng.deadline = time.time() + 15
    log, npaths = [], 0
    found = False
    try:
        while True:
            eng.reset(); eng.contracts = {}
            eng.decs = [Dec(log)]
            s = S(eng)
            x = s.fresh(TList(TInt), "x"); v = s.v(x)
            s.assume(v.n == len(xs), *[v.at(i) == c for i, c in enumerate(xs)])
            if n is not None: s.assume(s.int("n") == n)
            bad = None
            try:
                r = s.v(s.call("prog:" + name, x, z3.Int("n")))
                if exp[0] == "ret":
                    r = tuple(s.v(q) for q in r) if isinstance(r, tuple) else r
                    f = zb(matches(r, exp[1]))
                    sv = z3.Solver(); sv.set("timeout", 3000)
                    for c in eng.pc: sv.add(c[1])
                    sv.add(f)
                    if sv.check() != z3.unsat: found = True
            except PathEnd: pass
            except PyExc as e:
                found = found or exp[0] == "exc"
            if exp[0] == "exc":
                for o in eng.obls:
                    sv = z3.Solver(); sv.set("timeout", 2000)
                    for c in o.pc: sv.add(c)
                    sv.add(z3.Not(zb(o.goal)))
                    if sv.check() != z3.unsat: found = True; break
            if found: return None
            npaths += 1
            if npaths > 60: return "skip: paths"
            if not eng.backtrack(log): break
    except Unsupported as e: return "skip: " + str(e)[:80]
    return "UNSOUND: %s excluded on %s, n=%s" % (exp, xs, n)


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    rnd = random.Random(seed)
    st = dict(ok=0, skip=0, bad=0)
    why = {}
    try:
        for c in range(count):
            g = (MGen if c % 3 == 2 else Gen)(rnd)
            name = "f%d" % c
            src = g.func(name)
            with open(os.path.join(D, "prog.py"), "w") as f: f.write(src)
            try: compile(src, "p", "exec")
            except SyntaxError as e: print(src); raise
            for _ in range(2):
                xs = [rnd.randrange(-3, 5) for _ in range(rnd.choice([0, 1, 2, 3, 3, 4]))]
                n = rnd.randrange(0, 4)
                try: r = one(name, src, xs, n)
                except interp.NeedHead as e: r = "skip: needhead"
                except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e: r = "skip: %s %s" % (type(e).__name__, str(e)[:60])
                if r is None: st["ok"] += 1
                elif r.startswith("skip"): st["skip"] += 1; why[r[:50]] = why.get(r[:50], 0) + 1
                else: st["bad"] += 1; print(src); print(r); sys.stdout.flush()
    finally: shutil.rmtree(D)
    print(st)
    if os.environ.get("V"):
        for k, v in sorted(why.items(), key=lambda t: -t[1])[:25]: print(v, k)
    return 1 if st["bad"] else 0


if __name__ == "__main__": sys.exit(main())

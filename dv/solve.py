"""Discharging proof obligations: ground facts about the defined functions (prefix sums, powers, floor division, digit
characters) that occur in an obligation are added, then z3 (several strategies) and cvc5 are asked."""
import os, subprocess, sys, tempfile, time
import z3
from .core import *
from . import core
from .interp import DIV, MOD
from .builtins import SUMS, POW, NDIG, CHR, ORD, STRI, STRINV, SQRTF

UNINT = z3.Z3_OP_UNINTERPRETED


def ground(e, cache):
    """no free de Bruijn variables"""
    k = e.get_id()
    if k in cache: return cache[k][1]
    if z3.is_var(e): r = False
    elif z3.is_quantifier(e): r = False
    else: r = all(ground(c, cache) for c in e.children())
    cache[k] = (e, r)
    return r


def skolemise(hyps, goal, n=0):
    """strip the goal's leading quantifiers and implications: (hypotheses, conclusion)"""
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const("sk%d!%s" % (n + i, goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
            n += len(vs)
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
            hyps.append(goal.arg(0)); goal = goal.arg(1)
        else: return goal


def split(goal):
    """goal as a list of goals (conjunctions under quantifiers and implications are split)"""
    if z3.is_and(goal): return [g for c in goal.children() for g in split(c)]
    if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
        gs = split(goal.arg(1))
        if len(gs) > 1: return [z3.Implies(goal.arg(0), g) for g in gs]
    return [goal]


def top_exists(hyps):
    """Skolem constants for existential hypotheses"""
    out, todo, n = [], list(hyps), 0
    while todo:
        h = todo.pop(0)
        if z3.is_and(h): todo = list(h.children()) + todo; continue
        if z3.is_quantifier(h) and h.is_exists():
            vs = [z3.Const("ex%d!%s" % (n + i, h.var_name(i)), h.var_sort(i)) for i in range(h.num_vars())]
            n += len(vs)
            todo.insert(0, z3.substitute_vars(h.body(), *reversed(vs))); continue
        if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
            q = h.arg(0)
            vs = [z3.Const("ex%d!%s" % (n + i, q.var_name(i)), q.var_sort(i)) for i in range(q.num_vars())]
            n += len(vs)
            todo.insert(0, z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))); continue
        out.append(h)
    return out


class Sat:
    def __init__(self, forms, rounds=2, pairs=True):
        self.cache = {}
        self.facts, self.done = [], set()
        self.names = set()
        self.quant_funs = set()
        self.terms = {}
        self.strs = {}
        self.sums, self.pows, self.divs = [], [], []
        self.pairs = pairs
        new = self.collect(forms, 0)
        for r in range(rounds):
            if not new: break
            fs = []
            for t, lvl in new: fs += self.unary(t, lvl)
            if r == 0 and pairs: fs += self.pairwise()
            fs = [f for f in fs if f is not None]
            self.facts += fs
            new = self.collect(fs, r + 1)
        if pairs: self.facts += self.pairwise(late=True)
        self.facts += self.closing()

    def collect(self, forms, lvl):
        new = []
        todo = [f for f in forms if is_z(f)]
        seen = self.done
        while todo:
            e = todo.pop()
            k = e.get_id()
            if k in seen: continue
            seen.add(k); self.terms[k] = e
            if z3.is_quantifier(e): todo.append(e.body()); continue
            if not z3.is_app(e): continue
            todo.extend(e.children())
            if e.decl().kind() != UNINT: continue
            nm = e.decl().name()
            if e.num_args() == 0:
                if nm.startswith("str:"): self.strs[nm] = e
                continue
            interesting = nm.startswith("Sum!") or nm in ("pydiv", "pymod", "pow", "ndigits", "chr", "str_int", "sqrt", "ord")
            if not interesting: continue
            if ground(e, self.cache): new.append((e, lvl))
            else: self.quant_funs.add(nm)
        return new

    def w(self, base):
        n = len(self.names); self.names.add(n)
        return z3.Int("%s!!%d" % (base, n))

    def unary(self, t, lvl):
        nm = t.decl().name()
        a = t.children()
        f = []
        if nm.startswith("Sum!"):
            self.sums.append((t, lvl))
            n = a[-1]
            nv = z3.simplify(n)
            body = lambda i: SUMS.body(t, i)
            zero = z3.IntVal(0) if t.sort() == z3.IntSort() else z3.RealVal(0)
            if z3.is_int_value(nv) and nv.as_long() <= 40:
                s = zero
                for i in range(max(0, nv.as_long())): s = s + body(i)
                f.append(t == s)
                return f
            f.append(z3.Implies(n <= 0, t == zero))
            prev = t.decl()(*(a[:-1] + [z3.simplify(n - 1)]))
            f.append(z3.Implies(n > 0, t == prev + body(z3.simplify(n - 1))))
            if lvl <= 1:
                w = self.w("nn")
                f.append(z3.Or(t >= zero, z3.And(0 <= w, w < n, body(w) < zero)))
                i = z3.Int("si!%d" % len(self.names))
                w3 = self.w("np")
                f.append(z3.Or(t <= zero, z3.And(0 <= w3, w3 < n, body(w3) > zero)))
                # a non-negative sum is at least each of its terms
                w4 = self.w("nt")
                b = body(i)
                f.append(z3.Or(z3.And(0 <= w4, w4 < n, body(w4) < zero), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), b <= t))))
                cnt = _count_body(z3.simplify(body(i)))
                if cnt:
                    w2 = self.w("nf")
                    f.append(z3.Implies(n >= 0, t <= n))
                    f.append(z3.Implies(z3.And(n >= 0, t < n), z3.And(0 <= w2, w2 < n, body(w2) == 0)))
                    f.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, b == 0), t <= n - 1)))
        elif nm == "pow":
            b, e = a
            self.pows.append((t, lvl))
            ev = z3.simplify(e)
            if z3.is_int_value(ev) and 0 <= ev.as_long() <= 64:
                p = z3.IntVal(1)
                for _ in range(ev.as_long()): p = p * b
                f.append(t == p)
            else:
                f.append(z3.Implies(e == 0, t == 1))
                f.append(z3.Implies(e > 0, t == b * POW(b, z3.simplify(e - 1))))
            f.append(z3.Implies(z3.And(b >= 1, e >= 0), t >= 1))
        elif nm in ("pydiv", "pymod"):
            x, b = a
            q, r = DIV(x, b), MOD(x, b)
            self.divs.append((x, b))
            f.append(z3.Implies(b > 0, z3.And(0 <= r, r < b, x == b * q + r)))
            f.append(z3.Implies(z3.And(b > 0, 0 <= x, x < b), z3.And(q == 0, r == x)))
            f.append(z3.Implies(z3.And(b > 0, x >= 0), z3.And(q >= 0, q <= x)))
            for j in (-2, -1, 1, 2, 3):
                f.append(z3.Implies(z3.And(b > 0, b * j <= x, x < b * (j + 1)), z3.And(q == j, r == x - b * j)))
            if lvl == 0:
                # shifting the dividend by multiples of the divisor: (x + b*c) // b
                pass
        elif nm == "ndigits":
            x, b = a
            f.append(z3.Implies(b >= 2, t >= 1))
            f.append(z3.Implies(z3.And(b >= 2, x >= 1), z3.And(POW(b, t - 1) <= x, x < POW(b, t))))
            f.append(z3.Implies(z3.And(b >= 2, x == 0), t == 1))
        elif nm == "chr":
            f.append(z3.Implies(z3.And(0 <= a[0], a[0] < 36), ORD(t) == a[0]))
        elif nm == "str_int":
            f.append(z3.Implies(z3.And(0 <= a[0], a[0] <= 9), t == CHR(a[0])))
            f.append(STRINV(t) == a[0])
        elif nm == "sqrt":
            f.append(z3.Implies(a[0] >= 0, z3.And(t >= 0, t * t == a[0])))
        return f

    def pairwise(self, late=False):
        f = []
        sums = [s for s, l in self.sums if l <= (1 if late else 0)]
        if len(sums) > 40: sums = sums[:40]
        for i in range(len(sums)):
            for j in range(i):
                s, t = sums[i], sums[j]
                if s.sort() != t.sort() or (s.get_id(), t.get_id()) in self.done: continue
                n, m = s.children()[-1], t.children()[-1]
                d = z3.simplify(n - m)
                if z3.is_int_value(d) and d.as_long() != 0 and s.decl().eq(t.decl()): continue
                self.done.add((s.get_id(), t.get_id()))
                w = self.w("ext")
                f.append(z3.Or(n != m, z3.And(0 <= w, w < n, SUMS.body(s, w) != SUMS.body(t, w)), s == t))
                if len(sums) <= 12:
                    w2 = self.w("le"); w3 = self.w("ge")
                    f.append(z3.Or(n != m, z3.And(0 <= w2, w2 < n, SUMS.body(s, w2) > SUMS.body(t, w2)), s <= t))
                    f.append(z3.Or(n != m, z3.And(0 <= w3, w3 < n, SUMS.body(s, w3) < SUMS.body(t, w3)), s >= t))
        ps = [p for p, l in self.pows if l <= 1][:14]
        for i in range(len(ps)):
            for j in range(len(ps)):
                if i == j: continue
                (b, e), (c, g) = ps[i].children(), ps[j].children()
                if (ps[i].get_id(), ps[j].get_id()) in self.done or not b.eq(c): continue
                self.done.add((ps[i].get_id(), ps[j].get_id()))
                f.append(z3.Implies(z3.And(b >= 1, 0 <= e, e <= g), ps[i] <= ps[j]))
                f.append(z3.Implies(z3.And(b >= 2, 0 <= e, e < g), b * ps[i] <= ps[j]))
        return f

    def closing(self):
        f = []
        if "chr" in self.quant_funs:
            d = z3.Int("cd")
            f.append(z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < 36), ORD(CHR(d)) == d), patterns=[CHR(d)]))
        if "str_int" in self.quant_funs:
            d = z3.Int("cd")
            f.append(z3.ForAll([d], z3.Implies(z3.And(0 <= d, d <= 9), STRI(d) == CHR(d)), patterns=[STRI(d)]))
            f.append(z3.ForAll([d], STRINV(STRI(d)) == d, patterns=[STRI(d)]))
        if "pydiv" in self.quant_funs or "pymod" in self.quant_funs:
            x, b = z3.Ints("dx db")
            ax = z3.Implies(b > 0, z3.And(0 <= MOD(x, b), MOD(x, b) < b, x == b * DIV(x, b) + MOD(x, b),
                                         z3.Implies(z3.And(0 <= x, x < b), z3.And(DIV(x, b) == 0, MOD(x, b) == x))))
            f.append(z3.ForAll([x, b], ax, patterns=[DIV(x, b)]))
            f.append(z3.ForAll([x, b], ax, patterns=[MOD(x, b)]))
        if "pow" in self.quant_funs:
            x, b = z3.Ints("dx db")
            f.append(z3.ForAll([b, x], z3.Implies(z3.And(b >= 1, x >= 0), POW(b, x) >= 1), patterns=[POW(b, x)]))
        for nm in self.quant_funs:
            if not nm.startswith("Sum!"): continue
            ps, PK, ab = SUMS.defs[nm]
            n = z3.Int("qn")
            F = z3.Function(nm, *[p.sort() for p in ps], z3.IntSort(), ab.sort())
            t = F(*ps, n)
            zero = z3.IntVal(0) if ab.sort() == z3.IntSort() else z3.RealVal(0)
            f.append(z3.ForAll(list(ps) + [n], z3.Implies(n <= 0, t == zero), patterns=[t]))
            if _nonneg(z3.simplify(ab)): f.append(z3.ForAll(list(ps) + [n], t >= zero, patterns=[t]))
        ss = list(self.strs.values()) + [CHR(z3.IntVal(i)) for i in range(36)] if self.strs else []
        if len(ss) > 1: f.append(z3.Distinct(*ss))
        return f


def _count_body(b):
    """is b If(c, 1, 0) (nested)?"""
    if z3.is_int_value(b): return b.as_long() in (0, 1)
    return z3.is_app_of(b, z3.Z3_OP_ITE) and _count_body(b.arg(1)) and _count_body(b.arg(2))


def _nonneg(b):
    if z3.is_int_value(b): return b.as_long() >= 0
    if z3.is_rational_value(b): return b.numerator_as_long() >= 0
    if z3.is_app_of(b, z3.Z3_OP_ITE): return _nonneg(b.arg(1)) and _nonneg(b.arg(2))
    return False


def unfold_axioms(forms):
    """definitional axioms of the sums with triggers (used by one strategy only)"""
    names = {}
    for e in subterms(*forms):
        if z3.is_app(e) and e.decl().kind() == UNINT and e.decl().name().startswith("Sum!"): names[e.decl().name()] = e.decl()
    f = []
    for nm, d in names.items():
        ps, PK, ab = SUMS.defs[nm]
        n = z3.Int("qn")
        t, p = d(*ps, n), d(*ps, n - 1)
        zero = z3.IntVal(0) if ab.sort() == z3.IntSort() else z3.RealVal(0)
        f.append(z3.ForAll(list(ps) + [n], z3.And(z3.Implies(n <= 0, t == zero),
                 z3.Implies(n > 0, t == p + z3.substitute(ab, (PK, n - 1)))), patterns=[t]))
    return f


def lower(e, cache=None):
    return e


def prepare(pc, goal, rounds=2, pairs=True):
    hyps = [zb(c) for c in pc]
    g = skolemise(hyps, goal)
    hyps = top_exists(hyps)
    forms = hyps + [z3.Not(g)]
    forms = top_exists(forms)
    s = Sat(forms, rounds, pairs)
    return forms + s.facts


STRATS = [("z3-fast", {"smt.mbqi": False, "smt.auto_config": False}, 1, False, 2), ("z3", {}, 2, True, 5), ("z3-ground", {}, 2, False, 4), ("z3-ematch", {"smt.mbqi": False, "smt.auto_config": False}, 2, True, 8),
          ("z3-deep", {"smt.mbqi": False, "smt.auto_config": False, "smt.random_seed": 7}, 3, True, 12),
          ("z3-nopairs", {}, 1, False, 8)]


def _hasq(f): return any(z3.is_quantifier(e) for e in subterms(f))


SCALE = [1.0]


def check_z3(forms, opts, timeout):
    s = z3.Solver()
    step_limit(s, timeout)
    for k, v in opts.items():
        s.set(k.replace("smt.", "") if k.startswith("smt.") else k, v)
    for f in forms: s.add(f)
    r = s.check()
    return r, s


def cvc5_check(forms, timeout):
    s = z3.Solver()
    for f in forms: s.add(f)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); p = f.name
    try:
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 1, int(timeout) + 2))
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * WALL * 1000), "--lang=smt2", p], capture_output=True, text=True, timeout=timeout * WALL + 5, preexec_fn=lim)
        return r.stdout.strip().split("\n")[0]
    except Exception: return "unknown"
    finally: os.unlink(p)


def discharge(o, budget=25.0, cvc=True):
    """sets o.status in proved / failed / unknown"""
    t0 = cpu()
    if o.status == "proved": return o
    if any(zb(c).eq(zb(o.goal)) for c in o.pc):
        o.status, o.backend, o.time = "proved", "simplifier", cpu() - t0
        return o
    budget *= SCALE[0]
    goals = split(o.goal)
    o.status, o.backend = "proved", "simplifier"
    for g in goals:
        st, be, model = one(o.pc, g, budget - (cpu() - t0), cvc)
        o.backend = be if o.backend == "simplifier" or be == o.backend else o.backend + "+" + be if be not in o.backend else o.backend
        if st != "proved":
            o.status, o.model, o.backend = st, model, be
            break
    o.time = cpu() - t0
    return o


def one(pc, goal, budget, cvc):
    if z3.is_true(z3.simplify(goal)): return "proved", "simplifier", None
    t0 = cpu()
    best = ("unknown", "none", None)
    quants = any(z3.is_quantifier(e) for e in subterms(*([zb(c) for c in pc] + [goal])))
    for nm, opts, rounds, pairs, tl in STRATS:
        left = budget - (cpu() - t0)
        if left <= 0.5 and nm != "z3": break
        if nm == "z3-fast" and not quants: continue
        forms = prepare(pc, goal, rounds, pairs)
        if nm == "z3-ground":
            if not quants: continue
            forms = [f for f in forms if not _hasq(f)]
        r, s = check_z3(forms, opts, min(tl * SCALE[0], max(left, 1.0)))
        if r == z3.unsat: return "proved", nm, None
        if r == z3.sat and nm == "z3-ground": continue
        if r == z3.sat and not opts:
            m = s.model()
            best = ("failed", nm, model_text(m))
            if not quants: return best
            break
    left = budget - (cpu() - t0)
    if cvc and left > 1:
        forms = prepare(pc, goal, 2, True)
        if cvc5_check(forms, min(10 * SCALE[0], left)) == "unsat": return "proved", "cvc5", None
    return best


def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name())[:60]:
        v = m[d]
        if d.name().startswith(("ext!!", "nn!!", "np!!", "nt!!", "nf!!", "le!!", "ge!!")): continue
        s = str(v)
        out.append("%s = %s" % (d.name(), s if len(s) < 200 else s[:200] + "..."))
    return "\n".join(out)

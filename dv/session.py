"""Verification units: a unit states a contract over the real code (fresh arguments, preconditions, the call, the
postconditions); running it explores every path of the real functions and discharges the obligations."""
import os, pickle, sys, time, traceback
import z3
from .core import *
from . import core, interp, builtins as B, solve, loops
from .interp import Engine, PyExc, PathEnd, Dec, UserFn, FuncV, BoundM
from .loops import Inv

UNITS = []
CONTRACTS = {}
INVARIANTS = {}


def unit(prop, name, about="", budget=25.0, timeout=240, thorough=False, requires=()):
    def d(fn):
        UNITS.append(dict(prop=prop if isinstance(prop, tuple) else (prop,), name=name, fn=fn, about=about, budget=budget, timeout=timeout,
                          thorough=thorough, requires=requires))
        return fn
    return d


def invariant(func, names, variant=None, force=False, own=(), once=()):
    """a loop invariant for a loop of the function (netomaton.mod:Class.func)"""
    def d(fn):
        INVARIANTS.setdefault(func, []).append(Inv(names, fn, force, variant, own=own, once=once))
        return fn
    return d


class Contract:
    def __init__(self, name, handler, applies=None): self.name, self.handler, self.cond = name, handler, applies
    def applies(self, eng, fn): return self.cond is None or self.cond(eng, fn)
    def apply(self, eng, fn, args, kw):
        env = eng.bind(fn, args, kw)
        return self.handler(eng, env)


class S:
    """what a unit may use"""
    def __init__(self, eng): self.eng = eng; self.notes = []
    # values
    def fresh(self, ty, name):
        facts = []
        v = core.fresh(ty, name, (), facts)
        for f in facts: self.eng.pc.append(("f", f))
        return self.eng.new(v, ":" + name) if self.eng.is_mut(v) else v
    def value(self, ty, name):
        facts = []
        v = core.fresh(ty, name, (), facts)
        for f in facts: self.eng.pc.append(("f", f))
        return v
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        return v
    def new(self, v): return self.eng.new(v)
    def obj(self, cls, **fields):
        c = self.cls(cls) if isinstance(cls, str) else cls
        return self.eng.new(RecV(c, {k: self.eng._imm(v) if isinstance(v, Ref) else v for k, v in fields.items()}))
    def cls(self, spec):
        mod, q = spec.split(":")
        m = self.eng.module(mod)
        c = m.get(q) if isinstance(m, interp.ModuleV) else None
        if not isinstance(c, interp.ClassV): raise Unsupported("class %s is gone" % spec)
        return c
    def userfn(self, name, handler): return UserFn(name, handler)
    # logic
    def assume(self, *cs):
        for c in cs: self.eng.assume(zb(c))
    def ensure(self, name, goal): self.eng.oblige(name, goal)
    def entails(self, c): return self.eng.entails(c)
    def split(self, c): return self.eng.branch(c)
    def forall(self, body, lo, hi, base="q"):
        i = core.fresh_int(base)
        b = body(i)
        return z3.ForAll([i], z3.Implies(z3.And(zint(lo) <= i, i < zint(hi)), zb(b)))
    def exists(self, body, lo, hi, base="q"):
        i = core.fresh_int(base)
        return z3.Exists([i], z3.And(zint(lo) <= i, i < zint(hi), zb(body(i))))
    def sum(self, body, n, base="sk"):
        K = core.fresh_int(base)
        return B.SUMS.total(to_z(body(K)), K, n)
    def count(self, body, n):
        K = core.fresh_int("ck")
        b = body(K)
        return B.SUMS.total(z3.If(zb(b), z3.IntVal(1), z3.IntVal(0)), K, n)
    def known(self, t, *bound):
        """the term with the conditionals decided by what is known (conditions that mention the bound constants are kept)"""
        t = to_z(t)
        for r in range(4):
            sub = []
            for e in core.subterms(t):
                if not z3.is_app_of(e, z3.Z3_OP_ITE): continue
                c = e.arg(0)
                if any(z3.is_var(x) or any(x.eq(b) for b in bound) for x in core.subterms(c)): continue
                if any(c.eq(x) for x, _ in sub): continue
                if self.eng.entails(c): sub.append((c, z3.BoolVal(True)))
                elif self.eng.entails(z3.Not(c)): sub.append((c, z3.BoolVal(False)))
            if not sub: return t
            t = z3.simplify(z3.substitute(t, *sub))
        return t
    def clean(self, name, fn, *sorts):
        """a mathematical lemma, proved for all values of its arguments in an empty context; returns its instantiator"""
        vs = [z3.Const("lm%d" % i, so) for i, so in enumerate(sorts)]
        pc, self.eng.pc = self.eng.pc, []
        hyp, goal = fn(*vs)
        self.eng.pc = [("f", zb(h)) for h in hyp]
        self.eng.oblige("lemma %s" % name, goal, "lemma")
        self.eng.pc = pc
        def inst(*args):
            h, g = fn(*[zint(a) if isinstance(a, int) else a for a in args])
            return z3.Implies(z3.And(*[zb(x) for x in h]), zb(g)) if h else zb(g)
        return inst
    def use(self, *facts):
        """instances of proved lemmas"""
        for f in facts: self.eng.pc.append(("f", f))
    def induct(self, name, P, n, assume=True, using=None):
        """ghost lemma: P(0), and P(i) -> P(i+1) for 0 <= i < n; afterwards P holds for every 0 <= i <= n (and is assumed)"""
        self.eng.oblige("lemma %s: base" % name, P(z3.IntVal(0)), "lemma")
        i = core.fresh_int("ind")
        k0 = len(self.eng.pc)
        self.eng.pc.append(("f", z3.And(0 <= i, i < zint(n))))
        self.eng.pc.append(("f", zb(P(i))))
        for u in (using(i) if using else []): self.eng.pc.append(("f", u))
        self.eng.oblige("lemma %s: step" % name, P(i + 1), "lemma")
        del self.eng.pc[k0:]
        j = core.fresh_int("ind")
        q = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= zint(n)), zb(P(j))))
        if assume:
            self.eng.pc.append(("f", q))
            self.eng.pc.append(("f", z3.Implies(zint(n) >= 0, zb(P(zint(n))))))
        return q
    def general(self, sorts, hyps, prove):
        """prove(*c) for arbitrary constants c under hyps(*c); what it returns then holds for all values"""
        cs = [z3.Const(NAMES("gen"), so) for so in sorts]
        k0 = len(self.eng.pc)
        h = [zb(x) for x in hyps(*cs)]
        for x in h: self.eng.pc.append(("f", x))
        f = zb(prove(*cs))
        self.eng.oblige("lemma (general)", f, "lemma")
        del self.eng.pc[k0:]
        q = z3.ForAll(cs, z3.Implies(z3.And(*h), f) if h else f)
        self.eng.pc.append(("f", q))
        return q
    def inst(self, q, *ts):
        """an instance of a universally quantified fact that has been proved here"""
        assert any(f.eq(q) for _, f in self.eng.pc), "not a fact"
        self.eng.pc.append(("f", z3.substitute_vars(q.body(), *[to_z(t) for t in reversed(ts)])))
    def lemma(self, name, goal):
        """prove, then assume"""
        self.eng.oblige("lemma %s" % name, goal, "lemma")
        self.eng.pc.append(("f", zb(goal)))
    def derive(self, name, facts, goal):
        """prove the facts here, then the goal from them alone; assume it"""
        facts = [zb(f) for f in facts]
        for k, f in enumerate(facts): self.eng.oblige("lemma %s (%d)" % (name, k), f, "lemma")
        pc, self.eng.pc = self.eng.pc, [("f", f) for f in facts]
        self.eng.oblige(name, goal, "post")
        self.eng.pc = pc + [("f", zb(goal))]
    def place(self, row, i, j, *consts):
        """name the place of the j-th item of the i-th row in a concatenation (row: a term row(.., p) of it, consts: the parameters of the
        concatenation, those of row if not given): the facts about concatenations are stated for such places"""
        cs = [to_z(c) for c in (consts or row.children()[:-1])]
        ix = z3.Function("flatix" + row.decl().name()[3:], *[c.sort() for c in cs], z3.IntSort(), z3.IntSort(), z3.IntSort())(*cs, zint(i), zint(j))
        self.eng.pc.append(("f", z3.Function(core.NAMES("place"), z3.IntSort(), z3.BoolSort())(ix)))       # (a predicate of its own: says nothing, but keeps the term)
        return ix
    def rows_of(self, term, p):
        """the row(.., p) terms in it"""
        return [a for a in core.subterms(term) if z3.is_app(a) and a.decl().name().startswith("row!h") and a.children()[-1].eq(zint(p))]
    def hint(self, name, goal, budget=6.0):
        """a proof hint: used if it is proved, ignored otherwise (it may depend on how the code does it); true if proved"""
        goal = zb(goal)
        o = interp.Obl(unit=self.eng.unit, name="hint %s" % name, pc=[c for _, c in self.eng.pc], goal=goal, kind="hint", where=self.eng.where())
        key = (goal.sexpr(), tuple(c.get_id() for c in o.pc))
        hit = self.eng.hints.get(key)
        if hit is None:
            solve.discharge(o, budget)
            hit = (o.status == "proved", o)
            self.eng.hints[key] = hit
        if hit[0]: self.eng.pc.append(("f", goal))
        return hit[0]
    # contracts of callees
    def contract(self, spec, handler, applies=None, must=True):
        """calls of the function are checked against / replaced by the contract: handler(eng, args, kw) -> result"""
        self.eng.contracts[spec] = Contract(spec, handler, applies)
        self.eng.contracts[spec].must = must
    def external(self, name, handler):
        """the assumed contract of a function of another library"""
        self.eng.extc[name] = handler
    def pure(self, name, sort, *seqs):
        """an uninterpreted function of the contents of the sequences"""
        hs, ps = [], []
        for q in seqs:
            if is_z(q): ps.append(q); continue
            h, c = B.seq_shape(self.v(q)); hs.append(h); ps += c
        return z3.Function("%s!h%s" % (name, "_".join(hs)), *[p.sort() for p in ps], sort)(*ps)
    # calls
    def fn(self, spec): return self.eng.func(spec)
    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.eng.func(f) if ":" in f else f
        if isinstance(f, FuncV): return self.eng.call_func(f, list(args), kw, skip_contract=True)
        return self.eng.call(f, list(args), kw)
    def method(self, obj, name, *args, **kw):
        t = self.eng.get(obj)
        f = t.cls.find("m", name)[0]
        if f is None: raise Unsupported("method %s is gone" % name)
        return self.eng.call_func(f, [obj] + list(args), kw, skip_contract=True)
    def construct(self, cls, *args, **kw):
        c = self.cls(cls) if isinstance(cls, str) else cls
        return self.eng.call(c, list(args), kw)
    def prop(self, obj, name): return self.eng.getattr(obj, name)
    def outcome(self, thunk, types=("Exception",)):
        """('ret', value) or ('exc', type): exceptions of the given types are outcomes, not failures"""
        self.eng.handlers.append(list(types))
        depth = len(self.eng.handlers)
        try:
            try: r = ("ret", thunk())
            finally: del self.eng.handlers[depth - 1:]
        except PyExc as e: return ("exc", e.etype)
        return r
    def v(self, x): return self.eng.peek(x)


def run_unit(u, contracts=None, only=None):
    """one unit in this process: a result dict"""
    t0 = time.time()
    eng = Engine(dict(CONTRACTS if contracts is None else contracts), INVARIANTS)
    eng.unit = u["name"]
    eng.hints = {}
    eng.deadline = cpu() + u["timeout"]
    solve.SCALE[0] = u.get("scale", 1.0)
    res = dict(unit=u["name"], prop=u["prop"], status="ok", error=None, obls=[], paths=0, covered=0, about=u["about"])
    log = []
    try:
        while True:
            eng.reset()
            eng.contracts = dict(CONTRACTS if contracts is None else contracts)
            eng.decs = [Dec(log)]
            s = S(eng)
            ended = None
            try:
                u["fn"](s)
                ended = "end"
            except PathEnd: ended = "cut"
            except PyExc as e:
                # an exception no contract allows
                eng.quiet = 0
                ended = "exc"
                eng.obls.append(interp.Obl(unit=eng.unit, name="no exception escapes (%s)" % e.etype, pc=[c for _, c in eng.pc],
                                           goal=z3.BoolVal(False), kind="exc", where=eng.where()))
            res["paths"] += 1
            if ended == "end" and res["covered"] == 0:
                sv = z3.Solver(); step_limit(sv, 2.0)
                for c in eng.qf(): sv.add(c)
                if sv.check() != z3.unsat: res["covered"] += 1
            if res["paths"] > 3000: raise Unsupported("too many paths")
            if not eng.backtrack(log): break
    except Unsupported as e:
        res["status"], res["error"] = "unsupported", str(e)
        if os.environ.get("DV_TRACE"): traceback.print_exc()
    except (RecursionError, z3.Z3Exception, AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError, SyntaxError) as e:
        res["status"], res["error"] = "unsupported", "%s: %s" % (type(e).__name__, e)
        if os.environ.get("DV_TRACE"): traceback.print_exc()
    res["gen_s"] = time.time() - t0
    res["inlined"] = sorted(eng.inlined); res["contracts"] = sorted(eng.used_contracts); res["trusted"] = sorted(eng.trusted_used)
    res["inv_used"] = sorted(eng.inv_used)
    if res["status"] != "ok": return res
    unused = sorted(set(eng.extc) - eng.used_ext) + sorted(k for k, c in eng.contracts.items() if getattr(c, "must", True) and k not in eng.used_contracts)
    if unused:
        # the unit speaks about calls the code no longer makes (a helper inlined or replaced): it decides nothing
        res["status"], res["error"] = "unsupported", "the contract of %s is not used: the code does not call it" % ", ".join(unused)
        return res
    obls = eng.obls
    if not obls: res["status"], res["error"] = "unsupported", "no obligation was generated (vacuous)"; return res
    if not res["covered"]: res["status"], res["error"] = "unsupported", "no path reaches the end of the unit (vacuous)"
    dl = time.time() + u["timeout"] * WALL
    fails = 0
    nw = 1 if len(obls) < 16 else 4
    if nw == 1 or os.environ.get("DV_SERIAL"):
        rs = []
        for o in obls:
            b = u["budget"] if fails < 3 else 2.0
            if time.time() > dl: b = 1.0
            solve.discharge(o, b)
            fails += o.status != "proved"
            rs.append(pack(o))
    else:
        pipes = []
        for w in range(nw):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = []
                f = 0
                try:
                    for idx in range(w, len(obls), nw):
                        o = obls[idx]
                        b = u["budget"] if f < 2 else 2.0
                        if time.time() > dl: b = 1.0
                        try: solve.discharge(o, b)
                        except Exception as e: o.status, o.backend, o.model, o.time = "unknown", "error", str(e), 0.0
                        f += o.status != "proved"
                        out.append((idx, pack(o)))
                    data = pickle.dumps(out)
                    with os.fdopen(wr, "wb") as fh: fh.write(data)
                finally: os._exit(0)
            os.close(wr)
            pipes.append((r, pid))
        rs = [None] * len(obls)
        for r, pid in pipes:
            with os.fdopen(r, "rb") as fh: data = fh.read()
            os.waitpid(pid, 0)
            if data:
                for idx, p in pickle.loads(data): rs[idx] = p
        for i, o in enumerate(obls):
            if rs[i] is None: o.status, o.backend, o.time = "unknown", "error", 0.0; rs[i] = pack(o)
    res["obls"] = rs
    res["wall_s"] = time.time() - t0
    return res


def pack(o):
    d = dict(name=o.name, kind=o.kind, status=o.status, time=o.time or 0.0, backend=o.backend, where=o.where, model=o.model)
    if o.status != "proved":
        d["goal"] = str(o.goal)[:1500]
        d["pc"] = [str(c)[:300] for c in o.pc[-40:]]
    return d


def run_units(units, jobs=8, total=600):
    """units in parallel processes"""
    results, running, todo = [], {}, list(units)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    res = run_unit(u)
                except BaseException as e:
                    res = dict(unit=u["name"], prop=u["prop"], status="unsupported", error="%s: %s" % (type(e).__name__, e), obls=[], paths=0, covered=0,
                               about=u["about"], inlined=[], contracts=[], trusted=[], inv_used=[], gen_s=0)
                try:
                    with os.fdopen(w, "wb") as fh: fh.write(pickle.dumps(res))
                finally: os._exit(0)
            os.close(w)
            os.set_blocking(r, False)
            running[pid] = (u, r, time.time(), [])
        time.sleep(0.02)
        for pid in list(running):
            u, r, st, buf = running[pid]
            done = False
            try:
                while True:
                    b = os.read(r, 1 << 20)
                    if not b: done = True; break
                    buf.append(b)
            except BlockingIOError: pass
            if not done and time.time() - st > u["timeout"] * WALL + 60 or time.time() - t0 > total:
                try: os.killpg(pid, 9)
                except ProcessLookupError: pass
                done = True; buf.clear()
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                del running[pid]
                try: results.append(pickle.loads(b"".join(buf)))
                except Exception: results.append(dict(unit=u["name"], prop=u["prop"], status="unsupported", error="no result (time or memory limit)", obls=[], paths=0,
                                                      covered=0, about=u["about"], inlined=[], contracts=[], trusted=[], inv_used=[], gen_s=0))
    return results

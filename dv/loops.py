"""Loops over symbolic ranges: exact summaries for the regular shapes (accumulation, append/filter, table filling, own-index
and own-row updates, search with early exit), loop invariants from the contracts otherwise."""
import ast, re
import z3
from .core import *
from . import core
from .interp import (PathEnd, PyExc, _Break, _Cont, _Ret, Skolem, GONE, Poison, NeedHead, Dec, ExtV, MOD, DIV)


class Loop:
    """what one iteration does: run(K) executes iteration K (may raise _Break, _Ret, PyExc)"""
    def __init__(self, eng, st, n, run, seq=None, is_while=False, test=None):
        self.eng, self.st, self.n, self.run, self.seq, self.is_while, self.test = eng, st, n, run, seq, is_while, test
        self.srcs = ()


def sym_for(eng, st, s, elem, n, v):
    def run(K):
        eng.assign(st.target, elem(K))
        eng.exec_block(st.body)
    L = Loop(eng, st, n, run, s)
    L.srcs = eng.sources(v)
    go(L)


def sym_while(eng, st):
    # a while loop whose condition is concrete is simply unrolled
    for i in range(eng.UNROLL + 1):
        c = conc(eng.truth_pure(st.test))
        if not isinstance(c, bool): break
        if not c: eng.exec_block(st.orelse); return
        if eng.inv_for(st): break
        if i == eng.UNROLL: raise Unsupported("while loop: unrolling limit")
        try: eng.exec_block(st.body)
        except _Break: return
        except _Cont: pass
    def run(K): eng.exec_block(st.body)
    L = Loop(eng, st, None, run, None, True, lambda: eng.truth(eng.eval(st.test)))
    go(L)


def go(L):
    eng, st = L.eng, L.st
    snap = eng.snapshot()
    nob = len(eng.obls)
    invs = eng.inv_for(st)
    why = None
    if not any(i.force for i in invs):
        try:
            plan = summarise(L)
            return apply_plan(L, plan)
        except Unsupported as e:
            why = e
            eng.restore(snap); del eng.obls[nob:]
    errs = []
    for inv in invs:
        try: return by_invariant(L, inv)
        except InvSkip as e:
            errs.append(str(e)); eng.restore(snap); del eng.obls[nob:]
    if any(i.force for i in invs):        # the invariants are about other loops of the function
        try:
            plan = summarise(L)
            return apply_plan(L, plan)
        except Unsupported as e:
            why = e
            eng.restore(snap); del eng.obls[nob:]
    raise Unsupported("loop at line %s of %s: %s%s" % (st.lineno, eng.frames[-1].func.name if eng.frames[-1].func else "?", why, "; invariants: %s" % "; ".join(errs) if errs else ""))


class InvSkip(Exception): pass


# ---------------------------------------------------------------- what the body modifies
class Head:
    def __init__(self):
        self.carried, self.cells, self.temps = {}, {}, set()
        self.hv, self.hc, self.events = {}, {}, set()
        self.names = {}
        self.fields = {}         # objects of which only some fields change: cell -> names (None: keep no track)
        self.owned = set()       # variables that hold the only reference to what they refer to, at every loop head
    def nm(self, base, key):
        """the same name in every path of one exploration"""
        if key not in self.names: self.names[key] = NAMES(base)
        return self.names[key]


def frame_of(eng, fid):
    for f in eng.allframes:
        if id(f) == fid: return f
    return None


def enter(eng, H, tag=""):
    """put the machine in an arbitrary loop-head state; returns the havocked values"""
    hv, hc = {}, {}
    for (fid, name) in H.temps:
        f = frame_of(eng, fid)
        f.vars[name] = Poison((fid, name))
    for (fid, name), ty in H.carried.items():
        f = frame_of(eng, fid)
        facts = []
        nm = H.nm("h.%s" % name, (fid, name))
        val = fresh(ty, nm, (), facts)
        for x in facts: eng.pc.append(("f", x))
        hv[(fid, name)] = (val, nm)
        if (fid, name) in H.refvars:
            r = eng.new(val); f.vars[name] = r
            if (fid, name) not in H.owned: eng.shared.append((r.cell, ()))
        else: f.vars[name] = val
    for c, ty in H.cells.items():
        facts = []
        nm = H.nm("h.%s" % c, c)
        old = eng.store.get(c)
        if c in H.fields and isinstance(old, RecV):
            f = dict(old.f)
            for x in sorted(H.fields[c]): f[x] = fresh(ty.fields[x], nm + "." + x, (), facts)
            val = RecV(old.cls, f)
        else: val = fresh(ty, nm, (), facts)
        for x in facts: eng.pc.append(("f", x))
        hc[c] = (val, nm)
        eng.store[c] = val
        if c in H.events:
            eng.nev += 1
            eng.events.append((c, (), eng.nev, True))
    for s in H.shared:
        if s not in eng.shared: eng.shared.append(s)
    return hv, hc


def outs_of(L, H, K, n):
    eng = L.eng
    H.names = {}
    def one():
        hv, hc = enter(eng, H)
        H.hv, H.hc = hv, hc
        H.mark0 = len(eng.pc)
        eng.writes, eng.oplog = set(), []
        if n is not None:
            eng.assume(0 <= K)
            eng.assume(K < zint(n))
        else: eng.assume(0 <= K)
        if L.test is not None:
            t = L.test()
            eng.pc.append(("t", zb(t)))
            if conc(t) is False: raise PathEnd("test")
            eng.pc.append(("f", zb(t)))
        L.run(K)
    return eng.sub(one)


def discover(L, K):
    eng = L.eng
    H = Head()
    H.refvars, H.shared = set(), []
    H.owned = getattr(L, "owned", set())
    once = getattr(L, "once", ())
    mark0 = NAMES.n
    saved_w, saved_o = eng.writes, eng.oplog
    base = eng.snapshot()
    cells0 = set(eng.store)
    fwd0 = set(eng.forward)
    init_vars = {}
    nob = len(eng.obls)
    for rnd in range(12):
        eng.restore(base)
        eng.quiet += 1
        eng.discovering = getattr(eng, "discovering", 0) + 1
        try: outs = outs_of(L, H, K, L.n)
        except NeedHead as e:
            eng.restore(base)
            f = frame_of(eng, e.key[0])
            if e.key not in H.temps:
                if getattr(eng, "discovering", 0) > 1: raise          # a loop around this one carries it
                raise Unsupported("variable %s after a loop" % (e.key[1],))
            H.temps.discard(e.key)
            v = f.vars.get(e.key[1], Poison)
            if v is Poison or isinstance(v, Poison): raise Unsupported("variable %s may be unbound" % e.key[1])
            if isinstance(v, Ref): H.refvars.add(e.key)
            H.carried[e.key] = typeof(eng.peek(v))
            continue
        finally:
            eng.quiet -= 1
            eng.discovering -= 1
        eng.restore(base)
        changed = False
        for pc, r, stt in outs:
            if r[0] not in ("val", "cont"): continue       # a loop that is left does not come back to its head
            # stt: snapshot after the iteration
            st_store, st_fwd, st_shared, st_events = stt[0], stt[1], stt[2], stt[3]
            frames_vars = {id(f): v for f, v, _ in stt[7]}
            for w in stt[9]:
                if w[0] == "var":
                    f = frame_of(eng, w[1])
                    if f is None: continue
                    key = (w[1], w[2])
                    if key in H.carried:
                        nv = frames_vars[w[1]][w[2]]
                        if isinstance(nv, Poison): continue
                        t = join(H.carried[key], typeof(_peek_in(eng, stt, nv)))
                        if isinstance(nv, Ref) and key not in H.refvars: H.refvars.add(key)
                        if t != H.carried[key]: H.carried[key] = t; changed = True
                    elif key not in H.temps: H.temps.add(key); changed = True
                else:
                    c = w[1]
                    if c not in cells0: continue
                    t0 = H.cells.get(c)
                    t = join(t0 if t0 is not None else typeof(eng.store[c]), typeof(st_store[c]))
                    if t != t0: H.cells[c] = t; changed = True
                    a, b = base[0].get(c), st_store[c]
                    if getattr(L, "by_inv", False) and isinstance(a, RecV) and isinstance(b, RecV) and a.cls is b.cls and set(a.f) == set(b.f):
                        ch = {x for x in a.f if a.f[x] is not b.f[x]}
                        if not ch <= H.fields.setdefault(c, set()): H.fields[c] |= ch; changed = True
                    elif c in H.fields: raise Unsupported("fields of an object change")
            for c in set(st_fwd) - fwd0:
                if c in cells0 and c not in once and (c, ()) not in H.shared: H.shared.append((c, ())); changed = True      # stored inside: read-only from here on
            for s in st_shared:
                s = (s[0], tuple((a, None if is_z(b) and _inside(b, mark0, K) else b) for a, b in s[1]))
                if s[0] in cells0 and s[0] not in once and s not in H.shared and s not in base[2]:
                    H.shared.append(s); changed = True
            for ev in st_events[len(base[3]):]:
                if ev[0] in cells0 and ev[0] not in H.events: H.events.add(ev[0]); changed = True
        if not changed: break
    else: raise Unsupported("loop types do not stabilise")
    iterated(L, K, outs)
    eng.restore(base)
    del eng.obls[nob:]
    eng.writes, eng.oplog = saved_w, saved_o
    return H


def iterated(L, K, outs):
    """the container that is iterated may only be modified where the iteration has been"""
    eng = L.eng
    for cell, path, strict in L.srcs:
        for pc, r, stt in outs:
            if strict == "all" and ("cell", cell) in stt[9]: raise Unsupported("a container is modified while it is iterated")
            for o in stt[10]:
                if o[0] != cell: continue
                if o[2] == "whole" and len(o[1]) < len(path) and _path_may_eq(o[1], path[:len(o[1])]): raise Unsupported("a container is modified while it is iterated")
                if not _path_may_eq(o[1], path): continue
                if o[2] == "whole" and o[1] == () == path and strict != "all" and getattr(L, "by_inv", False) and all_live(eng, L, cell):
                    L.live.add(cell); continue      # read at each iteration as it is then; that it keeps its length is an obligation
                if not _path_eq(o[1], path):
                    mark = list(eng.pc); eng.pc[:] = list(stt[5])
                    try: apart = eng.entails(zb(Not(_path_same(o[1], path))))
                    finally: eng.pc[:] = mark
                    if apart: continue
                    raise Unsupported("a container is modified while it is iterated")
                if o[2] in ("set", "scatter") and strict != "all" and unread(L): continue
                if o[2] == "set" and not strict:
                    d = conc(z3.simplify(zint(o[3]) - K))
                    if not is_z(d) and d <= 0: continue
                if o[2] == "mset" and not strict:
                    e = L.seq.at(K)
                    e = e[0] if isinstance(e, tuple) else e
                    try:
                        if type(e) is type(o[3]) and eqv(e, o[3]) is True: continue
                    except Unsupported: pass
                raise Unsupported("a container is modified while it is iterated")


def all_live(eng, L, cell):
    """are the elements of the iterated list objects, which are read where they are?"""
    if L.seq is None or L.seq.items is not None or not isinstance(eng.store.get(cell), SeqV) or eng.store[cell].n is not L.seq.n: return False
    x = L.seq.at(fresh_int("ty"))
    return eng.is_mut(x) or isinstance(x, tuple) and len(x) > 0 and all(eng.is_mut(y) for y in x)


def unread(L):
    """are the elements of the iterated sequence never looked at? (then only its length matters)"""
    if not hasattr(L, "unread"):
        eng, st = L.eng, L.st
        L.unread = False
        t = getattr(st, "target", None)
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "enumerate" and len(st.iter.args) + len(st.iter.keywords) <= 2:
            try: b = eng.lookup("enumerate")
            except Unsupported: b = None
            t = t.elts[1] if isinstance(b, ExtV) and b.name == "enumerate" else None
        fn = eng.frames[-1].func
        node = getattr(fn, "node", None)
        if isinstance(t, ast.Name) and node is not None:
            L.unread = not any(isinstance(x, ast.Name) and x.id == t.id and not isinstance(x.ctx, ast.Store) or isinstance(x, (ast.Global, ast.Nonlocal)) and t.id in x.names for x in ast.walk(node))
    return L.unread


def _inside(e, mark, K):
    """does the term mention symbols of the iteration?"""
    for d in decls(e):
        if d == K.decl().name() or "!" in d and d.rsplit("!", 1)[1].split(".")[0].isdigit() and int(d.rsplit("!", 1)[1].split(".")[0]) > mark: return True
    return False


def _peek_in(eng, snap, v):
    """the value behind a reference in another state"""
    if not isinstance(v, (Ref, tuple)): return v
    cur = eng.snapshot()
    eng.restore(snap)
    try: return eng.peek(v)
    finally: eng.restore(cur)


# ---------------------------------------------------------------- exact summaries
class Plan: pass


def _late(eng, mark, e, K):
    return None


def summarise(L):
    eng = L.eng
    K = fresh_int("K")
    H = discover(L, K)
    base = eng.snapshot()
    saved_w, saved_o = eng.writes, eng.oplog
    n = L.n if not L.is_while else fresh_int("iters")
    mark = NAMES.n
    nob = len(eng.obls)
    eng.pend = getattr(eng, "pend", [])
    outs = outs_of(L, H, K, n)
    new_obls = eng.obls[nob:]
    del eng.obls[nob:]
    eng.restore(base)
    eng.writes, eng.oplog = saved_w, saved_o
    hv, hc = H.hv, H.hc
    cont = [o for o in outs if o[1][0] in ("val", "cont")]
    exits = [o for o in outs if o[1][0] not in ("val", "cont")]
    rngt = [z3.simplify(0 <= K), z3.simplify(K < zint(n))]
    headpc = None
    P = Plan()
    P.H, P.K, P.n, P.exits, P.mark = H, K, n, exits, mark
    if L.is_while:
        tests = [c for o in outs for t, c in o[0] if t == "t"]
        P.test = tests[0] if tests else z3.BoolVal(False)       # no iteration can happen: the condition fails at once
        for o in outs:
            for t, c in o[0]:
                if t == "t": break
                if t == "g": raise Unsupported("while condition with several outcomes")
        if any(not x.eq(P.test) for x in tests): raise Unsupported("while condition is evaluated in several ways")
    for pc, r, stt in outs:
        pc[:] = [(t, c) for t, c in pc if t != "t" and not any(c.eq(x) for x in rngt)]
    hnames = {}
    for key, (val, nm) in hv.items(): hnames[nm] = key
    for c, (val, nm) in hc.items(): hnames[nm] = c
    def mentions(*vs):
        """the loop-carried locations the values depend on"""
        r = set()
        for v in vs:
            for d in decls(v):
                for nm, key in hnames.items():
                    if d == nm or d.startswith(nm + "."): r.add(key)
        return r
    guards = [([c for t, c in pc if t == "g"]) for pc, r, stt in cont]
    if not cont:
        P.cf, P.cells, P.facts, P.exitc = {}, {}, [], [z3.And(*[c for t, c in pc if t == "g"]) if any(t == "g" for t, c in pc) else z3.BoolVal(True) for pc, r, stt in exits]
    sk = Skolem(K, mark)
    sk.skip = {nm for nm in hnames}
    def gand(gs): return z3.And(*gs) if len(gs) > 1 else gs[0] if gs else z3.BoolVal(True)
    # --- scalars
    init, news = {}, {}
    for key in H.carried:
        f = frame_of(eng, key[0])
        init[key] = eng.peek(f.vars[key[1]])
        news[key] = [_peek_in(eng, stt, {id(f2): v for f2, v, _ in stt[7]}[key[0]][key[1]]) for pc, r, stt in cont]
    cf = {}           # key -> function of the iteration index giving the value at its start
    cfpairs = []      # (head constant, value at K)
    todo = list(H.carried)
    def merge(vals):
        v = vals[-1]
        for g, x in list(zip(guards, vals))[-2::-1]: v = ite(gand(g), x, v)
        return v
    def sub_cf(v, at=None):
        return subst(v, [(h, val) for h, val in cfpairs])
    gsub = lambda gs: [sub_cf(g) for g in gs]
    prog = True
    while todo and prog:
        prog = False
        for key in list(todo):
            h = hv[key][0]
            vals = news[key]
            if not vals:
                todo.remove(key); continue
            gment = mentions(*[g for gs in guards for g in gs]) & set(todo) if len(vals) > 1 else set()
            unchanged = all(is_z(v) and is_z(h) and v.eq(h) for v in vals)
            res = None
            if unchanged: res = ("same",)
            elif not (mentions(*vals) & (set(todo) | set(hc))) and not (gment - set()):
                res = ("last", merge(vals))
            elif is_z(h) and h.sort() in (z3.IntSort(), z3.RealSort()):
                ds = []
                for v in vals:
                    d = z3.simplify(to_z(v, h.sort()) - h, som=True) if is_z(v) or isinstance(v, (int, Fraction)) else None
                    if d is None or (mentions(d) & (set(todo) | set(hc))): ds = None; break
                    ds.append(d)
                if ds and all(d.eq(ds[0]) for d in ds): res = ("acc", ds[0])
                elif ds and not (gment or mentions(*[g for gs in guards for g in gs]) & set(hc) if len(ds) > 1 else False):
                    res = ("acc", merge(ds))
            elif is_z(h) and h.sort() == z3.BoolSort() and init[key] in (True, False) and not (gment - {key}):
                flip = not init[key]
                ok, fl = True, []
                for g, v in zip(guards, vals):
                    if is_z(v) and v.eq(h): continue
                    c = conc(v)
                    if c is flip: fl.append(gand([x for x in g if key not in mentions(x)]))
                    elif c is init[key]: ok = False; break      # may be reset
                    else:
                        ok = False; break
                if ok and not (mentions(*fl) & (set(todo) | set(hc))): res = ("flag", flip, Or(*fl) if fl else False)
            if res is None: continue
            i0 = init[key]
            if res[0] == "same": f = (lambda i0: lambda i: i0)(i0)
            elif res[0] == "last":
                body = sk.v(sub_cf(res[1]))
                f = (lambda i0, body: lambda i: ite(zint(i) == 0, i0, subst(body, [(K, isub(i, 1))])))(i0, body)
            elif res[0] == "acc":
                body = sk.z(to_z(sub_cf(res[1])))
                cst = conc(body)
                if not is_z(cst): f = (lambda i0, cst: lambda i: eng.binop(_Add, i0, _mul(eng, cst, i)))(i0, cst)
                elif not core_mentions(body, K): f = (lambda i0, body: lambda i: eng.binop(_Add, i0, eng.binop(_Mult, body, i)))(i0, body)
                else:
                    C = eng.B.SUMS.sum(body, K)
                    f = (lambda i0, C: lambda i: eng.binop(_Add, i0, C(i)) if not (not is_z(i0) and i0 == 0) else C(i))(i0, C)
            else:
                body = sk.z(zb(sub_cf(res[2]))) if is_z(res[2]) else zb(res[2])
                C = eng.B.SUMS.sum(z3.If(body, z3.IntVal(1), z3.IntVal(0)), K)
                f = (lambda flip, C: lambda i: (C(i) > 0) if flip else z3.Not(C(i) > 0))(res[1], C)
            cf[key] = f
            if is_z(h): cfpairs.append((h, to_z(f(K), h.sort()) if is_scalar(f(K)) and f(K) is not None else _bad("carried value")))
            elif mentions(*[v for k2 in todo if k2 != key for v in news[k2]], *[c for pc, r, stt in outs for t, c in pc]) & {key}:
                pairs = _struct_pairs(h, f(K))
                cfpairs.extend(pairs)
            todo.remove(key); prog = True
    if todo: raise Unsupported("no closed form for %s" % ", ".join(str(k[1]) for k in todo))
    # --- cells
    cells = {}
    fpairs = []        # substitutions of head functions of the cells
    for c in H.cells:
        cells[c] = cell_summary(eng, L, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base)
        if cells[c].funs: fpairs.extend(cells[c].funs)
    P.cells = cells
    # everything else must not depend on cells being filled (own-row reads are substituted)
    own = {}
    for S in cells.values(): own.update(S.ownreads)
    qf0 = eng.qf()
    seen = {}
    def place_ok(a, off, way):
        """a place that no earlier iteration has filled"""
        if any(z3.is_var(x) for x in core.subterms(a)): return False
        if a.sort() != z3.IntSort(): return False
        d = z3.simplify((a - K - off) if way > 0 else (off - K - a), som=True)
        if z3.is_int_value(d): return d.as_long() >= 0
        k = d.sexpr()
        if k not in seen:
            sv = z3.Solver(); step_limit(sv, 1.0)
            for x in qf0: sv.add(x)
            sv.add(K >= 0, K < zint(n), d < 0)
            seen[k] = sv.check() == z3.unsat
        return seen[k]
    def leaf(e):
        for a in core.subterms(e):
            if z3.is_app(a) and a.num_args() and a.decl().name() in own:
                for off, way, j in own[a.decl().name()]:
                    if not place_ok(a.arg(j), off, way): raise OwnRead("the loop reads places it has filled")
    def fin(v):
        v = sub_cf(v)
        v = sk.v(v) if not is_z(v) else sk.z(v)
        if fpairs: v = subst_funs(v, fpairs, leaf if own else None)
        return v
    P.fin = fin
    def check(v):
        m = mentions(v)
        if m: raise Unsupported("the loop reads %s while filling it" % ", ".join(map(str, m)))
        return v
    P.check = check
    P.exitc = [check(fin(gand([c for t, c in pc if t == "g"]))) for pc, r, stt in exits]
    facts = []
    for pc, r, stt in outs:
        if r[0] not in ("val", "cont"): continue
        for j, (t, c) in enumerate(pc):
            if t == "f":
                pre = [x for tt, x in pc[:j] if tt == "g"]
                fc = z3.Implies(z3.And(*pre), c) if pre else c
                # facts about the head state itself (well-formedness of havocked values) are dropped
                try:
                    if mentions(c) and not (mentions(fin(c))): facts.append(check(fin(fc)))
                    elif not mentions(c): facts.append(fin(fc))
                except OwnRead: pass
    P.facts = facts
    P.cf = cf
    for c in cells.values(): c.finish(fin, check)
    # --- safety obligations inside the body, for every iteration
    P.obls = []
    rng = z3.And(0 <= K, K < zint(n)) if not L.is_while else z3.And(0 <= K, K < n)
    for o in new_obls:
        npc = []
        for c in o.pc:
            try: cc = fin(c)
            except OwnRead: cc = z3.BoolVal(True)
            if mentions(cc): cc = z3.BoolVal(True)     # a fact about the head state: not needed
            npc.append(cc)
        g = fin(o.goal) if is_z(o.goal) else o.goal
        if is_z(g) and mentions(g): raise Unsupported("an obligation in the loop depends on what it fills: %s" % (__import__("os").environ.get("DBG") and str((o.name, g, P.cells.keys(), [S.funs for S in P.cells.values()]))))
        o.pc, o.goal = npc, g
        P.obls.append(o)
    P.sk = sk
    return P


_Add, _Mult = __import__("ast").Add, __import__("ast").Mult
def _mul(eng, c, i): return c * i if not is_z(i) else conc(to_z(c) * (zint(i) if not isinstance(c, Fraction) else z3.ToReal(zint(i))))
def _bad(w): raise Unsupported(w)
def core_mentions(e, c): return any(x.eq(c) for x in core.subterms(e))


def _struct_pairs(h, v):
    """substitution pairs for the constants of a structured head value"""
    if is_z(h): return [(h, to_z(v, h.sort()))]
    if isinstance(h, tuple) and isinstance(v, tuple) and len(h) == len(v): return [p for a, b in zip(h, v) for p in _struct_pairs(a, b)]
    if isinstance(h, OptV):
        v = v if isinstance(v, OptV) else OptV(v is None, v)
        r = [(h.none, zb(v.none))]
        if v.v is not None: r += _struct_pairs(h.v, v.v)
        return r
    raise Unsupported("carried structure")


class OwnRead(Unsupported): pass


def subst_funs(v, fp, leaf=None):
    if is_z(v):
        names = {f.name() for f, _ in fp}
        if not any(z3.is_app(x) and x.decl().name() in names for x in core.subterms(v)): return v
        if leaf is not None: leaf(v)
        return z3.substitute_funs(v, *fp)
    if isinstance(v, tuple): return tuple(subst_funs(x, fp, leaf) for x in v)
    if isinstance(v, AttrV): return AttrV(subst_funs(v.t, fp, leaf))
    if isinstance(v, SeqV):
        if v.items is not None: return cseq([subst_funs(x, fp, leaf) for x in v.items], v.kind)
        return SeqV(subst_funs(v.n, fp, leaf), lambda i: subst_funs(v.at(i), fp, leaf), v.kind, v.ety, (lambda x: subst_funs(v.pos(x), fp, leaf)) if v.pos else None)
    if isinstance(v, OptV): return OptV(subst_funs(v.none, fp, leaf), subst_funs(v.v, fp, leaf))
    if isinstance(v, CMapV): return CMapV({k: subst_funs(x, fp, leaf) for k, x in v.d.items()}, subst_funs(v.rest, fp, leaf) if v.rest is not None else None)
    if isinstance(v, RecV): return RecV(v.cls, {k: subst_funs(x, fp, leaf) for k, x in v.f.items()})
    if isinstance(v, MapV):
        g = lambda f: (lambda x: subst_funs(f(x), fp, leaf))
        return MapV(subst_funs(v.n, fp, leaf), g(v.key), g(v.has), g(v.pos), g(v.val), v.kty, v.vty)
    return v


class CellSum:
    """summary of the updates of one cell: list of (path, kind, data)"""
    def __init__(self): self.ops, self.funs, self.ownreads = [], [], {}
    def finish(self, fin, check):
        self.final = [(p, k, {a: (check(fin(b)) if a in ("val", "key", "cond") and b is not None else b) for a, b in d.items()}) for p, k, d in self.ops]


def _path_may_eq(p, q):
    """may these be paths to the same place?"""
    if len(p) != len(q): return False
    for (ta, ka), (tb, kb) in zip(p, q):
        if ta != tb: return False
        if not (is_z(ka) or is_z(kb)) and ka != kb: return False
    return True


def _path_same(p, q): return And(*[eqv(ka, kb) for (_, ka), (_, kb) in zip(p, q)])


def _path_eq(p, q):
    if len(p) != len(q): return False
    for (ta, ka), (tb, kb) in zip(p, q):
        if ta != tb: return False
        if is_z(ka) or is_z(kb):
            if not (is_z(ka) and is_z(kb) and ka.eq(kb)): return False
        elif ka != kb: return False
    return True


def cell_summary(eng, L, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base):
    try: return cell_ops(eng, L, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base)
    except Unsupported as e:
        S = scatter(eng, H, c, cont, K, mentions, base)
        if S is None: S = placewise(eng, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base)
        if S is None: raise
        return S


NSC = [0]


def lists_at(eng, H, c, cont, K, mentions):
    """the (nested) list of scalars that all updates of the cell are within: path, type of the elements, depth; or None"""
    ops = [o for pc, r, stt in cont for o in stt[10] if o[0] == c]
    if not ops: return None
    for pc, r, stt in cont:
        if ("cell", c) in stt[9] and not any(o[0] == c for o in stt[10]): return None
    pre = ops[0][1]
    for o in ops[1:]:
        m = 0
        while m < min(len(pre), len(o[1])) and _path_eq(pre[:m + 1], o[1][:m + 1]): m += 1
        pre = pre[:m]
    for m, (tag, k) in enumerate(pre):
        if is_z(k) and (core_mentions(k, K) or mentions(k)): pre = pre[:m]; break
    try: ty = _type_at(H.cells[c], pre)
    except (Unsupported, KeyError, AttributeError): return None
    d, t = 0, ty
    while isinstance(t, TList): d, t = d + 1, t.e
    if not d or not isinstance(t, core._Scalar): return None
    return pre, ty, d


def same_len(a, b, rng):
    x = z3.simplify(zint(a) - zint(b))
    if z3.is_int_value(x) and x.as_long() == 0: return True
    return _valid(rng, zint(a) == zint(b))


def same_lengths(eng, S, H, c, base, pre):
    """no length changes: reads of lengths see the initial ones; the element's head value and its arguments"""
    m = 0
    while m < len(pre) and pre[m][0] == "f": m += 1
    tree, i, t, args = eng.child_path(H.hc[c][0], pre[:m]), eng.child_path(base[0][c], pre[:m]), _type_at(H.cells[c], pre[:m]), []
    while isinstance(t, TList) and isinstance(tree, SeqV) and isinstance(i, SeqV):
        if _head_fun(tree.n, args): S.funs.append((tree.n.decl(), _lam(i.n, args, z3.IntSort())))
        x = fresh_int("oj")
        tree, i, t, args = tree.at(x), i.at(x), t.e, args + [x]
    return tree, args


def scatter(eng, H, c, cont, K, mentions, base):
    """a loop that writes one and the same value at varying places of a (nested) list: place p has the value afterwards iff some iteration writes it"""
    w = lists_at(eng, H, c, cont, K, mentions)
    if w is None: return None
    pre, ty, d = w
    head = eng.child_path(H.hc[c][0], pre)
    ini = eng.child_path(base[0][c], pre)
    NSC[0] += 1
    idx = [z3.Int("scat:%d:%d" % (NSC[0], j)) for j in range(d)]
    val = [None]
    conds = []
    for pc, r, stt in cont:
        gs = [x for t, x in pc if t == "g"]
        rng = [x for t, x in pc if not has_quant(x)]
        try: new = eng.child_path(stt[0][c], pre)
        except (Unsupported, KeyError): return None
        old = head
        for j in range(d):
            if not isinstance(new, SeqV) or new.kind != old.kind or not same_len(new.n, old.n, rng): return None
            rng = rng + [0 <= idx[j], idx[j] < zint(old.n)]
            new, old = new.at(idx[j]), old.at(idx[j])
        if not is_scalar(new): return None
        new = to_z(new, old.sort())
        def walk(e, under):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                a = walk(e.arg(1), under + [e.arg(0)])
                b = walk(e.arg(2), under + [z3.Not(e.arg(0))])
                return z3.simplify(z3.Or(z3.And(e.arg(0), a), z3.And(z3.Not(e.arg(0)), b)))
            if e.eq(old): return z3.BoolVal(False)
            if z3.is_app(e) and e.decl().eq(old.decl()):
                if _valid(rng + under, z3.And(*[x == y for x, y in zip(e.children(), old.children())])): return z3.BoolVal(False)
                raise Unsupported("moves values")
            if core_mentions(e, K) or mentions(e) or any(core_mentions(e, x) for x in idx): raise Unsupported("not one value")
            if val[0] is not None and not val[0].eq(e): raise Unsupported("not one value")
            val[0] = e
            return z3.BoolVal(True)
        try: w = walk(z3.simplify(new), [])
        except Unsupported: return None
        conds.append(z3.And(*gs, w))
    if val[0] is None: return None
    S = CellSum()
    S.ops.append((pre, "scatter", {"val": val[0], "cond": z3.Or(*conds), "idx": idx}))
    same_lengths(eng, S, H, c, base, pre)
    return S


def only_iteration(x, K):
    """the one iteration K in which x is not 0, if the code says which"""
    seen = set()
    for e in core.subterms(x):
        if not (z3.is_eq(e) and z3.is_int(e.arg(0)) and core_mentions(e, K)) : continue
        d = z3.simplify(e.arg(0) - e.arg(1), som=True)
        for t in (z3.simplify(K - d, som=True), z3.simplify(K + d, som=True)):
            if core_mentions(t, K) or t.sexpr() in seen or any(z3.is_var(y) for y in core.subterms(t)): continue
            seen.add(t.sexpr())
            if _valid([x != 0], K == t): return t
    return None


def placewise(eng, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base):
    """a loop that adds to (or overwrites) the places of a nested list: every place has a closed form of its own"""
    w = lists_at(eng, H, c, cont, K, mentions)
    if w is None: return None
    pre, ty, d = w
    head, ini = eng.child_path(H.hc[c][0], pre), eng.child_path(base[0][c], pre)
    NSC[0] += 1
    idx = [z3.Int("plc:%d:%d" % (NSC[0], j)) for j in range(d)]
    vals = []
    for pc, r, stt in cont:
        facts = [0 <= K, K < zint(n)] + [x for _, x in eng.pc] + [x for t, x in pc]
        rng = [x for x in facts if not has_quant(x)]
        quant = [x for x in facts if has_quant(x)]
        try: new = eng.child_path(stt[0][c], pre)
        except (Unsupported, KeyError): return None
        old, i0 = head, ini
        for j in range(d):
            if not isinstance(new, SeqV) or not isinstance(i0, SeqV) or new.kind != old.kind or not same_len(new.n, old.n, rng): return None
            rng = rng + [0 <= idx[j], idx[j] < zint(old.n), zint(old.n) == zint(i0.n)]        # (no iteration changes a length)
            new, old, i0 = new.at(idx[j]), old.at(idx[j]), i0.at(idx[j])
        if not is_scalar(new) or not is_scalar(i0) or not is_z(old): return None
        new, i0 = to_z(new, old.sort()), to_z(i0, old.sort())
        def own(e, under):
            """reads of this place are reads of old"""
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                if _valid(rng + quant + under, e.arg(0)): return own(e.arg(1), under)
                if _valid(rng + quant + under, z3.Not(e.arg(0))): return own(e.arg(2), under)
                return z3.If(e.arg(0), own(e.arg(1), under + [e.arg(0)]), own(e.arg(2), under + [z3.Not(e.arg(0))]))
            sub = []
            for a in core.subterms(e):
                if z3.is_app(a) and a.num_args() and a.decl().eq(old.decl()) and not a.eq(old) and _valid(rng + under, z3.And(*[x == y for x, y in zip(a.children(), old.children())])): sub.append((a, old))
            return z3.substitute(e, *sub) if sub else e
        vals.append(own(z3.simplify(new), [x for t, x in pc if t == "g" and not has_quant(x)]))
    v = vals[-1]
    for g, x in list(zip(guards, vals))[-2::-1]: v = z3.If(gand(g), x, v)
    fixed = lambda e: sk.z(sub_cf(e))
    def free(e): return not mentions(e)
    def delta(e):
        """e = old + delta"""
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            g = fixed(e.arg(0))
            a, b = delta(e.arg(1)), delta(e.arg(2))
            return z3.If(g, a, b) if free(g) and a is not None and b is not None else None
        if e.sort() not in (z3.IntSort(), z3.RealSort()): return fixed(e) if False else None
        x = fixed(z3.simplify(e - old, som=True))
        return x if free(x) else None
    def form(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            g = fixed(e.arg(0))
            if free(g) and not core_mentions(g, K):
                a, b = form(e.arg(1)), form(e.arg(2))
                return (lambda m: z3.If(g, a(m), b(m))) if a and b else None
        x = delta(e)
        if x is not None:
            x = z3.simplify(x)
            if z3.is_int_value(x) and x.as_long() == 0: return lambda m: i0
            t = only_iteration(x, K)
            if t is not None: return lambda m: z3.If(z3.And(0 <= t, t < zint(m)), i0 + z3.substitute(x, (K, t)), i0)
            C = eng.B.SUMS.sum(x, K)
            return lambda m: i0 + to_z(C(m), i0.sort())
        x = fixed(e)
        if free(x): return lambda m: z3.If(zint(m) <= 0, i0, z3.substitute(x, (K, zint(m) - 1)))
        return None
    try: f = form(v)
    except z3.Z3Exception: return None
    if f is None: return None
    S = CellSum()
    at = lambda m, args: z3.substitute(f(m), *[(x, zint(a)) for x, a in zip(idx, args)])
    S.ops.append((pre, "place", {"f": at, "depth": d}))
    tree, args = same_lengths(eng, S, H, c, base, pre)
    if all(t == "f" for t, k in pre) and _head_fun(tree, args): S.funs.append((tree.decl(), _lam(at(K, args), args, tree.sort())))
    return S


def has_quant(e): return any(z3.is_quantifier(x) for x in core.subterms(e))


def _valid(hyps, goal):
    sv = z3.Solver(); step_limit(sv, 1.0)
    for h in hyps: sv.add(h)
    sv.add(z3.Not(goal))
    return sv.check() == z3.unsat


def some_iteration(eng, K, m, C):
    """exists 0 <= K < m with C(K); K is eliminated where an equation determines it"""
    pos = {}
    def positive(n):
        if n.get_id() not in pos: pos[n.get_id()] = (n, eng.entails(n > 0))
        return pos[n.get_id()][1]
    mods = lambda e: [x for x in core.subterms(e) if z3.is_app(x) and x.decl().eq(MOD)]
    def unwrap(e):
        """a remainder by a positive number is not negative"""
        ms = {x.get_id(): x for x in mods(e) if positive(x.arg(1))}
        cs = [(x, z3.BoolVal(True)) for m in ms.values() for x in (m >= 0, z3.IntVal(0) <= m, z3.simplify(0 <= m))]
        return z3.simplify(z3.substitute(e, *cs)) if cs else e
    def modlin(e):
        """0 <= K < m and q == (t +- K) % n for some K: the least candidate is (q - t) % n or (t - q) % n"""
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EQ and e.arg(0).sort() == z3.IntSort()): return None
        for a, q in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if not (z3.is_app(a) and a.decl().eq(MOD)) or core_mentions(q, K) or core_mentions(a.arg(1), K) or not positive(a.arg(1)): continue
            for sg in (1, -1):
                t = z3.simplify(a.arg(0) - sg * K, som=True)
                if not core_mentions(t, K): return z3.And(0 <= q, q < a.arg(1), MOD(z3.simplify(q - t if sg == 1 else t - q), a.arg(1)) < m)
        return None
    inr = lambda t: z3.And(0 <= t, t < m)
    def lin(e):
        """K = t from an equation"""
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EQ and e.arg(0).sort() == z3.IntSort()): return None
        d = z3.simplify(e.arg(0) - e.arg(1), som=True)
        for sg in (1, -1):
            t = z3.simplify(d - sg * K, som=True)
            if not core_mentions(t, K): return z3.simplify(-t if sg == 1 else t)
        return None
    def ineq(e):
        """e as (t, strict): t >= 0 or t > 0"""
        if z3.is_not(e):
            r = ineq(e.arg(0))
            return None if r is None else (z3.simplify(-r[0], som=True), not r[1])
        if not z3.is_app(e) or len(e.children()) != 2 or e.arg(0).sort() != z3.IntSort(): return None
        k, a, b = e.decl().kind(), e.arg(0), e.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): return z3.simplify(a - b, som=True), k == z3.Z3_OP_GT
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): return z3.simplify(b - a, som=True), k == z3.Z3_OP_LT
        return None
    def quotient(x, cs):
        r = ineq(x)
        if r is None or r[1] or not core_mentions(r[0], K): return None
        low = r[0]                                     # low = p - K c >= 0
        p = z3.simplify(z3.substitute(low, (K, z3.IntVal(0))), som=True)
        c = z3.simplify(p - z3.substitute(low, (K, z3.IntVal(1))), som=True)
        if core_mentions(p, K) or z3.is_int_value(c): return None
        if not z3.simplify(low - p + K * c, som=True).eq(z3.IntVal(0)) or not positive(c): return None
        for y in cs:
            u = ineq(y)
            if u is not None and u[1] and z3.simplify(c - low - u[0], som=True).eq(z3.IntVal(0)): return DIV(p, c)
        return None
    def split(e):
        """cases of an equation with conditional terms"""
        for x in core.subterms(e):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and core_mentions(x, K):
                return [z3.And(x.arg(0), z3.substitute(e, (x, x.arg(1)))), z3.And(z3.Not(x.arg(0)), z3.substitute(e, (x, x.arg(2))))]
        return None
    def flat(e, kind):
        if z3.is_app(e) and e.decl().kind() == kind: return [y for x in e.children() for y in flat(x, kind)]
        return [e]
    def go(C, depth):
        C = unwrap(z3.simplify(C))
        if z3.is_false(C): return z3.BoolVal(False)
        if not core_mentions(C, K): return z3.And(m > 0, C)
        alts = flat(C, z3.Z3_OP_OR)
        if len(alts) > 1: return z3.Or(*[go(a, depth) for a in alts])
        cs = flat(C, z3.Z3_OP_AND)
        for x in cs:
            t = lin(x)
            if t is not None: return z3.simplify(z3.And(inr(t), *[z3.substitute(y, (K, t)) for y in cs]))
        # 0 <= p - K c < c: K = p // c
        for x in cs:
            q = quotient(x, cs)
            if q is not None: return z3.simplify(z3.And(inr(q), *[z3.substitute(y, (K, q)) for y in cs]))
        if depth:
            for x in cs:
                if not core_mentions(x, K): continue
                rest = [y for y in cs if y is not x]
                alts = flat(x, z3.Z3_OP_OR)
                k0 = "or"
                if len(alts) == 1 and z3.is_app(x):
                    k = x.decl().kind()
                    if k == z3.Z3_OP_ITE: alts = [z3.And(x.arg(0), x.arg(1)), z3.And(z3.Not(x.arg(0)), x.arg(2))]
                    elif k == z3.Z3_OP_IMPLIES: alts = [z3.Not(x.arg(0)), x.arg(1)]
                    elif k == z3.Z3_OP_NOT and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_AND: alts = [z3.Not(y) for y in x.arg(0).children()]
                    elif k == z3.Z3_OP_EQ and x.arg(0).sort() == z3.IntSort(): alts, k0 = split(x) or [x], "split"
                if len(alts) > 1 and any(lin(y) is not None or split(y) for a in alts for y in flat(a, z3.Z3_OP_AND)):
                    res = z3.Or(*[go(z3.And(a, *rest), depth - 1) for a in alts])
                    if not has_quant(res) or k0 != "split": return res
        k = fresh_int("it")
        out = [x for x in cs if not core_mentions(x, K)]
        if len(out) + 1 == len(cs):
            x = modlin([x for x in cs if core_mentions(x, K)][0])
            if x is not None: return z3.And(x, *out)
        return z3.And(*out, z3.Exists([k], z3.substitute(z3.And(inr(K), *[x for x in cs if core_mentions(x, K)]), (K, k))))
    return go(C, 6)


def cell_ops(eng, L, H, c, cont, guards, K, n, mentions, sub_cf, sk, gand, base):
    S = CellSum()
    locs = []
    per = []
    for pc, r, stt in cont:
        ops = [o for o in stt[10] if o[0] == c]
        per.append(ops)
        for o in ops:
            if not any(_path_eq(o[1], l) for l in locs): locs.append(o[1])
    # a write that is not logged cannot be summarised
    for (pc, r, stt), ops in zip(cont, per):
        if ("cell", c) in stt[9] and not ops: raise Unsupported("unlogged update")
    init_cell = base[0][c]
    for l in locs:
        for tag, k in l[:-1]:
            if is_z(k) and (core_mentions(k, K) or mentions(k)): raise Unsupported("update of a nested container at a varying place")
    rowlocs = [l for l in locs if l and l[-1][0] == "i" and is_z(l[-1][1]) and core_mentions(l[-1][1], K)]
    for l in locs:
        if l in rowlocs: continue
        if l and is_z(l[-1][1]) and mentions(l[-1][1]): raise Unsupported("update of a nested container at a varying place")
        if any(o is not l and len(o) != len(l) and _path_eq(o[:min(len(o), len(l))], l[:min(len(o), len(l))]) and o not in rowlocs for o in locs): raise Unsupported("nested updates")
        rows = []
        for ops in per: rows.append([o for o in ops if _path_eq(o[1], l)])
        kinds = {o[2] for r in rows for o in r}
        if kinds == {"append"}:
            if any(len(r) > 1 for r in rows):
                m = {len(r) for r in rows}
                if len(m) != 1: raise Unsupported("varying numbers of appends")
                m = m.pop()
                vals = [[r[j][3] for r in rows] for j in range(m)]
                S.ops.append((l, "appendm", {"vals": [_merge(guards, v, gand) for v in vals], "cond": None}))
                if mentions(*[x for v in vals for x in v]): raise Unsupported("appended values depend on the lists being built")
                S.ops[-1] = (l, "appendm", {"vals": [sk.v(sub_cf(_merge(guards, v, gand))) for v in vals]})
                continue
            with_ = [(g, r[0][3]) for g, r in zip(guards, rows) if r]
            v = with_[-1][1]
            for g, x in reversed(with_[:-1]): v = ite(gand(g), x, v)
            if len(with_) == len(rows): S.ops.append((l, "append", {"val": v, "cond": None}))
            else: S.ops.append((l, "append", {"val": v, "cond": z3.Or(*[gand(g) for g, r in zip(guards, rows) if r])}))
        elif kinds <= {"extend", "append"}:
            vs = []
            for r in rows:
                q = cseq([])
                for o in r: q = seq_concat(q, o[3] if o[2] == "extend" else cseq([o[3]])) if o is not r[0] else o[3] if o[2] == "extend" else cseq([o[3]])
                vs.append(q)
            S.ops.append((l, "extend", {"val": _merge(guards, vs, gand), "cond": None}))
        elif kinds == {"mset"}:
            m = {len(r) for r in rows}
            if max(m) > 1:
                if len(m) != 1: raise Unsupported("varying numbers of dict updates")
                mm = m.pop()
                ks = [_merge(guards, [r[j][3] for r in rows], gand) for j in range(mm)]
                vs = [_merge(guards, [r[j][4] for r in rows], gand) for j in range(mm)]
                if mentions(*ks, *vs) & {c}: raise Unsupported("the dict is read while it is filled")
                S.ops.append((l, "msetm", {"keys": [sk.v(sub_cf(k)) for k in ks], "vals": [sk.v(sub_cf(v)) for v in vs]}))
                continue
            with_ = [(g, r[0][3], r[0][4]) for g, r in zip(guards, rows) if r]
            k, v = with_[-1][1], with_[-1][2]
            for g, x, y in reversed(with_[:-1]): k, v = ite(gand(g), x, k), ite(gand(g), y, v)
            cond = None if len(with_) == len(rows) else z3.Or(*[gand(g) for g, r in zip(guards, rows) if r])
            S.ops.append((l, "mset", {"key": k, "val": v, "cond": cond}))
        elif kinds == {"set"}:
            off = None
            vals = []
            for g, r in zip(guards, rows):
                if not r: vals.append(None); continue
                for o in r:
                    d, w = z3.simplify(sub_cf(zint(o[3])) - K, som=True), 1
                    if core_mentions(d, K): d, w = z3.simplify(sub_cf(zint(o[3])) + K, som=True), -1
                    if core_mentions(d, K) or mentions(d): raise Unsupported("list update at a varying place")
                    if off is not None and not (off.eq(d) and way == w): raise Unsupported("list update at several places")
                    off, way = d, w
                vals.append(r[-1][4])
            S.ops.append((l, "own", {"vals": vals, "off": off, "guards": guards, "way": way}))
            _own_funs(eng, S, c, l, H, init_cell, off, way)
        elif kinds == {"attr"}:
            names = {o[3] for r in rows for o in r}
            # a field assigned a value of its own: last value wins, or an accumulation
            for nm in names:
                vals = []
                old = eng.child_path(H.hc[c][0], l).f[nm]
                for r in rows:
                    w = [o for o in r if o[3] == nm]
                    vals.append(w[-1][4] if w else old)
                if not is_z(old): raise Unsupported("field %s" % nm)
                i0 = eng.child_path(init_cell, l).f[nm]
                f = _scalar_cf(eng, old, i0, vals, guards, K, mentions, sub_cf, sk, gand, c)
                S.ops.append((l, "field", {"name": nm, "f": f}))
                S.funs.append(_fun_pair(old, f(K)))
        elif kinds <= {"mupdate", "mset"}:
            vs = []
            for r in rows:
                q = cseq([])
                for o in r: q = seq_concat(q, o[3] if o[2] == "mupdate" else cseq([(o[3], o[4])]))
                vs.append(q)
            S.ops.append((l, "mupdate", {"val": _merge(guards, vs, gand)}))
        elif kinds == {"replace"} and len(rows) and all(len(r) == 1 for r in rows):
            raise Unsupported("container replaced in every iteration")
        else: raise Unsupported("update kinds %s" % sorted(kinds))
    for l in rowlocs:
        d = z3.simplify(l[-1][1] - K)
        if core_mentions(d, K) or mentions(d): raise Unsupported("row update at a varying place")
        if len(locs) > 1: raise Unsupported("row updates and others")
        # the row's value after the iteration
        vals = []
        for pc, r, stt in cont:
            t = stt[0][c]
            vals.append(eng.child_path(t, l))
        S.ops.append((l[:-1], "own", {"vals": vals, "off": d, "guards": guards, "way": 1}))
        _own_funs(eng, S, c, l[:-1], H, init_cell, d, 1)
    at_fields = {}
    for l, k, d in S.ops:
        if k == "field": at_fields.setdefault(l, []).append(tuple(l) + (("f", d["name"]),))
    _frame(S, c, H, init_cell, [x for l in locs for x in ([l[:-1]] if l in rowlocs else at_fields.get(l, [l]))])
    return S


def _scalar_cf(eng, h, i0, vals, guards, K, mentions, sub_cf, sk, gand, c):
    if all(is_z(v) and v.eq(h) for v in vals): return lambda i: i0
    hn = h.decl().name()
    dep = lambda e: any(d == hn for d in decls(e))
    if not any(dep(v) for v in vals) and not any(dep(g) for gs in guards for g in gs):
        body = sk.v(sub_cf(_merge(guards, vals, gand)))
        return lambda i: ite(zint(i) == 0, i0, subst(body, [(K, isub(i, 1))]))
    if h.sort() in (z3.IntSort(), z3.RealSort()):
        ds = [z3.simplify(to_z(v, h.sort()) - h, som=True) for v in vals]
        if any(dep(d) for d in ds) or (len(ds) > 1 and any(dep(g) for gs in guards for g in gs)): raise Unsupported("field without a closed form")
        body = sk.z(to_z(sub_cf(_merge(guards, ds, gand))))
        if not core_mentions(body, K): return lambda i: eng.binop(_Add, i0, eng.binop(_Mult, conc(body), i))
        C = eng.B.SUMS.sum(body, K)
        return lambda i: eng.binop(_Add, i0, C(i))
    raise Unsupported("field without a closed form")


def _fun_pair(h, v):
    """substitute the constant h by v"""
    return (h.decl(), to_z(v, h.sort()))


def _head_fun(v, args):
    """is the head value v a function of just these arguments?"""
    return is_z(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() == len(args) and all(x.eq(y) for x, y in zip(v.children(), args))


def _own_funs(eng, S, c, l, H, init_cell, off, way):
    """in an own-index loop iteration K sees the initial element K (and must read no other place that is already filled):
    reads of the head value are replaced by the initial value, which is right for indices >= K; this is checked"""
    def walk(t, v, i, args, own):
        # t: type, v: head tree, i: initial tree; args: index variables so far; own: which of them is the loop's
        late = len(args) > own
        if isinstance(t, TList):
            if _head_fun(v.n, args):
                S.funs.append((v.n.decl(), _lam(i.n, args, z3.IntSort())))
                if late: S.ownreads.setdefault(v.n.decl().name(), []).append((off, way, own))
            j = fresh_int("oj")
            walk(t.e, v.at(j), i.at(j), args + [j], own)
        elif isinstance(t, core._Scalar):
            if _head_fun(v, args):
                S.funs.append((v.decl(), _lam(i, args, v.sort())))
                S.ownreads.setdefault(v.decl().name(), []).append((off, way, own))
        elif isinstance(t, core.TOpt):
            vv, ii = (v if isinstance(v, OptV) else OptV(False, v)), (i if isinstance(i, OptV) else OptV(i is None, i))
            if _head_fun(vv.none, args):
                S.funs.append((vv.none.decl(), _lam(ii.none if is_z(ii.none) else z3.BoolVal(ii.none), args, z3.BoolSort())))
                S.ownreads.setdefault(vv.none.decl().name(), []).append((off, way, own))
            if ii.v is not None: walk(t.t, vv.v, ii.v, args, own)
        # other elements are not substituted: a loop that reads them back is refused
    def down(t, v, i, l, args):
        if not l:
            if isinstance(t, TList): walk(t, v, i, args, len(args))
            return
        tag, k = l[0]
        if isinstance(t, core.TRec): down(t.fields[k], v.f[k], i.f[k], l[1:], args)
        elif isinstance(t, TStruct):
            if isinstance(v, CMapV) and isinstance(i, CMapV): down(t.fields[k], v.d[k], i.d[k], l[1:], args)
        elif isinstance(t, TList):
            if _head_fun(v.n, args): S.funs.append((v.n.decl(), _lam(i.n, args, z3.IntSort())))
            j = fresh_int("oj")
            down(t.e, v.at(j), i.at(j), l[1:], args + [j])
        elif isinstance(t, TDict) and isinstance(v, MapV) and isinstance(i, MapV):
            k, kv = core.bound_key(t.k)
            down(t.v, v.val(k), i.val(k), l[1:], args + kv)
    down(H.cells[c], H.hc[c][0], init_cell, l, [])


def _frame(S, c, H, init_cell, locs):
    """what no update touches is as it was"""
    pats = {tuple((t, k if t == "f" else None) for t, k in l) for l in locs}
    done = {f.name() for f, _ in S.funs}
    def reg(v, i, args):
        if _head_fun(v, args) and v.decl().name() not in done: S.funs.append((v.decl(), _lam(i, args, v.sort())))
    def walk(t, v, i, path, args):
        if path in pats: return
        if isinstance(t, TList):
            if not isinstance(i, SeqV) or not isinstance(v, SeqV): return
            reg(v.n, i.n, args)
            j = fresh_int("oj")
            if i.items == [] or i.items == (): return
            walk(t.e, v.at(j), i.at(j), path + (("i", None),), args + [j])
        elif isinstance(t, core.TRec):
            if isinstance(i, RecV):
                for f in t.fields: walk(t.fields[f], v.f[f], i.f[f], path + (("f", f),), args)
        elif isinstance(t, core._Scalar):
            if is_scalar(i) and i is not None: reg(v, i, args)
    try: walk(H.cells[c], H.hc[c][0], init_cell, (), [])
    except (Unsupported, KeyError, AttributeError, z3.Z3Exception): pass


def _lam(v, args, sort):
    return z3.substitute(to_z(v, sort), *[(a, z3.Var(j, a.sort())) for j, a in enumerate(args)])


def _type_at(ty, l):
    for tag, k in l:
        if tag == "f": ty = ty.fields[k]
        elif tag == "i": ty = ty.e
        elif isinstance(ty, TStruct): ty = ty.fields[k]
        else: ty = ty.v
    return ty


def _merge(guards, vals, gand):
    v = vals[-1]
    for g, x in list(zip(guards, vals))[-2::-1]: v = ite(gand(g), x, v)
    return v


def for_all(K, rng, f):
    """for all K in the range f; a quantified f with triggers that speak about K gets one quantifier"""
    if z3.is_quantifier(f) and f.is_forall() and f.num_patterns():
        vs = [core.fresh_int("fa") if f.var_sort(i) == z3.IntSort() else z3.FreshConst(f.var_sort(i), "fa") for i in range(f.num_vars())]
        sub = lambda e: z3.substitute_vars(e, *reversed(vs))
        pats = [[sub(x) for x in f.pattern(i).children()] for i in range(f.num_patterns())]
        if all(any(d.eq(K) for x in p for d in core.subterms(x)) for p in pats):
            return z3.ForAll([K] + vs, z3.Implies(rng, sub(f.body())), patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats])
    return z3.ForAll([K], z3.Implies(rng, f))


def apply_plan(L, P):
    eng, H, K = L.eng, P.H, P.K
    n = P.n
    if L.is_while: eng.assume(n >= 0)
    zn = zint(n)
    cnt = conc(z3.If(zn > 0, zn, 0))
    if is_z(cnt) and (eng.entails(zn >= 0) or eng.entails_all([], zn >= 0)): cnt = n
    ob = P.obls
    rng = z3.And(0 <= K, K < zn)
    add_obls(eng, ob, P)
    # which way does the loop end?
    case = 0
    exits = [e for e in P.exitc if conc(e) is not False]
    if exits: case = eng.choose(2)
    if case == 1:
        # some iteration ends the loop early: the first one
        w = fresh_int("exit")
        eng.assume(0 <= w); eng.assume(w < zn, "g")
        anyx = lambda i: z3.Or(*[z3.substitute(e, (K, zint(i))) for e in P.exitc])
        i = fresh_int("i")
        eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Not(anyx(i))))))
        eng.assume(anyx(w), "g")
        for f in P.facts: eng.pc.append(("f", for_all(K, z3.And(0 <= K, K < w), f)))
        set_state(L, P, w)
        if not eng.feasible(z3.BoolVal(True)): raise PathEnd("dead")
        try:
            if L.is_while: eng.assume(L.test(), "g")
            L.run(w)
        except _Break: return
        except _Cont: pass
        raise PathEnd("not an exiting iteration")
    if exits:
        i = fresh_int("i")
        eng.pc.append(("g", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zn), z3.Not(z3.Or(*[z3.substitute(e, (K, i)) for e in P.exitc]))))))
    for f in P.facts: eng.pc.append(("f", for_all(K, rng, f)))
    if L.is_while:
        t = P.fin(P.test) if is_z(P.test) else z3.BoolVal(bool(P.test))
        P.check(t)
        i = fresh_int("i")
        eng.pc.append(("f", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.substitute(t, (K, i))))))
        eng.pc.append(("f", z3.Implies(n > 0, z3.substitute(t, (K, n - 1)))))
        eng.assume(z3.Not(z3.substitute(t, (K, n))))
    set_state(L, P, cnt)
    if L.st.orelse: eng.exec_block(L.st.orelse)


def add_obls(eng, obls, P):
    """safety obligations of a generic iteration K: the earlier ones went well and did not end the loop"""
    if eng.quiet or eng.replaying(): return
    K = P.K
    J = fresh_int("j")
    rng = z3.And(0 <= J, J < K)
    prior = [z3.ForAll([J], z3.Implies(rng, z3.substitute(f, (K, J)))) for f in P.facts]
    ex = [e for e in P.exitc if conc(e) is not False]
    if ex: prior.append(z3.ForAll([J], z3.Implies(rng, z3.Not(z3.Or(*[z3.substitute(e, (K, J)) for e in ex])))))
    for o in obls:
        o2 = type(o)(**{s: getattr(o, s) for s in o.__slots__})
        o2.pc = list(o.pc) + [c for _, c in eng.pc] + prior
        eng.obls.append(o2)


def set_state(L, P, m):
    """the state after m iterations"""
    eng, H, K = L.eng, P.H, P.K
    for key, f in P.cf.items():
        fr = frame_of(eng, key[0])
        v = f(m)
        if key in H.refvars and not is_scalar(v):
            r = eng.new(v); eng.shared.append((r.cell, ())); v = r
        fr.vars[key[1]] = v
        if eng.writes is not None: eng.writes.add(("var", key[0], key[1]))
    for key in H.temps:
        fr = frame_of(eng, key[0])
        fr.vars[key[1]] = Poison(key)
        if eng.writes is not None: eng.writes.add(("var", key[0], key[1]))
    for s in H.shared:
        if s not in eng.shared: eng.shared.append(s)
    for c, S in P.cells.items():
        for l, kind, d in S.final:
            ref = Ref(c, l, eng.nev)
            t = eng.get(ref)
            if kind in ("append", "mset") and d["cond"] is not None and eng.entails_all([K], z3.Implies(z3.And(0 <= K, K < zint(m)), d["cond"])): d = dict(d, cond=None)
            if kind == "append":
                if d["cond"] is None: ext = SeqV(m, (lambda v: lambda i: subst(v, [(K, zint(i))]))(d["val"]), "list", None)
                else:
                    src = L.seq if L.seq is not None else SeqV(m, lambda i: i, "list", TInt)
                    ext = eng.filtered(SeqV(m, src.at, "list", None, src.pos, None), m, K, d["cond"], d["val"])
                if ext.pos is None and is_scalar(d["val"]) and L.seq is not None and L.seq.pos is not None and d["cond"] is None and L.seq.items is None:
                    ek = L.seq.at(K)
                    if is_scalar(ek) and eqv(d["val"], ek) is True: ext.pos = L.seq.pos
                new = seq_concat(t, ext)
                if not is_z(t.n) and t.n == 0: new = SeqV(ext.n, ext.at, t.kind, ext.ety, ext.pos)
                eng.put(ref, new)
                eng.log(ref, "extend", ext)
            elif kind == "extend":
                ext = eng.B.flatten(eng, SeqV(m, (lambda v: lambda i: subst(v, [(K, zint(i))]))(d["val"]), "list", None))
                eng.put(ref, seq_concat(t, ext)); eng.log(ref, "extend", ext)
            elif kind == "appendm":
                q = len(d["vals"])
                vals = d["vals"]
                def at(i, vals=vals, q=q):
                    i = zint(i)
                    r = subst(vals[-1], [(K, i / q)])
                    for j in range(q - 2, -1, -1): r = ite(i % q == j, subst(vals[j], [(K, i / q)]), r)
                    return r
                ext = SeqV(conc(zint(m) * q), at, "list", None)
                eng.put(ref, seq_concat(t, ext)); eng.log(ref, "extend", ext)
            elif kind in ("mset", "msetm", "mupdate"):
                if kind == "mupdate":
                    s = eng.B.flatten(eng, SeqV(m, (lambda v: lambda i: subst(v, [(K, zint(i))]))(d["val"]), "list", None))
                elif kind == "mset":
                    kv = (d["key"], d["val"])
                    if d["cond"] is None: s = SeqV(m, lambda i, kv=kv: subst(kv, [(K, zint(i))]), "list", None)
                    else:
                        src = L.seq if L.seq is not None else SeqV(m, lambda i: i, "list", TInt)
                        s = eng.filtered(SeqV(m, src.at, "list", None, src.pos, None), m, K, d["cond"], kv)
                        fidx, C = eng.last_filter[5], eng.last_filter[6]
                    kp = _key_inverse(L, K, d["key"])
                    if kp is not None:
                        if d["cond"] is None: s.kpos = kp
                        else: s.kpos = (lambda kp, C, cond: lambda x: z3.If(z3.And(0 <= zint(kp(x)), zint(kp(x)) < zint(m), z3.substitute(cond, (K, zint(kp(x))))), C(zint(kp(x))), -1))(kp, C, d["cond"])
                else:
                    q = len(d["keys"])
                    def at(i, d=d, q=q):
                        i = zint(i)
                        r = subst((d["keys"][-1], d["vals"][-1]), [(K, i / q)])
                        for j in range(q - 2, -1, -1): r = ite(i % q == j, subst((d["keys"][j], d["vals"][j]), [(K, i / q)]), r)
                        return r
                    s = SeqV(conc(zint(m) * q), at, "list", None)
                    s.multi = (m, lambda i, d=d: [subst(k, [(K, zint(i))]) for k in d["keys"]], lambda i, d=d: [subst(v, [(K, zint(i))]) for v in d["vals"]])
                nd = eng.get(eng.B.dict_of_pairs(eng, s))
                if (isinstance(t, CMapV) and not t.d) or core._nomap(to_map(t)) if isinstance(t, MapV) or not t.d else False: new = nd
                else: new = eng.B.map_merge(eng, to_map(t) if isinstance(t, CMapV) else t, nd)
                eng.put(ref, new); eng.log(ref, "mupdate", s)
            elif kind == "own":
                off, way = d["off"], d["way"]
                ini = t
                fin, check = P.fin, P.check
                gs = d["guards"]
                vals = [v if v is not None else None for v in d["vals"]]
                def at(i, ini=ini, vals=vals, gs=gs, off=off, way=way):
                    k = zint(i) - off if way > 0 else off - zint(i)
                    old = ini.at(i)
                    r = None
                    for g, v in list(zip(gs, vals))[::-1]:
                        x = old if v is None else subst(fin(v), [(K, k)])
                        r = x if r is None else ite(subst(fin(z3.And(*g) if g else z3.BoolVal(True)), [(K, k)]), x, r)
                    return ite(z3.And(0 <= k, k < zint(m)), r, old)
                new = SeqV(t.n, at, t.kind, None)
                eng.put(ref, new); eng.log(ref, "replace", new)
            elif kind == "scatter":
                C, idx, v = some_iteration(eng, K, zint(m), d["cond"]), d["idx"], d["val"]
                def level(ini, args, j):
                    def at(i):
                        i = zint(i)
                        x = ini.at(i)
                        if j + 1 < len(idx): return level(x, args + [i], j + 1)
                        return ite(z3.substitute(C, *zip(idx, args + [i])), v, x)
                    return SeqV(ini.n, at, ini.kind, None)
                new = level(t, [], 0)
                eng.put(ref, new); eng.log(ref, "scatter", new)
            elif kind == "place":
                def plevel(ini, args, f=d["f"], depth=d["depth"]):
                    def at(i):
                        i = zint(i)
                        if len(args) + 1 < depth: return plevel(ini.at(i), args + [i])
                        return f(m, args + [i])
                    return SeqV(ini.n, at, ini.kind, None)
                new = plevel(t, [])
                eng.put(ref, new); eng.log(ref, "scatter", new)
            elif kind == "field":
                rec = t
                f = dict(rec.f); f[d["name"]] = d["f"](m)
                eng.put(ref, RecV(rec.cls, f)); eng.log(ref, "attr", d["name"], f[d["name"]])
    for c in H.events:
        eng.nev += 1
        eng.events.append((c, (), eng.nev, True))


def _key_inverse(L, K, key):
    """the index at which a key is set, when the keys are the elements of a sequence without repetitions"""
    if is_scalar(key) and is_z(key) and key.sort() == z3.IntSort():
        off = z3.simplify(key - K)
        if not core_mentions(off, K): return lambda x: zint(x) - off
    if L.seq is not None and L.seq.pos is not None:
        e = L.seq.at(K)
        if type(e) is type(key) or (is_scalar(e) and is_scalar(key)):
            try:
                if eqv(e, key) is True: return L.seq.pos
            except Unsupported: pass
    if L.seq is not None and L.seq.kpos is not None:
        e = L.seq.at(K)
        e = e[0] if isinstance(e, tuple) else None
        try:
            if e is not None and eqv(e, key) is True: return L.seq.kpos
        except Unsupported: pass
    return None


# ---------------------------------------------------------------- invariants
class Inv:
    """a loop invariant: names it needs, and fn(E) -> list of (label, formula)"""
    def __init__(self, names, fn, force=False, variant=None, whiles=None, own=(), once=()):
        self.names, self.fn, self.force, self.variant, self.whiles = names, fn, force, variant, whiles
        self.own, self.once = own, once      # variables holding the only reference to their object; objects stored away by the last iteration at most


class E:
    """what an invariant may look at"""
    def __init__(self, eng, k, n, entry, loop): self.eng, self.k, self.n, self._entry, self.loop = eng, k, n, entry, loop
    def __getattr__(self, name):
        if name.startswith("_"): raise AttributeError(name)
        return self.v(name)
    def v(self, name):
        try: x = self.eng.lookup(name)
        except (Unsupported, NeedHead): raise InvSkip("no variable %s" % name)
        return self.eng.peek(x)
    def ref(self, name): return self.eng.lookup(name)
    def old(self, name): return self._entry[name]
    def at(self, i): return self.loop.seq.at(i)


def changes(eng, H, names):
    """does the loop change one of the variables, or an object it holds?"""
    changed = {k[1] for k in H.carried} | {k[1] for k in H.temps} | {k[1] for k in H.refvars}
    seen = set()
    def holds(v):
        if isinstance(v, Ref):
            if v.cell in H.cells: return True
            if v.cell in seen: return False
            seen.add(v.cell)
            try: return holds(eng.peek(v))
            except Unsupported: return True
        if isinstance(v, RecV): return any(holds(x) for x in v.f.values())
        if isinstance(v, CMapV): return any(holds(x) for x in v.d.values()) or getattr(v, "rest", None) is not None
        if isinstance(v, SeqV): return any(holds(x) for x in v.items) if v.items is not None else False
        if isinstance(v, (tuple, list)): return any(holds(x) for x in v)
        if isinstance(v, OptV): return holds(v.v)
        return False
    for nm in names:
        if nm in changed: return True
        try:
            if holds(eng.lookup(nm)): return True
        except (Unsupported, NeedHead, KeyError): return True
    return False


def by_invariant(L, inv):
    eng, st = L.eng, L.st
    entry = {}
    f = eng.frames[-1]
    while f is not None:
        for nm, v in f.vars.items():
            if nm not in entry and not isinstance(v, Poison):
                try: entry[nm] = eng.peek(v)
                except Unsupported: pass
        f = f.parent
    needs = None
    for nm in inv.names:
        if nm not in entry:
            g = eng.frames[-1]
            while g is not None and nm not in g.vars: g = g.parent
            if needs is None and g is not None and isinstance(g.vars[nm], Poison): needs = g.vars[nm].key
            elif g is None: raise InvSkip("no variable %s" % nm)
    n = L.n
    qual = eng.frames[-1].func.name if eng.frames[-1].func else "?"
    def formulas(k):
        return inv.fn(E(eng, k, n, entry, L))
    try: init = formulas(0 if n is not None else 0)
    except (AttributeError, KeyError, TypeError, z3.Z3Exception) as ex: raise InvSkip("%s: %s" % (type(ex).__name__, ex))
    except InvSkip:
        if needs is not None: raise NeedHead(needs)
        raise
    if needs is not None: raise NeedHead(needs)
    K = fresh_int("K")
    L.owned = {(id(eng.frames[-1]), nm) for nm in inv.own}
    for nm in inv.own: sole(eng, L.st, nm)
    L.once = ()
    if inv.once:
        if n is None: raise InvSkip("once in a while loop")
        L.once = tuple(stored_root(eng, nm) for nm in inv.once)
    L.by_inv, L.live = True, set()
    H = remembered(L, inv, K)
    if inv.names and not changes(eng, H, inv.names): raise InvSkip("a loop that changes none of its variables")
    eng.inv_used.add(qual)
    lbl = "%s loop invariant" % qual
    for nm, g in init: eng.oblige("%s [%s] holds initially" % (lbl, nm), g, "inv")
    w = set()
    H.names = {}
    hv, hc = enter(eng, H)
    if eng.writes is not None:
        for k in list(H.carried) + list(H.temps): eng.writes.add(("var", k[0], k[1]))
        for c in H.cells: eng.writes.add(("cell", c))
    if eng.oplog is not None:
        for c in H.cells:
            if c in H.fields:
                for x in sorted(H.fields[c]): eng.oplog.append((c, (("f", x),), "whole"))
            else: eng.oplog.append((c, (), "whole"))
    for c in H.cells: pass
    k = fresh_int("iter")
    eng.assume(k >= 0)
    if n is not None:
        zn = zint(n)
        eng.assume(z3.Or(k <= zn, k == 0))
    for nm, g in formulas(k): eng.assume(zb(g))
    way = eng.choose(2)
    if way == 0:
        if n is not None: eng.assume(k < zint(n), "g")
        else:
            if not eng.branch(L.test()): raise PathEnd("exit")
        m0 = inv.variant(E(eng, k, n, entry, L)) if inv.variant else None
        try:
            L.run(k)
        except _Break: return
        except _Cont: pass
        for nm in inv.own: sole(eng, L.st, nm)
        for c in sorted(L.live): eng.oblige("%s: the list that is iterated keeps its length" % lbl, eqv(eng.store[c].n, n), "inv")
        if any(c in eng.forward or any(s[0] == c for s in eng.shared) for c in L.once):
            eng.oblige("%s: only the last iteration stores the object away" % lbl, zint(k) + 1 == zint(n), "inv")
        for nm, g in formulas(conc(k + 1)): eng.oblige("%s [%s] is preserved" % (lbl, nm), g, "inv")
        if m0 is not None:
            m1 = inv.variant(E(eng, conc(k + 1), n, entry, L))
            eng.oblige("%s: the variant decreases" % lbl, z3.And(zint(m0) >= 0, zint(m1) < zint(m0)), "inv")
        raise PathEnd("iteration done")
    if n is not None: eng.assume(zint(k) == (zint(n) if not eng.entails(zint(n) < 0) else 0), "g") if eng.entails(zint(n) >= 0) else eng.assume(zint(k) == z3.If(zint(n) > 0, zint(n), 0), "g")
    else:
        if eng.branch(L.test()): raise PathEnd("goes on")
    if not eng.feasible(z3.BoolVal(True)): raise PathEnd("dead")
    for c in L.once: eng.store[c] = GONE
    eng.exec_block(st.orelse)


def stored_root(eng, nm):
    v = eng.lookup(nm)
    if not isinstance(v, Ref): raise InvSkip("no object")
    r = eng.root(v)
    if r.path != () or any(s[0] == r.cell for s in eng.shared): raise InvSkip("part of another object")
    return r.cell


def sole(eng, st, nm):
    """refuse unless the variable holds the only reference to an object that this call made"""
    f = eng.frames[-1]
    r = eng.root(f.vars.get(nm)) if isinstance(f.vars.get(nm), Ref) else None
    if r is None or r.path != () or any(s[0] == r.cell for s in eng.shared): raise Unsupported("%s is not the only reference" % nm)
    if f.ncell0 is None or int(re.match(r"c(\d+)", r.cell).group(1)) <= f.ncell0: raise Unsupported("%s was made outside" % nm)
    for x in ast.walk(f.func.node):
        if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.Yield, ast.YieldFrom)) and x is not f.func.node: raise Unsupported("closures")
        if isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x.iter)) and any(y is st for y in ast.walk(x)):
            raise Unsupported("%s is iterated over" % nm)
    def refs(v, d=0):
        if is_z(v): return False
        if isinstance(v, Ref): return eng.root(v).cell == r.cell
        if isinstance(v, (tuple, list)): return any(refs(x, d + 1) for x in v)
        if isinstance(v, dict): return any(refs(x, d + 1) for x in v.values())
        if d < 6 and hasattr(v, "__dict__") and not isinstance(v, type): return any(refs(x, d + 1) for k, x in v.__dict__.items() if k not in ("node", "module", "parent", "cls"))
        return False
    for g in eng.allframes:
        for x, v in g.vars.items():
            if (g is not f or x != nm) and not isinstance(v, Poison) and refs(v): raise Unsupported("%s is not the only reference" % nm)


def remembered(L, inv, K):
    """what the body modifies; the same on every replay of the same path"""
    eng = L.eng
    key = None
    if len(eng.decs) == 1:
        d = eng.decs[0]
        key = (id(L.st), id(inv), NAMES.n, eng.ncell, tuple(x[0] for x in d.log[:d.pos]))
        hit = eng.heads.get(key)
        if hit is not None:
            data, names, ncell = hit
            H = Head()
            H.owned = getattr(L, "owned", set())
            H.fields = {k: set(v) for k, v in data[7].items()}
            fr = lambda k: (id(eng.allframes[k[0]]), k[1])
            H.carried = {fr(k): t for k, t in data[0].items()}
            H.temps = {fr(k) for k in data[1]}
            H.refvars = {fr(k) for k in data[2]}
            H.cells, H.shared, H.events = dict(data[3]), list(data[4]), set(data[5])
            L.live = set(data[6])
            NAMES.n, eng.ncell = names, ncell
            return H
    H = discover(L, K)
    for k in list(H.temps):
        if k[1] in inv.names:
            fr = frame_of(eng, k[0]); v = fr.vars.get(k[1])
            if v is None or isinstance(v, Poison): continue
            H.temps.discard(k)
            if isinstance(v, Ref): H.refvars.add(k)
            H.carried[k] = typeof(eng.peek(v))
    H = rediscover(L, K, H)        # types after promoting
    if key is not None:
        ix = {id(f): i for i, f in enumerate(eng.allframes)}
        fr = lambda k: (ix[k[0]], k[1])
        eng.heads[key] = (({fr(k): t for k, t in H.carried.items()}, {fr(k) for k in H.temps}, {fr(k) for k in H.refvars}, dict(H.cells), list(H.shared), set(H.events), set(L.live), {k: set(v) for k, v in H.fields.items()}), NAMES.n, eng.ncell)
    return H


def rediscover(L, K, H0):
    """types to a fixpoint with the given locations carried"""
    eng = L.eng
    saved_w, saved_o = eng.writes, eng.oplog
    base = eng.snapshot()
    H = H0
    nob = len(eng.obls)
    for rnd in range(8):
        eng.restore(base)
        eng.quiet += 1
        eng.discovering = getattr(eng, "discovering", 0) + 1
        try: outs = outs_of(L, H, K, L.n)
        finally:
            eng.quiet -= 1
            eng.discovering -= 1
        eng.restore(base)
        changed = False
        for pc, r, stt in outs:
            if r[0] not in ("val", "cont"): continue
            frames_vars = {id(f): v for f, v, _ in stt[7]}
            for key in list(H.carried):
                nv = frames_vars[key[0]].get(key[1])
                if isinstance(nv, Poison): continue
                t = join(H.carried[key], typeof(_peek_in(eng, stt, nv)))
                if isinstance(nv, Ref): H.refvars.add(key)
                if t != H.carried[key]: H.carried[key] = t; changed = True
            for c in list(H.cells):
                t = join(H.cells[c], typeof(stt[0][c]))
                if t != H.cells[c]: H.cells[c] = t; changed = True
                a, b = base[0].get(c), stt[0][c]
                if c in H.fields:
                    if not (isinstance(a, RecV) and isinstance(b, RecV) and a.cls is b.cls and set(a.f) == set(b.f)): raise Unsupported("fields of an object change")
                    ch = {x for x in a.f if a.f[x] is not b.f[x]}
                    if not ch <= H.fields[c]: H.fields[c] |= ch; changed = True
        if not changed: break
    eng.restore(base)
    del eng.obls[nob:]
    eng.writes, eng.oplog = saved_w, saved_o
    return H

"""refactor.py TRANSFORM DEST: a copy of /repo with a behaviour-preserving edit at every place it applies (for trying the
checks against edits on which they have to stay quiet).  Not used by any check.
refactor.py --all [TRANSFORM...]: for each, the copy, its tests and every unit; prints what does not stay proved."""
import ast, os, shutil, subprocess, sys, copy

REPO = "/repo"


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def scoped(f):
    """nested functions, lambdas, comprehensions, global/nonlocal"""
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for x in ast.walk(f) if x is not f)


def blocks(f):
    for x in ast.walk(f):
        for a in ("body", "orelse", "finalbody"):
            b = getattr(x, a, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield x, a, b


def pure(e):
    """an expression with no calls (may still raise)"""
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(e))


class T:
    def __init__(self): self.n = 0
    def fresh(self, p="v"): self.n += 1; return "_%s%d" % (p, self.n)
    def function(self, f, mod): pass


class Rename(T):
    def function(self, f, mod):
        if scoped(f): return
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        loc = names(f, ast.Store) - params
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc: x.id += "_"
            if isinstance(x, ast.ExceptHandler) and x.name in loc: x.name += "_"


class ReturnTemp(T):
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    v = self.fresh("res")
                    b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]


class InvertIf(T):
    def function(self, f, mod):
        for x in ast.walk(f):
            if isinstance(x, ast.If) and x.orelse:
                x.test, x.body, x.orelse = (x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else ast.UnaryOp(ast.Not(), x.test)), x.orelse, x.body
            elif isinstance(x, ast.IfExp):
                x.test, x.body, x.orelse = ast.UnaryOp(ast.Not(), x.test), x.orelse, x.body


class IterTemp(T):
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                    v = self.fresh("it")
                    b[i:i] = [ast.Assign([ast.Name(v, ast.Store())], s.iter)]
                    s.iter = ast.Name(v, ast.Load())


class While(T):
    """for i in range(a[, b]) -> while"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                        and s.iter.func.id == "range" and len(s.iter.args) <= 2 and not s.orelse): continue
                if any(isinstance(x, ast.Continue) for x in ast.walk(s)) or s.target.id in {n for y in s.body for n in names(y, ast.Store)}: continue
                end, v = self.fresh("end"), self.fresh("i")
                lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                hi = s.iter.args[-1]
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), ast.Assign([ast.Name(end, ast.Store())], hi),
                              ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(end, ast.Load())]),
                                        [ast.Assign([ast.Name(s.target.id, ast.Store())], ast.Name(v, ast.Load()))] + s.body +
                                        [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class CompLoop(T):
    """x = [e for t in it if c] -> a loop of appends (targets renamed so that nothing leaks)"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                e = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                if not isinstance(e, ast.ListComp) or any(g.is_async for g in e.generators): continue
                if any(isinstance(x, (ast.Lambda,)) for x in ast.walk(e)): continue
                v, ren = self.fresh("out"), {}
                for g in e.generators:
                    for n in names(g.target): ren[n] = self.fresh(n)
                inner = any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and x is not e and names(x, ast.Store) & set(ren) for x in ast.walk(e))
                if inner: continue
                first = copy.deepcopy(e.generators[0].iter)
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id in ren: x.id = ren[x.id]
                e.generators[0].iter = first
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [e.elt], []))]
                for g in reversed(e.generators):
                    for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load()))] + body + [s]
                s.value = ast.Name(v, ast.Load())


class LoopComp(T):
    """x = []; for t in it: x.append(e) -> x = [e for t in it] (targets not used later)"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 2, -1, -1):
                s, l = b[i], b[i + 1]
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts): continue
                if not (isinstance(l, ast.For) and not l.orelse and len(l.body) == 1 and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call)): continue
                c, x = l.body[0].value, s.targets[0].id
                if not (isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == x): continue
                if x in names(l.iter) or x in names(c.args[0]): continue
                t = names(l.target)
                if sum(1 for y in ast.walk(f) if isinstance(y, ast.Name) and y.id in t) != sum(1 for y in ast.walk(l) if isinstance(y, ast.Name) and y.id in t): continue
                b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(c.args[0], [ast.comprehension(l.target, l.iter, [], 0)]))]


SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class SwapCompare(T):
    def function(self, f, mod):
        for x in ast.walk(f):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in SW and pure(x):
                x.left, x.comparators, x.ops = x.comparators[0], [x.left], [SW[type(x.ops[0])]()]


class SplitAnd(T):
    def function(self, f, mod):
        for x in ast.walk(f):
            if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
                t, rest = x.test.values[0], x.test.values[1:]
                x.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])]
                x.test = t


def leaves(b): return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class EarlyElse(T):
    """if c: return … ; rest -> if c: return … else: rest"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 2, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and not s.orelse and leaves(s.body):
                    s.orelse = b[i + 1:]; del b[i + 1:]


class ElseEarly(T):
    """if c: return … else: rest -> if c: return …; rest"""
    def function(self, f, mod):
        for _, a, b in reversed(list(blocks(f))):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                    r = s.orelse; s.orelse = []
                    b[i + 1:i + 1] = r


class Helper(T):
    """x = expr / return expr, expr over local names only -> a function of the module"""
    def __init__(self): super().__init__(); self.new = []
    def function(self, f, mod):
        if scoped(f): return
        loc = names(f, ast.Store) | {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        for s in ast.walk(f):
            if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None: continue
            if not isinstance(s.value, (ast.BinOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.ListComp, ast.Call)): continue
            if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s.value)): continue
            if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(s.value)): continue
            comp = set()
            for x in ast.walk(s.value):
                if isinstance(x, ast.comprehension): comp |= names(x.target)
            if comp & (loc - {n for x in ast.walk(f) if isinstance(x, ast.comprehension) for n in names(x.target)}): continue
            stores = {n for x in ast.walk(f) if isinstance(x, ast.comprehension) for n in names(x.target)}
            ps = sorted(n for n in names(s.value, ast.Load) if n in loc and n not in comp)
            h = "_helper%d" % (len(self.new) + 1)
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(s.value)], [], lineno=1))
            s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])
    def module(self, tree): tree.body += self.new; self.new = []


class ArgTemp(T):
    """f(a + b) as a statement / assigned: the first compound argument gets a name"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                e = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
                if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)) or not pure(e.func): continue
                for j, x in enumerate(e.args):
                    if isinstance(x, ast.Starred): break
                    if isinstance(x, (ast.BinOp, ast.Subscript, ast.ListComp, ast.Tuple, ast.Call)) and all(isinstance(y, (ast.Name, ast.Constant)) for y in e.args[:j]):
                        v = self.fresh("arg")
                        b[i:i] = [ast.Assign([ast.Name(v, ast.Store())], x)]
                        e.args[j] = ast.Name(v, ast.Load()); break


class Enumerate(T):
    """for x in seq (a name) -> for _, x in enumerate(seq)"""
    def function(self, f, mod):
        for x in ast.walk(f):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Name):
                x.target = ast.Tuple([ast.Name(self.fresh("k"), ast.Store()), x.target], ast.Store())
                x.iter = ast.Call(ast.Name("enumerate", ast.Load()), [x.iter], [])


class CondTemp(T):
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not (a == "orelse" and len(b) == 1):
                    v = self.fresh("cond")
                    b[i:i] = [ast.Assign([ast.Name(v, ast.Store())], s.test)]
                    s.test = ast.Name(v, ast.Load())


class DeMorgan(T):
    def function(self, f, mod):
        class V(ast.NodeTransformer):
            def visit_If(v, n): v.generic_visit(n); n.test = flip(n.test); return n
        def flip(t):
            if isinstance(t, ast.BoolOp): return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), x) for x in t.values]))
            return t
        V().visit(f)


class SwapAssign(T):
    """two adjacent assignments of call-free expressions to different names change places"""
    def function(self, f, mod):
        for _, a, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                ok = all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t))
                if ok and s.targets[0].id not in names(t) and t.targets[0].id not in names(s): b[i], b[i + 1] = t, s; i += 2
                else: i += 1


class Keywords(T):
    """range(n) -> range(0, n); x += e on integers by constants -> x = x + e"""
    def function(self, f, mod):
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "range" and len(x.args) == 1: x.args = [ast.Constant(0)] + x.args
        for _, a, b in list(blocks(f)):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))


ALL = {c.__name__: c for c in (Rename, ReturnTemp, InvertIf, IterTemp, While, CompLoop, LoopComp, SwapCompare, SplitAnd, EarlyElse, ElseEarly, Helper, ArgTemp,
                               Enumerate, CondTemp, DeMorgan, SwapAssign, Keywords)}


def make(name, dest, only=None):
    subprocess.run(["/bin/rm", "-rf", dest])
    shutil.copytree(REPO, dest, ignore=shutil.ignore_patterns(".git"))
    n = 0
    for d, _, fs in os.walk(dest + "/netomaton"):
        for fn in fs:
            if not fn.endswith(".py") or "/vis" in d: continue
            p = os.path.join(d, fn); src = open(p).read(); tree = ast.parse(src); t = ALL[name]()
            before = ast.unparse(tree)
            nested = {id(y) for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) for y in ast.walk(x) if y is not x}
            for x in ast.walk(tree):
                if name == "Helper" and id(x) in nested: continue
                if isinstance(x, ast.FunctionDef) and (only is None or x.name in only): t.function(x, tree)
            if hasattr(t, "module"): t.module(tree)
            out = ast.unparse(ast.fix_missing_locations(tree))
            if out != before: open(p, "w").write(out + "\n"); n += 1
    return n


def main():
    if sys.argv[1] != "--all": print(make(sys.argv[1], sys.argv[2], set(sys.argv[3:]) or None), "files"); return
    for name in sys.argv[2:] or list(ALL):
        d = "/tmp/rf/" + name
        n = make(name, d)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "-W", "ignore", "--tb=line", "tests"], cwd=d, env=env, capture_output=True, text=True)
        print("==", name, n, "files;", r.stdout.strip().splitlines()[-1])
        r = subprocess.run(["python3-vt", "-m", "dv", "all", ""], cwd="/verif", env=dict(os.environ, DV_REPO=d, V="1"), capture_output=True, text=True)
        for l in r.stdout.splitlines():
            if (" ok " not in l and l.strip()) : print(l[:220])
        sys.stdout.flush()
        subprocess.run(["/bin/rm", "-rf", d])


main()

"""Run-time side of the contracts: executes the real code of /repo on concrete inputs against independent oracles.
Usage: harness.py PROP TIER SEED BUDGET OUT.json   |   harness.py replay FILE
Every case is (kind, params) with JSON params, so that it can be replayed."""
import ast, copy, hashlib, importlib, json, os, random, signal, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np


class Timeout(BaseException): pass


def _alarm(*a): raise Timeout()


def harvest():
    """integer and string constants of the current source (special values a change may depend on)"""
    ints, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "netomaton")):
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("langtons_loop.py",): continue
            try: t = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError: continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, int) and not isinstance(n.value, bool): ints.add(abs(n.value))
                    elif isinstance(n.value, float) and abs(n.value) < 1e6: ints.add(int(abs(n.value)))
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 20: strs.add(n.value)
    R.words = sorted(s for s in strs if s.isidentifier() and s not in ("self", "in", "out", "incoming", "outgoing", "node_label", "i", "j", "indices", "key", "activity"))
    R.chars = sorted({c for s in strs for c in s if c.isprintable()})
    return sorted(i for i in ints if i <= 4000)


class R(random.Random):
    """the generator's random source, with a taste for special sizes"""
    consts, words, chars = [], [], []
    def word(self, *plain): return self.choice(self.words) if self.words and self.random() < 0.3 else self.choice(plain)
    def size(self, lo, hi, big=None):
        x = self.random()
        if big is not None and x < 0.12:
            c = [v + d for v in self.consts for d in (-1, 0, 1) if lo <= v + d <= big]
            if c: return self.choice(c)
        if big is not None and x < 0.2: return self.randint(lo, big)
        return self.randint(lo, hi)
    def num(self, lo, hi):
        if self.random() < 0.25:
            c = [v + d for v in self.consts for d in (-1, 0, 1) if lo <= v + d <= hi]
            if c: return self.choice(c)
        return self.randint(lo, hi)


def expect(cond, msg, *a):
    if not cond: raise Bad(msg % a if a else msg)


class Bad(AssertionError): pass


def canon(v):
    """plain Python value for comparison (numpy scalars and arrays converted)"""
    if isinstance(v, np.generic): return v.item()
    if isinstance(v, np.ndarray): return canon(v.tolist())
    if isinstance(v, dict): return {canon(k): canon(x) for k, x in v.items()}
    if isinstance(v, list): return [canon(x) for x in v]
    if isinstance(v, tuple): return tuple(canon(x) for x in v)
    return v


def raises(fn, *a, **k):
    try: fn(*a, **k)
    except Exception as e: return e
    return None


def run_case(mod, kind, params, limit=60):
    """None, or a description of what went wrong"""
    p = copy.deepcopy(params)
    seed = int(hashlib.md5(json.dumps([kind, params], sort_keys=True).encode()).hexdigest()[:8], 16)
    random.seed(seed); np.random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        r = mod.KINDS[kind](**p)
        return r
    except Bad as e: return str(e)
    except Timeout: return "no result within %d s" % limit
    except MemoryError: return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        return "raised %s: %s (%s)" % (type(e).__name__, str(e)[:300], " < ".join(reversed(loc)))
    finally: signal.alarm(0)


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module(d["module"])
        r = run_case(mod, d["kind"], d["params"])
        print("VIOLATED: %s" % r if r else "holds on this input")
        sys.exit(1 if r else 0)
    prop, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    known = json.loads(os.environ.get("RT_KNOWN", "[]"))
    import netomaton
    mod = importlib.import_module("p" + prop.lower())
    t0 = time.time()
    R.consts = harvest()
    rng = R(seed * 1000003 + int(prop[1:]))
    n, distinct, viol, samples, seen, kinds = 0, set(), [], [], {}, {}
    knownkeys = {(k["kind"], json.dumps(k["params"], sort_keys=True)) for k in known}
    knownhit = []
    for k in known:
        r = run_case(mod, k["kind"], k["params"])
        if r: knownhit.append(dict(k, message=r))
    def one(kind, params):
        nonlocal n
        key = kind + "|" + hashlib.md5(json.dumps(params, sort_keys=True).encode()).hexdigest()
        if key in distinct: return
        if (kind, json.dumps(params, sort_keys=True)) in knownkeys: return
        r = run_case(mod, kind, params)
        n += 1
        distinct.add(key)
        kinds[kind] = kinds.get(kind, 0) + 1
        if len(samples) < 12 and kinds[kind] <= 3: samples.append({"kind": kind, "params": json.loads(json.dumps(params))})
        if r and len(viol) < 5: viol.append(dict(kind=kind, params=params, message=r, module="p" + prop.lower()))
    lim = lambda: time.time() - t0 > budget
    stop = False
    for kind, params in mod.systematic(tier):
        one(kind, params)
        if viol or lim(): break
    cap = getattr(mod, "CAP", {}).get(tier, 10 ** 9)
    while not viol and not lim() and n < cap and hasattr(mod, "rand"):
        kind, params = mod.rand(rng)
        one(kind, params)
    json.dump(dict(cases=n, distinct=len(distinct), violations=viol, samples=samples, kinds=kinds, wall=time.time() - t0, known=knownhit,
                   rule=getattr(mod, "RULE", mod.__doc__)), open(out, "w"))


if __name__ == "__main__": 
    sys.modules["harness"] = sys.modules["__main__"]
    main()

#!/usr/bin/env python3-vt
"""check.py ID TIER: decides one property on /repo's current tree.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken."""
import importlib, json, os, pkgutil, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("DV_REPO", "/repo")
RTPY = "/opt/venv/bin/python"

TIERS = {"quick": dict(rt=14.0, again=75.0, prove=330.0), "thorough": dict(rt=240.0, again=240.0, prove=1500.0)}
# the verifier's own trusted base, common to every proof
TRUSTED = [
    "dv: symbolic execution of the Python subset (dv/interp.py, dv/loops.py, dv/builtins.py), which reads the functions from /repo's source on every run",
    "z3 5.3 and cvc5 (an obligation counts as discharged when one of them refutes its negation)",
    "integers are Python's unbounded integers; floats are treated as mathematical reals",
    "the interpreter's and library's semantics as written in dv/builtins.py (list, dict, set, str, range, sorted, Counter, NumPy subset)",
]


def known_findings(prop):
    """[(kind, params, text)] from known_findings.txt"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p): return out
    for line in open(p):
        m = re.match(r"finding: property=(\S+) kind=(\S+) params=(\{.*\}) :: (.*)", line.strip())
        if m and m.group(1) == prop: out.append(dict(kind=m.group(2), params=json.loads(m.group(3)), text=m.group(4)))
    return out


class Rt:
    """one run of the run-time harness in its own process"""
    def __init__(self, prop, tier, seed, budget, known, scratch):
        self.out = os.path.join(scratch, "rt_%d_%d.json" % (seed, int(budget)))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=scratch,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", DV_REPO=REPO, PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
                   RT_KNOWN=json.dumps([{"kind": k["kind"], "params": k["params"]} for k in known]))
        self.log = open(os.path.join(scratch, "rt_%d.log" % seed), "w+")
        def lim():
            import resource
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        self.p = subprocess.Popen([RTPY, "-W", "ignore", os.path.join(HERE, "rt", "harness.py"), prop, tier, str(seed), str(budget), self.out], cwd=scratch, env=env,
                                  stdout=self.log, stderr=subprocess.STDOUT, preexec_fn=lim)
        self.end = time.time() + budget + 90
    def result(self):
        try: self.p.wait(max(1, self.end - time.time()))
        except subprocess.TimeoutExpired:
            try: os.killpg(self.p.pid, 9)
            except ProcessLookupError: pass
            self.p.wait()
        try: return json.load(open(self.out))
        except Exception:
            self.log.seek(0)
            return dict(error=self.log.read()[-1500:] or "no result", cases=0, distinct=0, violations=[], samples=[], kinds={}, wall=0, known=[], rule="")


def prove(prop, tier, limit):
    from dv import session
    import contracts
    for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name): importlib.import_module("contracts." + m.name)
    us = [u for u in session.UNITS if prop in u["prop"] and (tier == "thorough" or not u["thorough"])]
    if not us: return [], []
    us.sort(key=lambda u: -u["timeout"])
    rs = session.run_units(us, jobs=7, total=limit)
    bad = [r for r in rs if any(o["status"] != "proved" for o in r["obls"]) or (r["status"] == "unsupported" and "limit" in (r["error"] or ""))]
    if bad:
        # once more, alone and with more time, so that a busy machine is not taken for a failed proof
        names = {r["unit"] for r in bad}
        again = [dict(u, scale=2.5, timeout=u["timeout"] * 1.5) for u in us if u["name"] in names]
        r2 = {r["unit"]: r for r in session.run_units(again, jobs=2, total=limit * 0.6)}
        def score(r): return (r["status"] != "ok", sum(o["status"] != "proved" for o in r["obls"]))
        rs = [min(r, r2[r["unit"]], key=score) if r["unit"] in r2 else r for r in rs]
    return us, rs


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    T = TIERS[tier]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="dvcheck_")
    evdir = os.environ.get("DV_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, "replays")):
        if f.startswith(prop + "_"): os.unlink(os.path.join(evdir, "replays", f))
    code = 0
    try:
        known = known_findings(prop)
        rt = Rt(prop, tier, seed, T["rt"], known, scratch)
        perr = None
        try: us, rs = prove(prop, tier, T["prove"])
        except Exception:
            us, rs, perr = [], [], traceback.format_exc()[-1500:]
        res = rt.result()
        obls = [(r, o) for r in rs if r["status"] == "ok" for o in r["obls"]]
        failed = [(r, o) for r, o in obls if o["status"] != "proved"]
        unsupported = [r for r in rs if r["status"] != "ok"]
        extra = None
        if failed and not res["violations"]:
            # look for a failing input for the obligation that failed
            extra = Rt(prop, "thorough", seed + 7777, T["again"], known, scratch).result()
        viols = list(res["violations"]) + (list(extra["violations"]) if extra else [])
        lines = []
        if viols:
            v = viols[0]
            path = os.path.join(evdir, "replays", "%s_input.json" % prop)
            json.dump(dict(v, property=prop, how="%s -W ignore %s/rt/harness.py replay %s" % (RTPY, HERE, path),
                           failed_obligations=[dict(unit=r["unit"], obligation=o["name"], where=o["where"]) for r, o in failed[:10]]), open(path, "w"), indent=1, default=str)
            lines.append("%s: %s" % (v["kind"], v["message"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        elif failed:
            path = os.path.join(evdir, "replays", "%s_obligation.json" % prop)
            json.dump(dict(property=prop, failed_obligations=[dict(unit=r["unit"], **o) for r, o in failed[:10]]), open(path, "w"), indent=1, default=str)
            for r, o in failed[:5]: lines.append("obligation failed: %s: %s (%s) at %s" % (r["unit"], o["name"], o["status"], o["where"]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            code = 1
        for k in known:
            for h in res.get("known", []):
                if h["kind"] == k["kind"] and h["params"] == k["params"]: lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        backs, funcs, trusted = {}, set(), set()
        for r, o in obls:
            if o["status"] == "proved": backs[o["backend"]] = backs.get(o["backend"], 0) + 1
        for r in rs:
            if r["status"] == "ok":
                funcs |= set(r["inlined"]); trusted |= set(r["trusted"])
        proved = bool(obls)
        cov = dict(
            obligations=len(obls), discharged=len(obls) - len(failed), checker_cmd="python3-vt check.py %s %s" % (prop, tier),
            trusted_base=TRUSTED + sorted("trusted contract: " + t for t in trusted),
            functions_verified=sorted(funcs), contracts_used=sorted({c for r in rs for c in r["contracts"]}), loop_invariants_used=sorted({str(c) for r in rs for c in r["inv_used"]}),
            back_ends=backs, solver_s=round(sum(o["time"] for r, o in obls), 2), units=[dict(unit=r["unit"], about=r["about"], status=r["status"], obligations=len(r["obls"]), paths=r["paths"], error=r["error"],
                                                                                         wall_s=round(r.get("wall_s", 0), 2)) for r in rs],
            not_proved_bounded_instead=[dict(unit=r["unit"], reason=r["error"]) for r in unsupported] + ([dict(unit="all", reason=perr)] if perr else []),
            evaluations=res["cases"] + (extra["cases"] if extra else 0), distinct_nontrivial=res["distinct"] + (extra["distinct"] if extra else 0),
            rule="bounded stand-in and counterexample search (not counted as proved): " + " ".join((res["rule"] or "").split()) + "; a case is non-trivial when its input differs from all earlier ones",
            samples=res["samples"][:8], case_kinds=res["kinds"])
        if res.get("error"): cov["harness_error"] = res["error"]
        if not obls: cov["explanation"] = "no obligation could be generated from the current source; only the bounded stand-in decided"
        ass = ["user-supplied functions (rules, topology rules, perturbations, keys) are arbitrary but return normally and do not reach into the library's private state",
               "machine floats treated as reals; numeric overflow of NumPy integers not modelled"]
        ass += sorted("assumed contract: " + t for t in trusted)
        import dv.notes as notes
        ass += notes.ASSUMPTIONS.get(prop, [])
        ev = dict(property=prop, tier=tier, seed=seed, level="proof" if proved else "exploration", coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1, default=str)
        print("%s: %d/%d obligations discharged in %d units (%d functions), %d cases run in %.0f s" % (prop, len(obls) - len(failed), len(obls), len(rs) - len(unsupported), len(funcs), cov["evaluations"], time.time() - t0))
        for r in unsupported: print("  not proved on this tree (bounded stand-in only): %s: %s" % (r["unit"], r["error"]))
        if res.get("error"): print("  harness: " + res["error"])
        for l in lines: print(l)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__": main()

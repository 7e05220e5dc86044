"""writes MANIFEST.json from properties.jsonl, the contracts and dv/notes.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import pkgutil, importlib
from dv import session, notes
import contracts
for m in pkgutil.iter_modules(contracts.__path__): importlib.import_module("contracts." + m.name)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C32": "Plotting and animation end in Matplotlib's rendering of C code; no contract on /repo's functions can state what pixels or artists show, and the calls into the library are all there is to those functions.",
      "C33": "Convergence of continuous or stochastic dynamics within a number of steps is a numerical claim about floating-point trajectories (and for the Hopfield-Tank net not even true in general); it is no postcondition a deductive verifier over reals can discharge."}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    us = [u for u in session.UNITS if i in u["prop"]]
    note = notes.LEVEL.get(i) or ("%d proof units: " % len(us) + "; ".join(u["name"] for u in us) if us else "bounded only")
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique="contracts on the real functions, discharged by symbolic execution + SMT (z3/cvc5); failing obligations replayed by running the code" if us else
                       "bounded checking of run-time contracts on the real functions (stand-in; not proved)",
                       level="proof" if us else "exploration", level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks: /repo is read and run as it is. VERIF_SEED seeds the input generators.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), sum(c["level"] == "proof" for c in checks))

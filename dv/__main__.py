"""python -m dv PROP [unit-substring]: run the units of a property and print what happened (for development)"""
import importlib, os, sys, time
from . import session
import pkgutil, contracts


def load(prop=None):
    for m in pkgutil.iter_modules(contracts.__path__): importlib.import_module("contracts." + m.name)
    return [u for u in session.UNITS if prop is None or prop in u["prop"]]


if __name__ == "__main__":
    import dv.session as session
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    us = [u for u in load(sys.argv[1] if sys.argv[1] != "all" else None) if pat in u["name"]]
    t0 = time.time()
    rs = session.run_units(us) if not os.environ.get("DV_SERIAL") else [session.run_unit(u) for u in us]
    v = os.environ.get("V", "1")
    for r in rs:
        bad = [o for o in r["obls"] if o["status"] != "proved"]
        print("%-60s %-11s obls %3d/%3d paths %d gen %.1fs wall %.1fs %s" % (r["unit"], r["status"], len(r["obls"]) - len(bad), len(r["obls"]), r["paths"], r["gen_s"], r.get("wall_s", 0), r["error"] or ""))
        for o in bad[:6]:
            print("   ", o["status"], o["name"], o["where"], "%.1fs" % o["time"])
            if v > "1": print("      goal:", o.get("goal")); print("      pc:", *o.get("pc", []), sep="\n        "); print("      model:", o["model"])
        if v > "2":
            for o in r["obls"]: print("      %-8s %-14s %.2fs %s" % (o["status"], o["backend"], o["time"], o["name"]))
    print("%.1fs" % (time.time() - t0))

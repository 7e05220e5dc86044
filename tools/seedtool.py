#!/usr/bin/env python3
"""Development tool: builds and validates planted bugs.  seedtool.py SEEDS.py [ids...]   (SEEDS = list of dicts)
dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)   -> /verif/seeded/<id>/ when it counts.
seedtool.py --recheck [ids...]: run the checks against the kept ones."""
import json, os, re, shutil, subprocess, sys, tempfile, importlib.util, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/vp/mplconfig", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="seedwt_")
    sh("cp -a /repo/. %s/" % d, "/")
    return d


def tests_ok(d):
    x = os.path.join(d, "j.xml")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --timeout=300 -W ignore --tb=short -o junit_family=xunit2 --junitxml=%s tests" % x, d)
    bad, ok = set(), set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        name = "%s::%s" % (tc.get("classname"), tc.get("name"))
        (bad if any(c.tag in ("failure", "error", "skipped") for c in tc) else ok).add(name)
    os.unlink(x)
    return ok, bad


def check(prop, d, extra=""):
    ev = tempfile.mkdtemp(prefix="seedev_")
    env = dict(os.environ, DV_REPO=d, DV_EVIDENCE=ev, VERIF_SEED="1", VERIF_TIER="quick")
    rc, out = sh("python3-vt %s/check.py %s quick" % (V, prop), V, env=env)
    shutil.rmtree(ev, ignore_errors=True)
    return rc, out


def build(s):
    d = copy(); r = dict(id=s["id"])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, "netomaton", f); t = open(p).read()
            if t.count(old) != 1: r["err"] = "edit matches %d times: %s" % (t.count(old), old); return r
            open(p, "w").write(t.replace(old, new))
        _, patch = sh("git diff", d)
        ok, bad = tests_ok(d)
        r["tests"] = sorted(bad)
        missing = [b for b in STABLE if b not in ok]
        if missing: r["err"] = "stable tests fail: %s" % missing[:4]; return r
        sd = os.path.join(V, "seeded", s["id"]); os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(patch)
        open(sd + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport netomaton as ntm\n" + s["demo"].strip() + "\n")
        open(sd + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLCONFIGDIR=$(mktemp -d)\n/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"; rc=$?\nrmdir "$MPLCONFIGDIR" 2>/dev/null\nexit $rc\n')
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(sd + "/meta.json", "w"), indent=1)
        r1 = sh(["bash", sd + "/demo.sh"], "/repo", 300); r2 = sh(["bash", sd + "/demo.sh"], d, 300)
        if r1[0] != 0 or r2[0] == 0:
            r["err"] = "demo: clean %d patched %d\n%s\n%s" % (r1[0], r2[0], r1[1][-600:], r2[1][-600:]); shutil.rmtree(sd); return r
        r["check"], r["out"] = check(s["prop"], d)
        return r
    finally: shutil.rmtree(d, ignore_errors=True)


def recheck(i):
    sd = os.path.join(V, "seeded", i); d = copy(); r = dict(id=i)
    try:
        rc, out = sh("git apply %s/patch.diff" % sd, d)
        if rc: r["err"] = "does not apply: " + out; return r
        r["check"], r["out"] = check(json.load(open(sd + "/meta.json"))["property"], d)
        return r
    finally: shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded")); fn = recheck; items = ids
    else:
        sp = importlib.util.spec_from_file_location("seeds", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        items = [s for s in m.SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:]]; fn = build
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(fn, items):
            if "err" in r: print("%-28s REJECT %s" % (r["id"], r["err"]))
            else:
                ls = [l for l in r["out"].splitlines() if l.strip()]
                v = [l for l in ls if "VIOLATION" in l]
                print("%-28s %s %s" % (r["id"], {0: "MISSED", 1: "caught" + (" (no input)" if v and "no-failing" in v[0] else "")}.get(r["check"], "ERROR"), (" | ".join(l[:160] for l in ls[-3:-1]))))
            sys.stdout.flush()

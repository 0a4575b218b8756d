"""Create and try planted bugs (see DESIGN.md, "Planted bugs").

plant.py SPEC.py          build seeded/<id>/ from the specs and try them all
plant.py --try ID...      try existing seeded/<id> again (patch, tests, demo, check)
plant.py --checks ID...   only run the property's quick check on the patched copy

A spec file defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old,
new), ...], demo=python source)].  Everything happens in scratch copies under
/tmp/plant, removed afterwards; /repo itself is never touched.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
TMP = "/tmp/plant"
DEMO = """#!/bin/bash
# exit 0: property holds in the tree in the current directory; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1
tmp="$(mktemp -d)"; trap 'rm -rf -- "$tmp"' EXIT
export MPLCONFIGDIR="$tmp/mpl" DEMO_TMP="$tmp"
mkdir -p "$MPLCONFIGDIR"
%s "$here/demo.py"
""" % PY


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode(errors="replace") + "TIMEOUT"


def copy(bid):
    d = os.path.join(TMP, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in ("allantools", "tests", "pytest.ini", "pyproject.toml", "examples"):
        s = os.path.join(REPO, n)
        t = os.path.join(d, n)
        if os.path.isdir(s):
            shutil.copytree(s, t, ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(s):
            shutil.copy(s, t)
    sh(["git", "init", "-q", "."], cwd=d)
    sh(["git", "add", "-A"], cwd=d)
    sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=d)
    return d


def build(spec):
    bid = spec["id"]
    d = copy(bid)
    for fn, old, new in spec["edits"]:
        p = os.path.join(d, "allantools", fn)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit in %s matches %d times: %r" % (fn, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "diff"], cwd=d)
    out = os.path.join(SEED, bid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
    json.dump({"property": spec["prop"], "needs": spec["needs"],
               "what_it_breaks": spec["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(d)


def tests(d):
    env = dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplcache", OPENBLAS_NUM_THREADS="1")
    xml = os.path.join(d, "junit.xml")
    rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:xdist", "-p", "no:cacheprovider",
                "--randomly-seed=0", "--randomly-dont-reorganize",
                "--junitxml=" + xml, "tests"], cwd=d, env=env)
    return o.strip().splitlines()[-1]


def attempt(bid, what):
    d = copy(bid)
    res = {"id": bid}
    meta = json.load(open(os.path.join(SEED, bid, "meta.json")))
    prop = meta["property"]
    demo = os.path.join(TMP, bid + "_demo")
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(os.path.join(SEED, bid), demo,
                    ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    if "demo" in what:
        rc, o = sh(["bash", demo + "/demo.sh"], cwd=d, timeout=300)
        res["clean"] = rc if rc == 0 else (rc, o[-400:])
    rc, o = sh(["git", "apply", os.path.join(SEED, bid, "patch.diff")], cwd=d)
    if rc:
        res["apply"] = o
        return res
    if "demo" in what:
        rc, o = sh(["bash", demo + "/demo.sh"], cwd=d, timeout=300)
        res["patched"] = (rc, o[-300:].strip())
    if "check" in what:
        t = time.time()
        rc, o = sh([os.path.join(V, "vs"), "check", prop, "quick"], cwd=V,
                   env=dict(VSIM_REPO=d, VERIF_SEED="1", VERIF_TIER="quick",
                            VSIM_OUT=os.path.join(d, "out")))
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        res["check"] = (rc, len(v), (o[-300:] if rc not in (0, 1) else
                        [l for l in o.splitlines() if "VIOLATION" in l or "what" in l][:2]),
                        round(time.time() - t))
    if "tests" in what:
        res["tests"] = tests(d)
    shutil.rmtree(d)
    shutil.rmtree(demo)
    return res


def record(r):
    """Keep the last verdicts in tools/planted.json (table in DESIGN.md)."""
    if "check" not in r:
        return
    p = os.path.join(V, "tools", "planted.json")
    try:
        data = json.load(open(p))
    except FileNotFoundError:
        data = {}
    rc, n, lines, secs = r["check"]
    at = [int(x) for x in re.findall(r"-seed1-(\d+)\.json", str(lines))]
    data[r["id"]] = {"caught": rc == 1, "first_scenario": min(at) if at else None, "seconds": secs}
    json.dump(data, open(p, "w"), indent=1, sort_keys=True)


def main():
    a = sys.argv[1:]
    what = {"demo", "check", "tests"}
    if a[0] == "--try":
        ids = a[1:] or sorted(os.listdir(SEED))
    elif a[0] == "--checks":
        ids = a[1:] or sorted(os.listdir(SEED))
        what = {"check"}
    elif a[0] == "--demos":
        ids = a[1:] or sorted(os.listdir(SEED))
        what = {"demo"}
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        ids = []
        for s in ns["BUGS"]:
            if len(a) > 1 and s["id"] not in a[1:]:
                continue
            e = build(s)
            if e:
                print(s["id"], "NOT BUILT", e)
            else:
                ids.append(s["id"])
    n = int(os.environ.get("PLANT_JOBS", "3"))
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda b: attempt(b, what), ids):
            bad = []
            if "clean" in r and r["clean"] != 0:
                bad.append("DEMO FAILS CLEAN")
            if "patched" in r and r["patched"][0] == 0:
                bad.append("DEMO PASSES PATCHED")
            if "check" in r and r["check"][0] != 1:
                bad.append("MISSED")
            if "tests" in r and not ("338 passed" in r["tests"] and "6 xpassed" in r["tests"] and not re.search(r"\b\d+ failed", r["tests"])):
                bad.append("TESTS: " + r["tests"])
            print(r["id"], " | ".join(bad) or "ok", flush=True)
            record(r)
            for k in ("clean", "patched", "check", "tests", "apply"):
                if k in r and (bad or k == "check"):
                    print("    ", k, r[k], flush=True)


main()

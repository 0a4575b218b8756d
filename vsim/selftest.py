"""Determinism of the simulator itself: the same seeds must give the same
event-log digests whatever the worker count, the hash seed, the process and the
load.  ./vs selftest [C01 ...]; exit 0 if every digest agrees."""
import json
import os
import subprocess
import sys
import tempfile

from . import runner

RUNS = [{"VSIM_WORKERS": "8", "PYTHONHASHSEED": "0"}, {"VSIM_WORKERS": "3", "PYTHONHASHSEED": "1"},
        {"VSIM_WORKERS": "8", "PYTHONHASHSEED": "77"}]
COUNT = int(os.environ.get("VSIM_SELFTEST", "240"))


def digests(prop_id, seed):
    prop = runner.load(prop_id)
    recs, fatal, late = runner.explore(prop_id, seed, "quick", min(COUNT, prop.COUNT["quick"]),
                                       int(os.environ["VSIM_WORKERS"]), runner.TIMEOUT, 900.0)
    if fatal:
        raise SystemExit(fatal[0])
    return {str(i): [r["digest"], r["status"], r["sched"]] for i, r in recs.items()}


def main(ids):
    if ids and ids[0] == "--dump":
        with open(ids[2], "w") as f:
            json.dump(digests(ids[1], int(os.environ.get("VERIF_SEED", "1"))), f)
        return 0
    bad = 0
    for pid in ids or runner.PROPS:
        got = []
        for extra in RUNS:
            with tempfile.TemporaryDirectory() as d:
                out = os.path.join(d, "digests.json")
                subprocess.run([sys.executable, "-W", "ignore", "-m", "vsim", "selftest", "--dump", pid, out],
                               cwd=runner.ROOT, env=dict(os.environ, **extra), check=True)
                with open(out) as f:
                    got.append(json.load(f))
        diff = sorted(int(i) for i in got[0] if any(g.get(i) != got[0][i] for g in got[1:]))
        bad += bool(diff) or any(len(g) != len(got[0]) for g in got)
        print("selftest %s: %d scenarios x %d runs: %s" %
              (pid, len(got[0]), len(RUNS), "identical" if not diff else "DIFFER at %s" % diff[:10]))
        sys.stdout.flush()
    return 1 if bad else 0

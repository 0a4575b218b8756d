"""Seed driver: explores scenarios on all cores, minimises and reports."""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import time
from collections import Counter

from . import core, forks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# evidence and replay files (a trial against a scratch tree writes elsewhere)
OUT = os.environ.get("VSIM_OUT", os.path.join(ROOT, "evidence"))
TIMEOUT = 240.0     # wall clock, generous: the limit that matters is the processor time (forks.cpu_limit)
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]


def load(prop_id):
    return importlib.import_module("vsim.props." + prop_id.lower())


def preload(prop):
    """Import everything a scenario may need before forking, so that a forked
    child differs from a fresh process only by what the scenario does."""
    from . import sched
    sched.install_lock_seam()
    sys.dont_write_bytecode = True
    import numpy  # noqa
    import scipy.stats, scipy.signal, scipy.integrate, scipy.interpolate  # noqa
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    # never trust byte code beside the sources: always compile the current tree
    old, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-vsim-pycache"
    import matplotlib
    matplotlib.use("Agg")
    try:
        import allantools
    finally:
        sys.pycache_prefix = old
    got = os.path.realpath(allantools.__file__)
    want = os.path.realpath(os.path.join(core.REPO, "allantools", "__init__.py"))
    if got != want:
        raise core.HarnessError("allantools imported from %s, not %s" % (got, want))
    if hasattr(prop, "preload"):
        prop.preload()
    import gc
    gc.collect()
    gc.freeze()


def scenario_for(prop, prop_id, seed, index, tier):
    rng = core.rng_for("vsim", prop_id, seed, index)
    return prop.generate(rng, index, tier)


def exec_forked(prop, scenario, timeout, keep_log=False):
    out = forks.fork_call(lambda: _quiet_run(prop, scenario, keep_log), timeout)
    if out[0] == "ok":
        return out[1]
    return {"status": "error", "slow": "timed out" in str(out[1:]), "msg": str(out[1:]), "digest": "", "events": 0, "faults": {},
            "probes": {}, "simtime": 0.0, "sched": "", "checks": 0, "nontrivial": False}


def _quiet_run(prop, scenario, keep_log):
    # the library prints diagnostics: send them to a sink, restored by the OS at exit
    sink = os.open(os.devnull, os.O_WRONLY)
    os.dup2(sink, 1)
    sys.stdout = os.fdopen(os.dup(1), "w")
    import warnings
    warnings.simplefilter("ignore")
    os.environ.pop("VSIM_DEBUG", None)
    return core.run_scenario(prop, scenario, keep_log)


def _worker(prop_id, seed, tier, wid, nw, count, timeout, deadline, conn):
    try:
        prop = load(prop_id)
        preload(prop)
        for i in range(wid, count, nw):
            if time.monotonic() > deadline:
                conn.send(("late", i))
                break
            try:
                sc = scenario_for(prop, prop_id, seed, i, tier)
            except Exception as e:
                import traceback
                conn.send(("rec", i, {"status": "error", "msg": "generate: " + traceback.format_exc()}))
                continue
            rec = exec_forked(prop, sc, timeout)
            conn.send(("rec", i, rec))
        conn.send(("end", wid))
    except BaseException:
        import traceback
        conn.send(("fatal", traceback.format_exc()))
    finally:
        conn.close()


def explore(prop_id, seed, tier, count, workers, timeout, wall_cap):
    """Run scenarios 0..count-1; returns {index: record}, fatal, late."""
    ctxm = multiprocessing.get_context("spawn")
    deadline = time.monotonic() + wall_cap
    procs, conns = [], []
    for w in range(workers):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=_worker, args=(prop_id, seed, tier, w, workers, count, timeout, deadline, b))
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    recs, fatal, late = {}, [], 0
    open_conns = list(conns)
    nviol = 0
    while open_conns:
        for c in multiprocessing.connection.wait(open_conns, timeout=5):
            try:
                m = c.recv()
            except EOFError:
                open_conns.remove(c)
                continue
            if m[0] == "rec":
                recs[m[1]] = m[2]
                if m[2]["status"] == "violation":
                    nviol += 1
            elif m[0] == "fatal":
                fatal.append(m[1])
            elif m[0] == "late":
                late += 1
        if nviol >= 24:      # enough evidence: stop early
            break
    for p in procs:
        if p.is_alive() and nviol >= 24:
            p.terminate()
        p.join()
    return recs, fatal, late


def confirm_slow(prop, prop_id, seed, tier, recs, timeout, budget_s=260.0):
    """A slow machine is no hang: what ran out of processor or wall time runs
    again, alone and with three times as much, and that result counts."""
    slow = [i for i, r in sorted(recs.items()) if r.get("slow") or r.get("cls") == "hang"]
    t0 = time.monotonic()
    confirmed = False
    for i in slow:
        if confirmed:
            continue            # one is enough; the others keep their record
        if time.monotonic() - t0 > budget_s:
            del recs[i]
            continue
        with forks.more_time(3):
            r = exec_forked(prop, scenario_for(prop, prop_id, seed, i, tier), 3 * timeout)
        if r.get("slow"):
            del recs[i]         # the harness itself is slow: no verdict on this one
        else:
            recs[i] = r
            confirmed = r.get("cls") == "hang"


# ------------------------------------------------------------- minimisation
def minimise(prop, scenario, cls, timeout, budget_runs=400, budget_s=90.0):
    """Greedy delta debugging on the scenario, same violation class."""
    t0 = time.monotonic()
    runs = [0]

    def fails(sc):
        if runs[0] >= budget_runs or time.monotonic() - t0 > budget_s:
            return None
        runs[0] += 1
        r = exec_forked(prop, sc, timeout)
        return r if r["status"] == "violation" and r["cls"] == cls else None

    best = scenario
    improved = True
    while improved and runs[0] < budget_runs and time.monotonic() - t0 <= budget_s:
        improved = False
        for cand in prop.shrink(best):
            if cand == best:
                continue
            if fails(cand):
                best = cand
                improved = True
                break
            if runs[0] >= budget_runs or time.monotonic() - t0 > budget_s:
                break
    return best, runs[0]


def list_shrinks(items, minlen=0):
    """ddmin-style sub-lists: drop big chunks first, then single items."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            cand = items[:i] + items[i + size:]
            if len(cand) >= minlen and len(cand) < n:
                yield cand
        size //= 2


def simpler(sc, *prefs):
    """Candidates with one field replaced by a preferred (simpler) value; each
    list is in order of preference, so the search cannot cycle."""
    for k, vals in prefs:
        for v in vals if k in sc else ():
            if sc[k] == v and type(sc[k]) is type(v):
                break
            yield dict(sc, **{k: v})


# ------------------------------------------------------------------- report
def known_findings(prop_id):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop_id]


def match_known(kf, rec):
    for k in kf:
        if k["cls"] == rec["cls"] and k["key"] == rec["key"]:
            return k
    return None


def check(prop_id, tier, seed):
    t0 = time.monotonic()
    prop = load(prop_id)
    count = int(os.environ.get("VSIM_COUNT", prop.COUNT[tier]))
    timeout = getattr(prop, "TIMEOUT", TIMEOUT)
    forks.cpu_limit(tier)
    cap = getattr(prop, "WALL", {"quick": 420.0, "thorough": 6 * 3600.0})[tier]
    workers = int(os.environ.get("VSIM_WORKERS", os.cpu_count() or 4))
    recs, fatal, late = explore(prop_id, seed, tier, count, workers, timeout, cap)
    wall_explore = time.monotonic() - t0
    preload(prop)
    confirm_slow(prop, prop_id, seed, tier, recs, timeout)
    errors = [(i, r) for i, r in sorted(recs.items()) if r["status"] == "error"]
    viols = [(i, r) for i, r in sorted(recs.items()) if r["status"] == "violation"]
    kf = known_findings(prop_id)
    if os.environ.get("VSIM_VERBOSE"):
        for i, r in errors[:40] + viols[:40]:
            print("  ", i, r.get("cls"), r["msg"][:200] if "cls" in r else r["msg"])
    print("vsim %s tier=%s VERIF_SEED=%d scenarios=%d workers=%d wall=%.1fs" %
          (prop_id, tier, seed, len(recs), workers, wall_explore))
    reported, seen, seen_known = 0, set(), {}
    groups = {}
    for i, r in viols:
        groups.setdefault((r["cls"], r["key"]), []).append((i, r))
    fresh = []
    for (cls, key), lst in groups.items():
        k = match_known(kf, lst[0][1])
        if k is not None:
            seen_known[(cls, key)] = k
        else:
            fresh.append((lst[0][0], lst[0][1], len(lst)))
    fresh.sort(key=lambda x: x[0])
    seen_cls = set()
    for i, r, n in fresh:
        if r["cls"] in seen_cls or len(seen_cls) >= 3:
            continue
        seen_cls.add(r["cls"])
        path, note = write_replay(prop, prop_id, seed, tier, i, r, timeout)
        print("VIOLATION property=%s replay=%s" % (prop_id, path))
        print("  seed=%d index=%d class=%s (seen in %d runs)" % (seed, i, r["cls"], n))
        print("  %s" % r["msg"][:1500])
        print("  %s" % note)
        reported += 1
    for k in kf:
        if any(k is v for v in seen_known.values()):
            print("KNOWN-FINDING: property=%s %s" % (prop_id, k["what"]))
    write_evidence(prop, prop_id, tier, seed, recs, count, wall_explore, time.monotonic() - t0,
                   reported, workers, errors, seen_known)
    sys.stdout.flush()
    if reported:
        return 1
    if fatal or errors:
        for f in fatal[:2]:
            print("HARNESS-ERROR " + f)
        for i, r in errors[:3]:
            print("HARNESS-ERROR scenario %d: %s" % (i, r["msg"]))
        return 2
    if len(recs) < count * 0.2:
        print("HARNESS-ERROR only %d of %d scenarios ran before the wall cap" % (len(recs), count))
        return 2
    return 0


def write_replay(prop, prop_id, seed, tier, index, rec, timeout):
    sc = scenario_for(prop, prop_id, seed, index, tier)
    small, runs = (sc, 0) if os.environ.get("VSIM_NOMIN") else minimise(
        prop, sc, rec["cls"], timeout, budget_s=60.0 if rec["cls"] == "hang" else 90.0)
    outdir = os.path.join(OUT, "replay")
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, "%s-seed%d-%d.json" % (prop_id, seed, index))

    def dump(s, r):
        with open(path, "w") as f:
            json.dump({"property": prop_id, "seed": seed, "tier": tier, "index": index,
                       "class": r["cls"], "message": r["msg"], "key": r["key"], "digest": r["digest"],
                       "scenario": s}, f, indent=1, sort_keys=True)
    r2 = exec_forked(prop, small, timeout)
    if r2["status"] != "violation":
        small, r2 = sc, rec
    dump(small, r2)
    ok = replay_subprocess(path)
    if not ok and small is not sc:
        dump(sc, rec)
        ok = replay_subprocess(path)
    note = "minimised in %d runs; replay: ./vs replay %s -> %s" % (
        runs, path, "reproduces exactly" if ok else "did NOT reproduce in a fresh process")
    return path, note


def replay_subprocess(path):
    p = subprocess.run([sys.executable, "-m", "vsim", "replay", path], cwd=ROOT,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode == 1 and b"digest matches" in p.stdout


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = load(d["property"])
    forks.cpu_limit(d["tier"])
    preload(prop)
    r = exec_forked(prop, d["scenario"], getattr(prop, "TIMEOUT", TIMEOUT), keep_log=True)
    if r["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("  class=%s\n  %s" % (r["cls"], r["msg"]))
        print("  digest %s" % ("matches" if r["digest"] == d["digest"] else
                              "differs: %s vs %s" % (r["digest"], d["digest"])))
        if os.environ.get("VSIM_LOG"):
            print("\n".join(r.get("log") or []))
        return 1
    print("no violation on replay (status %s) %s" % (r["status"], r.get("msg", "")))
    return 0 if r["status"] == "ok" else 2


def write_evidence(prop, prop_id, tier, seed, recs, count, wall_explore, wall, nviol, workers, errors, known):
    faults, probes, scheds, digests = Counter(), Counter(), set(), set()
    simtime = 0.0
    checks = nontriv = 0
    for r in recs.values():
        faults.update(r.get("faults", {}))
        probes.update(r.get("probes", {}))
        simtime += r.get("simtime", 0.0)
        checks += r.get("checks", 0)
        if r.get("sched"):
            scheds.add(r["sched"])
        if r.get("nontrivial") and r.get("digest") not in digests:
            digests.add(r["digest"])
            nontriv += 1
    samples = []
    for i in sorted(recs)[:400]:
        if recs[i].get("nontrivial"):
            s = json.dumps(scenario_for(prop, prop_id, seed, i, tier), sort_keys=True)
            if len(s) < 4000:
                samples.append({"index": i, "scenario": json.loads(s), "digest": recs[i]["digest"]})
            if len(samples) >= 2:
                break
    if not samples and recs:
        i = min(recs)
        samples.append({"index": i, "scenario": json.dumps(scenario_for(prop, prop_id, seed, i, tier))[:4000]})
    cov = {
        "evaluations": len(recs),
        "distinct_nontrivial": nontriv,
        "rule": prop.RULE + " Distinct = different event-log digest.",
        "samples": samples,
        "oracle_checks": checks,
        "planned_scenarios": count,
        "harness_errors": len(errors),
        "runs_per_hour": int(len(recs) / max(wall_explore, 1e-6) * 3600),
        "simulated_seconds": simtime,
        "faults_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_interleavings": len(scheds),
        "interleaving_measure": "hash of the sequence of (thread, function, line offset, next thread) switches and injected faults",
        "components": prop.COMPONENTS,
        "workers": workers,
        "known_findings_seen": len(known),
    }
    ev = {"property": prop_id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 3), "violations": nviol}
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop_id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

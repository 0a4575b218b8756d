#!/usr/bin/env python3
"""Regenerate MANIFEST.json (run by hand after adding a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded sample of streams, faults, polling instants and configurations; oracle is an extended-precision model of the definitions plus the real batch functions. Trusts numpy long double arithmetic and the counter/network model.",
 "C02": "Seeded sample of stream lengths and grids; active factors checked after every sample, values at every insertion (short streams) and at random instants. Trusts the same model as C01.",
 "C03": "Seeded thread schedules at line/bytecode grain, crash points and caller-side mutations; oracle is the same estimator alone in a pristine process, bit for bit. Assumes one writer per estimator.",
 "C04": "Seeded loss patterns; oracle counts surviving triples directly and recomputes degrees of freedom (SP1065 table 5) and chi-squared bounds. Trusts scipy.stats.chi2.",
 "C05": "Seeded edge losses for each of the 16 frequency-capable statistics, direct and through Dataset; oracle is the same statistic on the trimmed record.",
 "C06": "Seeded disk faults at every layer of one write, plus real kernel faults; oracle parses the file back against the result and checks dataset, handles and retry.",
 "C07": "Seeded schedules at bytecode grain over Dataset code with interrupts, allocation failures and failing computations; oracle is an atomic-publication model with per-computation expected results.",
 "C08": "Seeded schedules over real caller threads, cancellation and allocation failure at arbitrary source lines; oracle is the same call alone in a pristine process, argument bytes, memory sharing and process-wide state.",
 "C09": "Seeded subsets of failing window allocations over generated phase records; oracle is the definition computed window by window.",
 "C10": "Seeded histories of seeding, generation and statistics; oracle is replay of the seed epoch in a pristine process, bit for bit.",
 "C11": "The random stream is injected, so each source becomes an exact linear map whose covariance is compared with theory; seeded sizes, parameters and interleavings. Assumes sources draw standard normals through numpy.random.",
 "C12": "Seeded histories over several plots with storage faults; oracle is the plot's own figure rendered directly and values captured when drawn. Trusts matplotlib's deterministic Agg renderer.",
 "C13": "Seeded streams with refused, failing and retried readings and failing array growths; oracle is an estimator in a pristine process given only the accepted samples, bit for bit. Does not claim asynchronous interrupts inside one sample's arithmetic.",
 "C14": "Seeded loss patterns over seeded records; oracle is the same call on two records in which the lost samples carry different values. A number counts as independent of them when both agree to 1e-6.",
 "C15": "Seeded checkpoints, copies and crashes; oracle is the uninterrupted history in a pristine process, bit for bit. Trusts pickle and copy.",
 "C16": "Seeded schedules of one feeding and one or two polling threads at line/bytecode grain; oracle is the list of reports after every whole sample from a pristine process, bit for bit. Assumes one feeding thread.",
 "C17": "Seeded streams; oracle is the estimator itself early in the stream, work counted in bytecodes, elements and bytes rather than seconds. Work inside C code that neither takes a list nor allocates is not seen.",
 "C18": "Seeded histories of calls with seeded changes of the process surroundings before and inside calls; oracle is the same call in a pristine process with default surroundings, to 1e-12. Locale is not varied (only C locales are installed); a failing standard output is not claimed.",
}
checks = []
have = [p for p in sorted(NOTE) if os.path.exists(os.path.join(ROOT, "vsim", "props", p.lower() + ".py"))]
for p in have:
    checks.append({"property": p, "quick_cmd": "./vs check %s quick" % p, "thorough_cmd": "./vs check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "deterministic simulation with fault injection (seeded search, model/replay oracle)",
                   "level": "exploration", "level_note": NOTE[p]})
NA = {
 "N01": "A deviation is a pure function of one record: no schedule, clock, I/O, fault or history is involved, so simulation could only be input generation. (Its streaming, lossy and low-memory counterparts are C01, C04, C09.)",
 "N02": "Tau selection is a pure function of rate, record length and the requested list; nothing for a scheduler or fault injector to decide.",
 "N03": "Algebraic invariances of pure functions; no nondeterminism to simulate.",
 "N04": "Closed-form tables and quantiles of their arguments; no nondeterminism to simulate.",
 "N05": "A statistical property of a pure function over random inputs; deciding it needs sampling theory, not schedules or faults.",
 "N06": "Numerical integration of its arguments; the only process-wide effect (warning filters) is covered by C08.",
 "N07": "Piecewise closed-form functions of tau; no nondeterminism to simulate.",
 "N08": "Pure functions of the given records; a statistical statement without schedule or fault.",
 "N09": "Algebraic identities of pure functions; the fault-dependent part (lost edge samples) is C05.",
}
missing = [{"property": p, "reason": "check under construction"} for p in sorted(NOTE) if p not in have]
m = {"version": 1, "setup_cmd": "./vs setup", "checks": checks,
     "not_applicable": missing + [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks were added to /repo; every seam (scheduler, disk, random stream, allocation) is installed from /verif at run time. Fixes are listed in known_findings.json."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

"""python -m vsim check C01 | replay FILE | run C01 INDEX | selftest [ID...]"""
import json
import os
import sys


def main(argv):
    from . import runner
    cmd = argv[0] if argv else "help"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if cmd == "check":
        if len(argv) > 2:
            tier = argv[2]
        return runner.check(argv[1], tier, seed)
    if cmd == "replay":
        return runner.replay(argv[1])
    if cmd == "run":
        prop = runner.load(argv[1])
        runner.preload(prop)
        sc = runner.scenario_for(prop, argv[1], seed, int(argv[2]), tier)
        print(json.dumps(sc)[:3000])
        r = runner.exec_forked(prop, sc, 600, keep_log=bool(os.environ.get("VSIM_LOG")))
        for l in r.pop("log", None) or []:
            print(l)
        print(json.dumps(r, indent=1))
        return 0
    if cmd == "setup":
        prop = runner.load("C01")
        runner.preload(prop)
        print("vsim ready: simulating %s" % runner.core.REPO)
        return 0
    if cmd == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

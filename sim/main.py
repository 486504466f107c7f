import argparse
import json
import os
import sys


def get_prop(pid, seed, tier):
    import importlib
    m = importlib.import_module("sim.p_%s" % pid.lower())
    return m.PROP(seed, tier)


def main(argv=None):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "0")))
    c.add_argument("--runs", type=int, default=None)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--quiet", action="store_true")
    sub.add_parser("selfcheck")
    sub.add_parser("outcomes")
    sub.add_parser("sequence")
    d = sub.add_parser("trace")
    d.add_argument("prop")
    d.add_argument("--tier", default="quick")
    d.add_argument("--seed", type=int, default=1)
    d.add_argument("--from", dest="lo", type=int, default=0)
    d.add_argument("--to", dest="hi", type=int, default=20)
    a = ap.parse_args(argv)
    import warnings
    from . import boot
    boot.boot()
    warnings.simplefilter("ignore")
    import random
    import numpy as np
    random.seed(20240)          # nothing is left to the operating system's entropy
    np.random.seed(20240)
    import gc
    gc.collect()
    gc.freeze()
    from . import runner, sched
    sched.prepare()
    if a.cmd == "selfcheck":
        print("ok: %d tftb modules, %d code objects, from %s" % (len(boot.MODULES), len(sched.CODES), boot.REPO))
        return 0
    if a.cmd == "outcomes":
        from . import p_c05
        p_c05.outcomes_main()
        return 0
    if a.cmd == "sequence":
        from . import p_c06
        p_c06.sequence_main()
        return 0
    if a.cmd == "check":
        prop = get_prop(a.prop, a.seed, a.tier)
        w = a.workers or max(1, min(8, os.cpu_count() or 1))
        return runner.check(prop, w, a.runs)
    if a.cmd == "trace":
        # determinism audit: one line per run, a digest of everything observed
        from . import audit
        return audit.trace(get_prop(a.prop, a.seed, a.tier), a.lo, a.hi)
    if a.cmd == "replay":
        f = json.load(open(a.file))
        prop = get_prop(f["property"], f["seed"], f["tier"])
        ctx = runner.Ctx(prop)
        try:
            vs, _ = runner.run_one(prop, f["scenario"], ctx)
        except runner.proc.ChildTimeout:
            vs = [{"clause": "hang", "detail": "the run does not terminate"}]
        for v in vs:
            if v["clause"] == f["clause"]:
                if not a.quiet:
                    print("clause: %s\ndetail: %s" % (v["clause"], v["detail"]))
                print("VIOLATION property=%s replay=%s" % (f["property"], os.path.abspath(a.file)))
                return 1
        print("no violation")
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())

"""Record the baseline that sim/focus.py compares with: function digests, which operations reach which functions.
Run as: PYTHONPATH=/verif python tools/mkbaseline.py (through bin/env.sh)."""
import json, os, random, sys, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["SIM_NO_FOCUS"] = "1"
from sim import boot
boot.boot()
warnings.simplefilter("ignore")
from sim import catalog, focus, runner, sched, story, world
sched.prepare()


class P(object):
    pass


ctx = runner.Ctx(P())
cover, plots, ifl = {}, {}, set()
for name in catalog.ALL:
    s = set()
    for k in range(25):
        c = catalog.variant(name, k, 99)
        ent = {"s": k} if catalog.OPS[name].tags.get("rng") else None
        s |= set(sched.NAMES[x[0]] for x in ctx.refs.get(c, ent, True)["sites"])
    cover[name] = sorted(s)
for name in catalog.CLS:
    s = set()
    r = random.Random(name)
    for k in range(25):
        c = catalog.variant(name, k, 99)
        s |= set(sched.NAMES[x[0]] for x in story.plot_ref(ctx, c, 1, story.plot_kw(r, name, c), None)["sites"])
    plots[name] = sorted(s)
r = random.Random("ifl")
for k in range(10):
    ifl |= set(sched.NAMES[x[0]] for x in story.ifl_ref(ctx, story.gen_plotifl(r))["sites"])
b = {"python": sys.version.split()[0], "codes": focus.table(sched.CODES, sched.NAMES), "cover": cover, "plots": plots,
     "ifl": sorted(ifl), "numbers": focus.numbers()}
with open(V + "/sim/baseline.json", "w") as f:
    json.dump(b, f, indent=0, sort_keys=True)
    f.write("\n")
print({k: len(v) for k, v in cover.items()}, len(ifl))

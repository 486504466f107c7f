"""C06: seeding makes the random generators reproducible."""
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from . import catalog, data, entropy, focus, hist, story, world
from .props_base import Prop


def run_sequence(seed, calls):
    """Seed, then the calls; in this process."""
    if "np" in seed:
        np.random.seed(seed["np"])
    else:
        entropy.install(seed["ent"])
    outs = []
    for c in calls:
        try:
            outs.append(("ok", data.freeze(world.invoke(c["op"], world.Args(c)))))
        except Exception as e:
            outs.append(world.exc_outcome(e))
    return outs


def sequence_main():
    d = json.load(sys.stdin)
    world.reset_process()
    sys.stdout.buffer.write(pickle.dumps(run_sequence(d["seed"], d["calls"]), protocol=4))
    sys.stdout.flush()


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.touched = []

    def before(self, t, st):
        self.np0 = entropy.rng_digest()
        self.py0 = random.getstate()

    def after(self, t, st, oc, v):
        name = (st.get("c") or {}).get("op", st["do"])
        rng = name in catalog.OPS and catalog.OPS[name].tags.get("rng")
        how = oc[0] if oc[0] == "ok" else oc[1]
        if random.getstate() != self.py0:
            self.touched.append((name, st["id"], "Python's random state", how))
        if not rng and entropy.rng_digest() != self.np0:
            self.touched.append((name, st["id"], "numpy's random state", how))


class PROP(Prop):
    id = "C06"
    hang_is_violation = True
    quick = 6000
    thorough = 40000
    variants = 30
    rule = ("A run has a history of random and deterministic calls (some aborted by interrupts or allocation failures, "
            "clock jumps, garbage collection), then seeds or restores numpy's generator and makes 1-8 random calls with "
            "deterministic calls (some aborted) interleaved, possibly twice with the same seed. The random results are "
            "compared with the same seed and random calls alone in a pristine process (in a few runs: another process "
            "with another hash seed); numpy's and Python's random states are compared around every deterministic call. "
            "Non-trivial: at least one random result compared after at least one other call. Distinct: by scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        if i % 250 == 9:
            calls = [self.var(r, r.choice(focus.some(r, catalog.RNG))) for _ in range(20)]
            return {"threads": [], "proc": calls, "seedstep": {"np": r.randrange(10 ** 6)},
                    "env": {"PYTHONHASHSEED": str(r.randrange(1000)), "TZ": "Asia/Tokyo"}}
        if r.random() < (0.45 if not focus.OPS or focus.OPS & set(catalog.RNG) else 0.1):
            return self.burst(r)
        if r.random() < 0.1 + 0.3 * bool(focus.OPS):
            return self.sweep(r)
        steps, faults, bufs = hist.history(self, r, ctx, catalog.RNG if r.random() < 0.6 else catalog.ALL,
                                           r.choice([0, 2, 4, 8]), p_fault=0.35, p_buf=0.1)
        for st in steps:
            if r.random() < 0.7:
                st.pop("ent", None)
        sid = len(steps) * 3 + 10
        fam = hist.family(self, r, catalog.RNG, r.choice([1, 2, 3, 5]), 0.7)
        det = hist.family(self, r, catalog.DET, 3, 0.3)
        plan = [r.choice(fam) for _ in range(r.choice([1, 2, 3, 5, 8]))]
        seed = {"np": r.choice([0, 1, 42, r.randrange(2 ** 32)])} if r.random() < 0.7 else \
            {"ent": {"s": r.randrange(1000)}}
        for rep in range(r.choice([1, 1, 2])):
            steps.append(dict({"do": "seed", "id": sid}, **seed))
            sid += 1
            for c in plan:
                for _ in range(r.choice([0, 0, 1, 2])):
                    d = r.choice(det)
                    steps.append({"do": "call", "c": data.deep(d), "id": sid})
                    if r.random() < 0.2:
                        f = story.fault(r, ctx.refs.get(d, None, True))
                        if f:
                            faults.append([0, sid] + f)
                    sid += 1
                if r.random() < 0.1:
                    steps.append({"do": "clock", "dt": 1e6, "id": sid})
                    sid += 1
                steps.append({"do": "call", "c": data.deep(c), "seq": True, "id": sid})
                sid += 1
        return {"threads": [steps], "faults": faults, "bufs": bufs}

    def sweep(self, r):
        """Fresh deterministic calls with unusual arguments, then a seed and some random calls."""
        steps, faults = [], []
        for sid in range(r.choice([1, 2, 3, 5])):
            c = catalog.call(catalog.pick_op(r, catalog.DET), r)
            if r.random() < 0.4:
                catalog.spice(c, r)
            steps.append({"do": "call", "c": c, "id": sid})
            if r.random() < 0.15:
                faults.append([0, sid, r.choice(["kbd", "mem"]), r.randint(1, 400)])
        seed = {"np": r.randrange(2 ** 32)}
        at = r.randint(0, len(steps))
        steps.insert(at, dict({"do": "seed", "id": 50}, **seed))
        for j in range(r.choice([1, 2])):
            steps.append({"do": "call", "c": catalog.call(r.choice(catalog.RNG), r), "seq": True, "id": 60 + j})
        return {"threads": [steps], "faults": faults, "bufs": {}}

    def burst(self, r):
        """Many calls of one or two random generators with widely varying arguments, then a seed and some again."""
        names = [r.choice(focus.some(r, catalog.RNG)) for _ in range(r.choice([1, 1, 2]))]
        steps, faults = [], []
        pool = []
        while len(pool) < 6:
            c = catalog.call(r.choice(names), r)
            if r.random() < 0.4 and isinstance(c["args"][0], int):   # few symbols, or many
                n = c["args"][0] = min(c["args"][0], 300)
                if ".ana" in c["op"]:
                    c["kw"]["n_comp"] = r.choice([1, 1, 2, 3, max(1, n // 2), max(1, n - 1), n, n + 1, 2 * n])
            pool.append(c)
        for sid in range(r.choice([1, 2, 4, 7])):
            st = {"do": "call", "c": data.deep(r.choice(pool)), "id": sid}
            if r.random() < 0.15:
                faults.append([0, sid, r.choice(["kbd", "mem"]), r.randint(1, 120)])
            steps.append(st)
        sid = 20
        seed = {"np": r.choice([0, 1, 42, r.randrange(2 ** 32)])} if r.random() < 0.7 else {"ent": {"s": r.randrange(1000)}}
        plan = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        for rep in range(r.choice([1, 1, 2])):
            steps.append(dict({"do": "seed", "id": sid}, **seed))
            for j, c in enumerate(plan):
                steps.append({"do": "call", "c": data.deep(c), "seq": True, "id": sid + 1 + j})
            sid += 10
        return {"threads": [steps], "faults": faults, "bufs": {}}

    def execute(self, sc):
        if "proc" in sc:
            env = dict(os.environ)
            env.update(sc["env"])
            p = subprocess.run([sys.executable, "-m", "sim.main", "sequence"], env=env,
                               input=json.dumps({"seed": sc["seedstep"], "calls": sc["proc"]}).encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                raise RuntimeError("sequence process failed: " + p.stderr.decode()[-1500:])
            return {"outs": pickle.loads(p.stdout)}
        world.install_clock()
        s = S(sc)
        rec = s.go()
        rec["touched"] = s.touched
        return rec

    def same(self, ref, o):
        return data.same_outcome(ref, o)

    def judge(self, sc, rec, ctx):
        viol = []
        if "proc" in sc:
            ref = ctx.refs.custom("seq", run_sequence, sc["seedstep"], sc["proc"])
            for j, (a, b) in enumerate(zip(ref, rec["outs"])):
                if not self.same(a, b) and not viol:
                    viol.append({"clause": "process", "detail": "random call %d (%s) after %s %s in one process and %s in another" % (
                        j, sc["proc"][j]["op"], sc["seedstep"], data.brief(a), data.brief(b))})
            return viol, {"events": 0, "hash": data.canon(sc["seedstep"]), "nontrivial": True,
                          "other_process_calls": len(ref)}
        for name, sid, what, how in rec["touched"]:
            viol.append({"clause": "touched", "detail": "%s (step %d, %s) changed %s" % (name, sid, how, what)})
        ops = {}
        n = before = 0
        groups = []
        for t, st, c in hist.walk(sc):
            o = rec["out"].get((t, st["id"]))
            if st["do"] == "seed":
                groups.append((st, []))
            if c is None or o is None:
                continue
            ops[c["op"]] = ops.get(c["op"], 0) + 1
            if groups and catalog.OPS[c["op"]].tags.get("rng"):
                groups[-1][1].append((st, c, o))
            elif not catalog.OPS[c["op"]].tags.get("rng"):
                if not (o["fired"] and o["o"][0] == "exc") and not viol and not ctx.refs.matches(c, None, o["o"]):
                    viol.append({"clause": "reads", "detail": "%s %s at another random state than %s" % (
                        c["op"], data.brief(o["o"]), data.brief(ctx.refs.get(c)["o"]))})
            before += 1
        for st, calls in groups:
            if not calls:
                continue
            seed = {k: st[k] for k in ("np", "ent") if k in st}
            ref = ctx.refs.custom("seq", run_sequence, seed, [c for _, c, _ in calls])
            for j, ((s2, c, o), rf) in enumerate(zip(calls, ref)):
                n += 1
                if not self.same(rf, o["o"]) and not viol:
                    viol.append({"clause": "seeded", "detail": (
                        "after seeding with %s, random call %d (%s, step %d) %s; in a fresh process with the same seed "
                        "and random calls it %s" % (seed, j, c["op"], s2["id"], data.brief(o["o"]), data.brief(rf)))})
                    break
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": n >= 1 and before > 1, "random_results_compared": n,
                      "faults": story.count_faults(rec), "sites": story.fault_sites(rec)}

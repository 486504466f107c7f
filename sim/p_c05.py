"""C05: deterministic calls have no memory."""
import json
import os
import pickle
import subprocess
import sys

from . import catalog, data, hist, story, world
from .props_base import Prop

ENVS = [{"SIM_HASHSEED": "0", "PYTHONHASHSEED": "12345", "TZ": "Asia/Tokyo", "LC_ALL": "C"},
        {"PYTHONHASHSEED": "777", "TZ": "America/New_York", "LC_ALL": "C.UTF-8", "PYTHONOPTIMIZE": ""},
        {"PYTHONHASHSEED": "1", "COLUMNS": "200", "LANG": "C", "USER": "someone"},
        {"PYTHONHASHSEED": "99", "PYTHONMALLOC": "malloc", "TZ": "UTC"}]


def outcomes_main():
    """Entry of the other-process runs: calls on stdin, pickled outcomes on stdout."""
    calls = json.load(sys.stdin)
    world.reset_process()
    outs = []
    for c in calls:
        try:
            o = ("ok", data.freeze(world.invoke(c["op"], world.Args(c))))
        except Exception as e:
            o = world.exc_outcome(e)
        outs.append(o)
    sys.stdout.buffer.write(pickle.dumps(outs, protocol=4))
    sys.stdout.flush()


class PROP(Prop):
    id = "C05"
    hang_is_violation = True
    quick = 3200
    thorough = 30000
    variants = 24
    rule = ("A run is one caller's history of 4-60 (sometimes 200) steps over a family of deterministic calls with "
            "equal and near-identical arguments, with argument buffers refilled in place between calls, returned "
            "arrays and old inputs overwritten, objects dropped or kept, garbage collection, clock jumps and calls "
            "aborted by interrupts or allocation failures. Every completed call is compared with the same call in a "
            "pristine process. A few runs compare with another process (hash seed, locale, time zone, working "
            "directory). Non-trivial: at least three completed calls compared. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        if i % 160 == 7:
            calls = [self.var(r, catalog.pick_op(r, catalog.DET))
                     for _ in range(60)]
            return {"threads": [], "proc": calls, "env": r.choice(ENVS)}
        x = r.random()
        n = r.choice([4, 6, 8, 12, 16, 24]) if x < 0.9 else r.choice([40, 60])
        names = catalog.DET
        if x > 0.97:
            n = 200
        if x > 0.9:
            names = [k for k in catalog.DET if catalog.OPS[k].kind == "fn" and "reassigned" not in k]
        if r.random() < 0.12:
            names = catalog.ALL
        steps, faults, bufs = hist.history(self, r, ctx, names, n, p_fault=r.choice([0, 0.1, 0.3]))
        return {"threads": [steps], "faults": faults, "bufs": bufs, "clock": r.random() < 0.5}

    def execute(self, sc):
        if "proc" in sc:
            env = dict(os.environ)
            env.update(sc["env"])
            p = subprocess.run([sys.executable, "-m", "sim.main", "outcomes"], env=env, cwd=env.get("SCRATCH", "/tmp"),
                               input=json.dumps(sc["proc"]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                raise RuntimeError("outcomes process failed: " + p.stderr.decode()[-1500:])
            return {"outs": pickle.loads(p.stdout), "events": 0}
        if sc.get("clock"):
            world.install_clock()
        return story.Story(sc).go()

    def judge(self, sc, rec, ctx):
        viol = []
        if "proc" in sc:
            for c, o in zip(sc["proc"], rec["outs"]):
                if not ctx.refs.matches(c, None, o) and not viol:
                    viol.append({"clause": "process", "detail": "%s in a process with %s %s; here it %s" % (
                        c["op"], sc["env"], data.brief(o), data.brief(ctx.refs.get(c)["o"]))})
            return viol, {"events": 0, "hash": data.canon(sc["proc"])[:64], "nontrivial": True,
                          "other_process_calls": len(rec["outs"])}
        ops = {}
        n = 0
        for t, st, c in hist.walk(sc):
            o = rec["out"].get((t, st["id"]))
            if c is None or o is None:
                continue
            ops[c["op"]] = ops.get(c["op"], 0) + 1
            if o["fired"] and o["o"][0] == "exc":
                continue
            if catalog.OPS[c["op"]].tags.get("rng"):
                continue
            n += 1
            if not viol and not ctx.refs.matches(c, st.get("ent"), o["o"]):
                ref = ctx.refs.get(c, st.get("ent"))["o"]
                where = data.diff(ref[1], o["o"][1]) if ref[0] == o["o"][0] == "ok" else ""
                viol.append({"clause": "history", "detail": "%s at step %d %s; in a fresh process it %s %s" % (
                    c["op"], st["id"], data.brief(o["o"]), data.brief(ref), where)})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops, "nontrivial": n >= 3,
                      "calls_compared": n, "faults": story.count_faults(rec), "sites": story.fault_sites(rec),
                      "buffer_refills": sum(1 for th in sc["threads"] for st in th if st["do"] == "fill"),
                      "clock_jumps": sum(1 for th in sc["threads"] for st in th if st["do"] == "clock")}

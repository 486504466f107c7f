"""C13: the library keeps no hold on the caller's data."""
import gc
import weakref

import matplotlib.pyplot as plt
import numpy as np

from . import catalog, data, hist, sched, story, world
from .props_base import Prop


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.refs = []

    def note(self, label, x):
        if isinstance(x, np.ndarray):
            self.refs.append((label, weakref.ref(x)))
            b = x.base
            while isinstance(b, np.ndarray):
                self.refs.append((label + " (its buffer)", weakref.ref(b)))
                b = b.base

    def before(self, t, st):
        name = (st.get("c") or {}).get("op", st["do"])
        a = self.args.get(st["id"]) if st["do"] in ("call", "plot", "plotifl") else (
            self.oargs.get(st["o"]) if st["do"] == "new" else None)
        if a is not None:
            for label, x in a.objects():
                self.note("%s of %s (step %d)" % (label, name, st["id"]), x)

    def after(self, t, st, oc, v):
        name = (st.get("c") or {}).get("op", st["do"])
        for i, x in enumerate(data.arrays_in(v) if v is not None else ()):
            self.note("result %d of %s (step %d)" % (i, name, st["id"]), x)
        if st["do"] in ("new", "run") and self.objs.get(st["o"]) is not None:
            o = self.objs[st["o"]]
            if st["do"] == "new":
                self.refs.append(("the representation %s" % st["o"], weakref.ref(o)))
            for k, x in sorted(vars(o).items()):
                self.note("attribute %s of %s" % (k, st["o"]), x)

    def forget(self):
        self.vals.clear()
        self.args.clear()
        self.oargs.clear()
        self.objs.clear()
        self.prepared.clear()
        self.axes.clear()
        self.bufs.clear()
        if self.pool is not None:
            self.pool.clear()
        self.sched = None


class PROP(Prop):
    id = "C13"
    quick = 2600
    thorough = 40000
    variants = 24
    rule = ("A run makes 1-16 calls (random and deterministic, in one or 2-3 threads with planned switches, objects with run "
            "and plot, some aborted by interrupts or allocation failures or a failing display), then drops every argument, "
            "result and object (its threads live on, idle), closes all figures and collects garbage; weak references to every argument array, result "
            "array, their base buffers, the representation objects and their attribute arrays must be dead. Non-trivial: at "
            "least two arrays were tracked. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, switches)"

    def gen(self, r, i, ctx):
        nth = 1 if r.random() < 0.75 else r.choice([2, 3])
        if nth == 1:
            steps, faults, bufs = hist.history(self, r, ctx, catalog.ALL, r.choice([1, 2, 4, 8, 16]), p_fault=0.25,
                                               p_buf=0.2)
            sid = 1000
            if r.random() < 0.5:
                for j in range(r.choice([1, 1, 2])):
                    c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
                    o = "o%d" % j
                    steps.append({"do": "new", "o": o, "c": c, "id": sid})
                    sid += 1
                    for _ in range(r.choice([1, 2])):
                        steps.append({"do": "run", "o": o, "id": sid})
                        if r.random() < 0.25:
                            f = story.fault(r, story.new_ref(ctx, c)[1])
                            if f:
                                faults.append([0, sid] + f)
                        sid += 1
                    if r.random() < 0.4:
                        p = story.plot_kw(r, c["op"], c)
                        steps.append({"do": "plot", "o": o, "c": p, "id": sid})
                        if r.random() < 0.3:
                            faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 170)])
                        elif r.random() < 0.2:
                            steps[-1]["showfail"] = True
                        sid += 1
            if r.random() < story.ifl_share(0.07):
                steps.append({"do": "plotifl", "c": story.gen_plotifl(r), "id": sid})
            return {"threads": [steps], "faults": faults, "bufs": bufs}
        threads, faults, info, sid = [], [], {}, 0
        fam = hist.family(self, r, catalog.ALL, 4, 0.7)
        for t in range(nth):
            steps = []
            for _ in range(r.choice([1, 2, 3])):
                c = data.deep(r.choice(fam))
                st = {"do": "call", "c": c, "id": sid}
                ent = {"s": 5} if catalog.OPS[c["op"]].tags.get("rng") else None
                ref = ctx.refs.get(c, ent, True)
                info[(t, sid)] = (ref["k"], ref["sites"])
                if r.random() < 0.2:
                    f = story.fault(r, ref)
                    if f:
                        faults.append([t, sid] + f)
                steps.append(st)
                sid += 1
            threads.append(steps)
        sc = {"threads": threads, "faults": faults, "share": r.random() < 0.3}
        sc["switches"], sc["style"] = world.gen_switches(r, sc, info)
        return sc

    def execute(self, sc):
        s = S(sc)
        sched.PARK = True         # the caller's threads live on
        rec = s.go()
        s.forget()
        plt.close("all")
        for _ in range(3):
            gc.collect()
        rec["alive"] = [l for l, w in s.refs if w() is not None]
        rec["tracked"] = len(s.refs)
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        if rec["alive"]:
            viol.append({"clause": "kept", "detail": "still alive after the caller dropped everything: %s%s" % (
                "; ".join(rec["alive"][:4]), " and %d more" % (len(rec["alive"]) - 4) if len(rec["alive"]) > 4 else "")})
        ops = {}
        for th in sc["threads"]:
            for st in th:
                n = (st.get("c") or {}).get("op", st["do"])
                ops[n] = ops.get(n, 0) + 1
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": rec["tracked"] >= 2, "arrays_tracked": rec["tracked"],
                      "runs_with_threads": int(len(sc["threads"]) > 1), "faults": story.count_faults(rec),
                      "sites": story.fault_sites(rec)}

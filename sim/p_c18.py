"""C18: importing the library has no effect but the import, and can be interrupted, tried again and repeated."""
import importlib
import io
import os
import sys
import threading
import warnings

import matplotlib.pyplot as plt
import numpy as np

from . import boot, catalog, data, entropy, hist, sched, story, world
from .p_c01 import with_entropy
from .p_c09 import _short, configure, differences, snapshot
from .props_base import Prop

ATTRS = ("tfr", "ts", "freqs")


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.found = []
        self.ready = True
        self.gen = {}           # object -> the import it comes from

    def target(self, st, tid):
        if st["do"] == "import":
            def imp():
                for m in st["m"]:
                    importlib.import_module(m)
            return imp
        if st["do"] in ("call", "new") and not self.ready:
            return None
        return story.Story.target(self, st, tid)

    def harness(self, st):
        if st["do"] == "forget":
            boot.forget()
            if st.get("cfg") is not None:
                if st["cfg"].get("backend"):
                    plt.switch_backend(st["cfg"]["backend"])
                configure(st["cfg"])
                os.environ.update(st["cfg"].get("env") or {})
            else:
                world.reset_process()
            entropy.install({"s": st["s"]})
            self.ready = False
            return
        if st["do"] == "normal":
            warnings.simplefilter("ignore")
            return
        if st["do"] in ("call", "new"):
            return
        story.Story.harness(self, st)

    def before(self, t, st):
        if st["do"] == "import":
            self.snap = snapshot()
            self.n = threading.active_count()
            self.std = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            self.snap["standard streams"] = None
            self.mine = sys.stdout, sys.stderr
            self.shown = []
            self.hook = warnings.showwarning
            self.myhook = lambda m, c, f, l, *a: self.shown.append("%s: %s" % (c.__name__, str(m)[:80]))
            warnings.showwarning = self.myhook
            self.snap["warning hooks"] = snapshot()["warning hooks"]

    def after(self, t, st, oc, v):
        o = self.out[(t.tid, st["id"])]
        if st["do"] == "run" and oc[0] == "ok":
            o["attrs"] = story.attrs(self.objs[st["o"]])
        if st["do"] != "import":
            return
        now = snapshot()
        now["standard streams"] = None if (sys.stdout, sys.stderr) == self.mine else "replaced"
        said = self.mine[0].getvalue() + self.mine[1].getvalue()
        sys.stdout, sys.stderr = self.std
        warnings.showwarning = self.hook
        how = "completed" if oc[0] == "ok" else "raised " + oc[1]
        for k in differences(self.snap, now):
            self.found.append(("setting", st["id"], "the import (%s) changed %s: %s -> %s" % (
                how, k, _short(self.snap[k], now[k]), _short(now[k], self.snap[k]))))
        if said:
            self.found.append(("output", st["id"], "the import (%s) printed %r" % (how, said[:100])))
        if self.shown:
            self.found.append(("output", st["id"], "the import (%s) warned: %s" % (how, self.shown[0])))
        if threading.active_count() != self.n:
            self.found.append(("setting", st["id"], "the import (%s) left %d threads instead of %d" % (
                how, threading.active_count(), self.n)))
        if oc[0] == "ok":
            if set(st["m"]) == set(boot.MODNAMES) or all(m in sys.modules for m in boot.MODNAMES):
                for m in boot.MODNAMES:
                    boot.MODULES[m] = sys.modules[m]
                self.ready = True
        elif not o["fired"]:
            self.found.append(("refused", st["id"], "importing %s raised %s: %s" % (", ".join(st["m"])[:100], oc[1], oc[2])))


class PROP(Prop):
    id = "C18"
    quick = 2600
    thorough = 30000
    variants = 10
    rule = ("A run starts in a process without tftb (its modules dropped, the settings of before restored, "
            "or, in half of the runs, settings of the caller's own: floating-point error handling, warning filters including "
            "'error', print options, matplotlib settings and back end, collector, recursion limit, environment), and imports all "
            "modules in a seeded order in 1-3 import steps, some of which are interrupted or run out of memory at a planned "
            "instruction of the module code and are tried again, some of which repeat the import after the modules were dropped. "
            "The random generators and over 30 settings are compared around every import, output and warnings recorded; "
            "then operations are called, and objects of an earlier import run, and compared with a process that imported "
            "everything undisturbed. Non-trivial: an import completed. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def imports(self, r, ctx, sid, steps, faults, n):
        """One way to end up with everything imported."""
        names = list(boot.MODNAMES)
        r.shuffle(names)
        if r.random() < 0.3:
            names.remove("tftb")
            names.insert(0, "tftb")
        parts = []
        while names:
            k = r.choice([1, 1, 2, 4, len(names)])
            parts.append(names[:k])
            names = names[k:]
        for p in parts[:4] + ([sum(parts[4:], [])] if parts[4:] else []):
            tries = 0
            while r.random() < 0.4 and tries < 3:
                steps.append({"do": "import", "m": p, "id": sid})
                faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, n) if r.random() < 0.8 else r.randint(1, 60)])
                sid += 1
                tries += 1
            steps.append({"do": "import", "m": p, "id": sid})
            sid += 1
        # whatever came of it, everything can be imported now
        steps.append({"do": "import", "m": sorted(boot.MODNAMES), "id": sid})
        return sid + 1

    def gen(self, r, i, ctx):
        n = ctx.refs.custom("import", _length)
        steps, faults, sid = [], [], 1
        if r.random() < 0.5:
            cfg = {}
            lv = ["ignore", "warn", "raise"]
            cfg["err"] = {k: r.choice(lv) for k in ("divide", "over", "under", "invalid") if r.random() < 0.8}
            cfg["filters"] = [r.choice(["default", "always", "error", "error", "ignore", "once"])
                              for _ in range(r.choice([1, 2]))]
            for k, p in (("print", 0.4), ("buf", 0.3), ("fig", 0.3), ("gc", 0.3), ("rec", 0.4), ("dec", 0.3), ("ion", 0.4)):
                if r.random() < p:
                    cfg[k] = True
            if r.random() < 0.5:
                cfg["rc"] = r.choice([{"image.cmap": "viridis"}, {"figure.figsize": [4.0, 3.0]}, {"axes.grid": True},
                                      {"lines.linewidth": 3.0, "font.size": 7.0}])
            if r.random() < 0.4:
                cfg["backend"] = r.choice(["svg", "pdf", "svg"])
            if r.random() < 0.3:
                cfg["env"] = {"OMP_NUM_THREADS": "3", "MPLBACKEND": "svg"}
            for _ in range(r.choice([1, 1, 2])):
                steps.append({"do": "forget", "cfg": cfg, "s": r.randrange(40), "id": 800 + sid})
                sid = self.imports(r, ctx, sid, steps, faults, n)
            return {"threads": [steps], "faults": faults}
        objs = {}
        if r.random() < 0.5:
            # objects of the first import
            for j in range(r.choice([1, 2])):
                c = self.var(r, catalog.pick_op(r, catalog.CLS))
                objs["o%d" % j] = c
                steps.append({"do": "new", "o": "o%d" % j, "c": c, "id": sid})
                sid += 1
        calls = hist.family(self, r, catalog.ALL, 4, 0.5)
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(r.choice([0, 0, 1, 2])):
                steps.append(with_entropy(r, {"do": "call", "c": data.deep(r.choice(calls)), "id": sid}))
                sid += 1
            steps.append({"do": "forget", "s": r.randrange(40), "id": 800 + sid})
            sid = self.imports(r, ctx, sid, steps, faults, n)
        for _ in range(r.choice([1, 2, 4])):
            if objs and r.random() < 0.4:
                st = {"do": "run", "o": r.choice(sorted(objs)), "id": sid}
            elif r.random() < 0.3:
                c = self.var(r, catalog.pick_op(r, catalog.CLS))
                o = "n%d" % sid
                steps.append({"do": "new", "o": o, "c": c, "id": sid})
                sid += 1
                st = {"do": "run", "o": o, "id": sid}
            else:
                st = with_entropy(r, {"do": "call", "c": data.deep(r.choice(calls)) if r.random() < 0.7 else
                                      self.var(r, catalog.pick_op(r, catalog.ALL)), "id": sid})
            steps.append(st)
            sid += 1
        return {"threads": [steps], "faults": faults}

    def execute(self, sc):
        s = S(sc)
        rec = s.go()
        rec["found"] = s.found
        return rec

    def judge(self, sc, rec, ctx):
        viol, ops = [], {}
        calls = {st["o"]: st["c"] for st in sc["threads"][0] if st["do"] == "new"}
        for clause, sid, what in rec["found"]:
            viol.append({"clause": clause, "detail": "step %d: %s" % (sid, what)})
        done = ncalls = 0
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if o is None:
                continue
            name = st["c"]["op"] if "c" in st else st["do"]
            ops[name] = ops.get(name, 0) + 1
            if st["do"] == "import":
                done += o["o"][0] == "ok"
                continue
            ncalls += 1
            if viol:
                continue
            if st["do"] == "call":
                if not ctx.refs.matches(st["c"], st.get("ent"), o["o"]):
                    ref = ctx.refs.get(st["c"], st.get("ent"))["o"]
                    viol.append({"clause": "differs", "detail": "%s, step %d, after the imports: in an undisturbed process it %s, "
                                 "here it %s" % (name, st["id"], data.brief(ref), data.brief(o["o"]))})
            elif st["do"] == "run" and st["o"] in calls:
                ref = story.new_ref(ctx, calls[st["o"]])
                ok = data.same_outcome(o["o"], ref[1]["o"])
                if ok and o["o"][0] == "ok":
                    ok = all(data.same(ref["attrs"][k], o["attrs"][k]) for k in ATTRS)
                if not ok:
                    viol.append({"clause": "differs", "detail": "run() of %s, step %d, after the imports: in an undisturbed "
                                 "process it %s, here it %s" % (calls[st["o"]]["op"], st["id"], data.brief(
                                     ref[1]["o"]), data.brief(o["o"]))})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": done > 0, "imports_completed": done, "calls_after": ncalls,
                      "faults": story.count_faults(rec), "sites": story.fault_sites(rec)}


def _length():
    """Instructions of one undisturbed import of everything."""
    boot.forget()
    sched.instrument()
    s = sched.Sched()
    out = {}

    def body(t):
        oc, _ = world.guarded(t, 0, lambda: [importlib.import_module(m) for m in sorted(boot.MODNAMES)] and None)
        out["k"] = t.k
    s.run_single(body)
    return out["k"]

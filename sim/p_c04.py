"""C04: displaying is read-only and repeatable."""
import numpy as np
import matplotlib.pyplot as plt

from . import boot, catalog, data, figs, focus, sched, story
from .p_c02 import Watch
from .props_base import Prop

ATTRS = ("signal", "tfr", "ts", "timestamps", "freqs", "fwindow")


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.found = []
        self.watch = []
        self.pics = {}

    def before(self, t, st):
        if st["do"] not in ("plot", "plotifl"):
            return
        self.watch = []
        for name, o in sorted(self.objs.items()):
            for k in ATTRS:
                v = getattr(o, k, None)
                if isinstance(v, np.ndarray):
                    self.watch.append((Watch("attribute %s of %s" % (k, name), v), o, k))
        for sid, v in sorted(self.vals.items()):
            for j, a in enumerate(data.arrays_in(v)):
                self.watch.append((Watch("array %d returned by step %d" % (j, sid), a), None, None))
        for src in (self.oargs, self.args):
            for key in sorted(src, key=str):
                for label, a in src[key].objects():
                    self.watch.append((Watch("%s of %s" % (label, key), a), None, None))
        self.figs0 = figs.numbers()
        self.shows0 = len(boot.SHOW)

    def after(self, t, st, oc, v):
        if st["do"] not in ("plot", "plotifl"):
            return
        for w, o, k in self.watch:
            b = w.bad()
            if b is None and o is not None:
                cur = getattr(o, k, None)
                if not isinstance(cur, np.ndarray) or cur.shape != w.x.shape or cur.dtype != w.x.dtype or \
                        cur.tobytes() != w.x.tobytes():
                    b = "is now another array: %s instead of %s" % (
                        data._b(data.freeze(cur))[:120], data._b(data.freeze(w.x))[:120])
            if b:
                self.found.append((st["do"], st["id"], w.label, b, oc[0] if oc[0] == "ok" else oc[1]))
        self.watch = []
        new = [n for n in figs.numbers() if n not in self.figs0]
        shown = [self.axes.pop(st["ax"]).figure] if st.get("ax") in self.axes else []
        shown += [plt.figure(n) for n in new]
        pic = ("seq", [figs.figure(f) for f in shown])
        self.out[(t.tid, st["id"])]["pic"] = pic
        # the caller closes the figure, usually
        if not st.get("keepfig"):
            plt.close("all")


class PROP(Prop):
    id = "C04"
    quick = 2200
    thorough = 20000
    variants = 40
    rule = ("A run has 1-2 representation objects (run or not yet run), 3-8 steps of plot calls with seeded kinds, "
            "thresholds and options (repeats of earlier plot calls included), run(), and plotifl, with interrupts and "
            "allocation failures at planned instructions and failing displays. Around every plot the bytes of the "
            "object's signal, tfr, ts, freqs and window, of all returned arrays and all passed arrays are compared; the picture "
            "drawn is compared artist by artist with the same plot of a fresh object in a pristine process. "
            "Non-trivial: at least two plots, one of them completed. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def burst(self, r):
        """One object, one plot, many times (now and then another one in between)."""
        c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
        steps = [{"do": "new", "o": "o0", "c": c, "id": 0}, {"do": "run", "o": "o0", "id": 1}]
        p = story.plot_kw(r, c["op"], c)
        if r.random() < 0.5:
            p["kw"]["show_tf"] = False
            for k in ("freq_x", "freq_y", "contour_x", "contour_y", "levels"):
                p["kw"].pop(k, None)
        k = [x for x in focus.INTS if 2 <= x <= 24]
        n = r.choice([4, 5, 6, 9, 12]) if not k or r.random() < 0.5 else r.choice(k) + 2
        for sid in range(2, 2 + n):
            st = {"do": "plot", "o": "o0", "c": data.deep(p), "id": sid}
            x = r.random()
            if x < 0.1:
                story.plot_nudge(r, st["c"]["kw"], c["op"])
            elif x < 0.14:
                st = {"do": "run", "o": "o0", "id": sid}
            elif x < 0.2:
                st["keepfig"] = True
            steps.append(st)
        return {"threads": [steps], "faults": [], "share": False}

    def gen(self, r, i, ctx):
        if r.random() < 0.12:
            return self.burst(r)
        steps, faults = [], []
        calls, plots = {}, []
        sid = 0
        nobj = r.choice([1, 1, 1, 2])
        rep = r.choice([0.3, 0.5, 0.85])
        for j in range(nobj):
            c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
            calls["o%d" % j] = c
            steps.append({"do": "new", "o": "o%d" % j, "c": c, "id": sid})
            sid += 1
            if r.random() < 0.92:
                steps.append({"do": "run", "o": "o%d" % j, "id": sid})
                sid += 1
        k = [x for x in focus.INTS if 2 <= x <= 20]
        for _ in range(r.choice([2, 3, 4, 6, 6, 9]) if not k or r.random() < 0.7 else r.choice(k) + 2):
            x = r.random()
            o = "o%d" % r.randrange(nobj)
            if x < 0.1:
                st = {"do": "run", "o": o, "id": sid}
            elif x < 0.1 + story.ifl_share(0.1):
                st = {"do": "plotifl", "c": story.gen_plotifl(r), "id": sid}
                if r.random() < 0.3:
                    faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 150)])
                elif r.random() < 0.2:
                    st["showfail"] = True
            else:
                if plots and r.random() < rep:
                    st = data.deep(r.choice(plots))
                    st["id"] = sid
                    if r.random() < 0.45:
                        story.plot_nudge(r, st["c"]["kw"], calls[st["o"]]["op"])
                else:
                    p = story.plot_kw(r, calls[o]["op"], calls[o])
                    st = {"do": "plot", "o": o, "c": p, "id": sid}
                    if r.random() < 0.25:
                        st["ax"] = "3d" if p["kw"].get("kind") in ("surf", "wireframe") else "2d"
                    plots.append(data.deep(st))
                y = r.random()
                if y < 0.3:
                    ref = story.plot_ref(ctx, calls[st["o"]], 1, st["c"], st.get("ax"))
                    f = story.fault(r, ref)
                    if f:
                        faults.append([0, sid] + f)
                elif y < 0.38:
                    st["showfail"] = True
            if r.random() < 0.3:
                st["keepfig"] = True
            steps.append(st)
            sid += 1
        return {"threads": [steps], "faults": faults, "share": r.random() < 0.3}

    def execute(self, sc):
        s = S(sc)
        rec = s.go()
        rec["found"] = s.found
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        for do, sid, label, b, how in rec["found"]:
            viol.append({"clause": "altered", "detail": "%s (step %d, %s) changed %s: %s" % (do, sid, how, label, b)})
        calls, runs, ops = {}, {}, {}
        nplots = done = pics = 0
        bad = set()
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if st["do"] == "new":
                calls[st["o"]] = st["c"]
            if o is None:
                continue
            name = st["do"] if st["do"] != "plot" else "plot:" + calls[st["o"]]["op"].split(".")[-1]
            ops[name] = ops.get(name, 0) + 1
            if st["do"] == "run":
                if o["o"][0] == "ok":
                    runs[st["o"]] = runs.get(st["o"], 0) + 1
                else:
                    bad.add(st["o"])        # a run that failed: what it left behind is C03's business
            if st["do"] in ("plot", "plotifl"):
                nplots += 1
                done += o["o"][0] == "ok"
                if o["fired"] and o["o"][0] == "exc":
                    continue
                if st.get("showfail") and o["o"][0] == "exc":
                    continue
                if st["do"] == "plot":
                    if st["o"] in bad:
                        continue
                    ref = story.plot_ref(ctx, calls[st["o"]], runs.get(st["o"], 0), st["c"], st.get("ax"))
                    who = "plot(%s) of %s" % (data.canon(st["c"]["kw"])[:150], calls[st["o"]]["op"])
                else:
                    ref = story.ifl_ref(ctx, st["c"])
                    who = "plotifl"
                if o["o"][0] != ref["o"][0] or (o["o"][0] == "exc" and o["o"][1] != ref["o"][1]):
                    viol.append({"clause": "picture", "detail": "%s (step %d): it %s; on a fresh object it %s" % (
                        who, st["id"], data.brief(o["o"]), data.brief(ref["o"]))})
                    continue
                if o["o"][0] == "ok" and o["pic"] is not None:
                    rp = ("seq", list(ref["figs"].values()))
                    pics += 1
                    if not figs.same(o["pic"], rp):
                        viol.append({"clause": "picture", "detail": "%s (step %d) drew another picture than on a fresh object: %s" % (
                            who, st["id"], data.diff(rp, o["pic"])[:300])})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": nplots >= 2 and done >= 1, "plots": nplots, "pictures_compared": pics,
                      "faults": dict(story.count_faults(rec), display=sum(
                          1 for st in sc["threads"][0] if st.get("showfail"))),
                      "sites": story.fault_sites(rec)}

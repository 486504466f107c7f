"""C11: plots go where the caller asked and nowhere else."""
from matplotlib import _pylab_helpers
import matplotlib.pyplot as plt

from . import boot, catalog, data, figs, focus, seams, story
from .props_base import Prop

AFFINE = ("Scalogram", "BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution")


def registry():
    g = _pylab_helpers.Gcf
    return {n: g.figs[n].canvas.figure for n in sorted(g.figs)}


def marks(ax):
    return len(ax.lines) + len(ax.images) + len(ax.collections) + len(ax.patches)


class S(story.Story):
    keep = False

    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.found = []
        self.pos = {}
        self.used = set()
        seams.ON_SHOW = self.on_show

    def on_show(self):
        new = {n: f for n, f in registry().items() if n not in self.reg0}
        self.at_show.append({n: figs.figure(f) for n, f in new.items()})
        if self.closes:
            # the user looks at the picture and closes its window; in a blocking display show returns then
            for n in new:
                plt.close(n)
            self.closed += list(new.values())

    def opts(self, st):
        """(axes given, panels asked for, display asked for)"""
        if st["do"] == "plotifl":
            return None, False, True
        kw = st["c"]["kw"]
        name = type(self.objs[st["o"]]).__name__
        return st.get("ax"), kw.get("show_tf", name in AFFINE), kw.get("show", True)

    def before(self, t, st):
        self.at_show, self.closed = [], []
        self.reg0 = registry()
        self.closes = st.get("closes")
        if st["do"] not in ("plot", "plotifl"):
            self.shows0 = len(boot.SHOW)
            return
        ax, tf, show = self.opts(st)
        self.mine = self.axes[ax] if ax else None
        skip = self.mine.figure if ax else None
        self.others = [(n, f, figs.figure(f)) for n, f in self.reg0.items() if f is not skip]
        # the caller's figures that pyplot does not manage, and the other axes of the figure drawn on
        for name, a in sorted(self.axes.items()):
            if "O" in name and a.figure is not skip:
                self.others.append(("axes " + name, a.figure, figs.figure(a.figure)))
        self.sib = [(a, figs.axes(a)) for a in skip.get_axes() if a is not self.mine] if ax and not tf else []
        self.nax0 = len(skip.get_axes()) if ax else 0
        self.marks0 = marks(self.mine) if ax else 0
        self.shows0 = len(boot.SHOW)

    def bad(self, st, clause, what):
        self.found.append((clause, st["id"], what))

    def after(self, t, st, oc, v):
        reg = registry()
        shows = len(boot.SHOW) - self.shows0
        if st["do"] not in ("plot", "plotifl"):
            if list(reg) != list(self.reg0) or shows:
                self.bad(st, "nodraw", "a %s step opened or closed figures or called show" % st["do"])
            return
        ax, tf, show = self.opts(st)
        done = oc[0] == "ok"
        new = [n for n in reg if n not in self.reg0]
        how = "completed" if done else "raised " + oc[1]
        for n, f, d in self.others:
            if isinstance(n, int) and reg.get(n) is not f:
                self.bad(st, "others", "the call (%s) closed or replaced figure %s, opened earlier" % (how, n))
            elif not figs.same(d, figs.figure(f)):
                self.bad(st, "others", "the call (%s) changed figure %s, opened earlier: %s" % (
                    how, n, data.diff(d, figs.figure(f))[:200]))
        for a, d in self.sib:
            if not figs.same(d, figs.axes(a)):
                self.bad(st, "others", "the call (%s) changed another axes of the figure: %s" % (
                    how, data.diff(d, figs.axes(a))[:200]))
        if ax and not tf:
            f = self.mine.figure
            if new:
                self.bad(st, "opened", "the call (%s), given an axes object, opened %d figure(s)" % (how, len(new)))
            if done and len(f.get_axes()) != self.nax0:
                self.bad(st, "opened", "the call, given an axes object, added axes to its figure")
            if done and marks(self.mine) <= self.marks0:
                self.bad(st, "undrawn", "the call drew nothing on the axes it was given")
        elif not ax:
            if self.closed and new:
                self.bad(st, "opened", "the user closed the picture while it was displayed, and the call (%s) opened "
                         "another figure" % how)
            if len(new) + len(self.closed) > 1 or (done and not new and not self.closed):
                self.bad(st, "opened", "the call (%s) opened %d figures instead of one" % (how, len(new)))
        # display
        if not show and shows:
            self.bad(st, "show", "show was called %d time(s) though not requested (the call %s)" % (shows, how))
        elif shows > 1:
            self.bad(st, "show", "show was called %d times (the call %s)" % (shows, how))
        elif show and done and shows != 1:
            self.bad(st, "show", "show was requested but not called")
        elif shows and not done and not self.out[(t.tid, st["id"])]["fired"] and not st.get("showfail"):
            self.bad(st, "early", "show was called, then the call raised %s: the picture was not complete" % oc[1])
        if done and shows == 1 and not ax and not self.closed:
            fin = {n: figs.figure(reg[n]) for n in new}
            sh = self.at_show[-1] if self.at_show else None
            if sh is not None and (sorted(sh) != sorted(fin) or any(not figs.same(sh[n], fin[n]) for n in fin)):
                self.bad(st, "early", "show was called before the picture was complete")
        o = self.out[(t.tid, st["id"])]
        o["pic"] = None
        if done and not tf and ax in ("2d", "3d") and ax not in self.used:
            o["pic"] = ("seq", [figs.figure(self.mine.figure)])
        elif done and not ax:
            o["pic"] = ("seq", [figs.figure(f) for f in self.closed or [reg[n] for n in new]])
        if ax:
            self.used.add(ax)
        o["new"], o["shows"] = len(new), shows

    def harness(self, st):
        if st["do"] == "close":
            story.Story.harness(self, st)
            self.used = {k for k in self.used if k in self.axes}
            return
        story.Story.harness(self, st)


class PROP(Prop):
    id = "C11"
    quick = 2600
    thorough = 22000
    variants = 40
    rule = ("A run has 1-2 representation objects and 3-10 steps: plots without axes, on the caller's axes (fresh, "
            "already drawn on, reused, one of two in a figure, in a figure pyplot does not manage; flat and 3-D), with "
            "panels, with and without display, plotifl, run(), the caller opening, selecting and closing figures, plots "
            "aborted by interrupts and allocation failures at planned instructions, failing displays, and windows closed by "
            "the user while the display blocks. Around every "
            "plot the figure registry and every artist of every other figure are compared; show calls are counted and "
            "the picture at show compared with the final one and with the same plot in a pristine process. Non-trivial: "
            "at least two plots, one completed. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        steps, faults = [], []
        if r.random() < 0.15:
            # figures opened, some closed again: the numbers in use have gaps
            steps = [{"do": "fig", "id": 900 + j} for j in range(r.choice([2, 3, 4]))]
            steps += [{"do": "close", "i": r.randrange(4), "id": 910 + j} for j in range(r.choice([1, 1, 2]))]
        calls, plots = {}, []
        sid = 0
        nobj = r.choice([1, 1, 1, 2])
        for j in range(nobj):
            c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
            calls["o%d" % j] = c
            steps.append({"do": "new", "o": "o%d" % j, "c": c, "id": sid})
            sid += 1
            if r.random() < 0.92:
                steps.append({"do": "run", "o": "o%d" % j, "id": sid})
                sid += 1
        k = [x for x in focus.INTS if 2 <= x <= 20]
        for _ in range(r.choice([2, 3, 5, 8]) if not k or r.random() < 0.7 else r.choice(k) + 2):
            x = r.random()
            o = "o%d" % r.randrange(nobj)
            if x < 0.05:
                st = {"do": "run", "o": o, "id": sid}
            elif x < 0.12:
                st = {"do": "fig", "id": sid}
            elif x < 0.18:
                st = {"do": "sca", "i": r.randrange(4), "id": sid}
            elif x < 0.23:
                st = {"do": "close", "id": sid}
                if r.random() < 0.6:
                    st["i"] = r.randrange(4)
            elif x < 0.23 + story.ifl_share(0.15):
                st = {"do": "plotifl", "c": story.gen_plotifl(r), "id": sid}
                if r.random() < 0.3:
                    faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 150)])
                elif r.random() < 0.2:
                    st["showfail"] = True
                elif r.random() < 0.25:
                    st["closes"] = True
            else:
                if plots and r.random() < 0.35:
                    st = data.deep(r.choice(plots))
                    st["id"] = sid
                    if r.random() < 0.45:
                        story.plot_nudge(r, st["c"]["kw"], calls[st["o"]]["op"])
                else:
                    p = story.plot_kw(r, calls[o]["op"], calls[o])
                    st = {"do": "plot", "o": o, "c": p, "id": sid}
                    if r.random() < 0.45:
                        st["ax"] = ("3d" if (p["kw"].get("kind") in ("surf", "wireframe")) != (r.random() < 0.08) else "2d") + \
                            r.choice(["", "", "+", "M", "ME", "ME", "M+", "O", "OM"])
                    plots.append(data.deep(st))
                y = r.random()
                if y < 0.3:
                    ref = story.plot_ref(ctx, calls[st["o"]], 1, st["c"], st.get("ax"))
                    f = story.fault(r, ref)
                    if f:
                        faults.append([0, sid] + f)
                elif y < 0.38:
                    st["showfail"] = True
                elif y < 0.5:
                    st["closes"] = True
            steps.append(st)
            sid += 1
        return {"threads": [steps], "faults": faults}

    def execute(self, sc):
        s = S(sc)
        rec = s.go()
        rec["found"] = s.found
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        steps = {st["id"]: st for st in sc["threads"][0]}
        calls = {st["o"]: st["c"] for st in sc["threads"][0] if st["do"] == "new"}

        def who(st):
            if st["do"] == "plot":
                return "plot(%s%s) of %s" % (data.canon(st["c"]["kw"])[:150], ", ax=" + st["ax"] if st.get("ax") else "",
                                             calls[st["o"]]["op"])
            return st["do"]
        for clause, sid, what in rec["found"]:
            viol.append({"clause": clause, "detail": "%s (step %d): %s" % (who(steps[sid]), sid, what)})
        runs, ops, bad = {}, {}, set()
        nplots = done = pics = 0
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if o is None:
                continue
            name = st["do"] if st["do"] != "plot" else "plot:" + calls[st["o"]]["op"].split(".")[-1]
            ops[name] = ops.get(name, 0) + 1
            if st["do"] == "run":
                if o["o"][0] == "ok":
                    runs[st["o"]] = runs.get(st["o"], 0) + 1
                else:
                    bad.add(st["o"])
            if st["do"] not in ("plot", "plotifl"):
                continue
            nplots += 1
            done += o["o"][0] == "ok"
            if o["o"][0] != "ok" or o.get("pic") is None or viol or (st["do"] == "plot" and st["o"] in bad):
                continue
            ref = story.ifl_ref(ctx, st["c"]) if st["do"] == "plotifl" else \
                story.plot_ref(ctx, calls[st["o"]], runs.get(st["o"], 0), st["c"], st.get("ax"))
            if ref["o"][0] != "ok":
                continue
            pics += 1
            rp = ("seq", list(ref["figs"].values()))
            if not figs.same(o["pic"], rp):
                viol.append({"clause": "picture", "detail": "%s (step %d) drew another picture than in a fresh process: %s" % (
                    who(st), st["id"], data.diff(rp, o["pic"])[:300])})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": nplots >= 2 and done >= 1, "plots": nplots, "pictures_compared": pics,
                      "plots_on_given_axes": sum(1 for st in sc["threads"][0] if st.get("ax")),
                      "faults": dict(story.count_faults(rec), display=sum(
                          1 for st in sc["threads"][0] if st.get("showfail"))),
                      "sites": story.fault_sites(rec)}

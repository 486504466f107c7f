"""C15: a representation can be copied, saved and restored at any point of its life."""
import copy
import gc
import pickle

import matplotlib.pyplot as plt
import numpy as np

from . import boot, catalog, data, figs, focus, proc, sched, story, world
from .props_base import Prop

# what an object tells its user; other attributes may be rebuilt, moved or left out by a copy
PUBLIC = ("signal", "tfr", "ts", "freqs", "timestamps", "fwindow", "twindow", "n_fbins", "n_voices", "fmin", "fmax",
          "waveparams", "form", "kind")


def public(o):
    d = vars(o)
    return {k: data.freeze(d[k]) for k in PUBLIC if k in d and not callable(d[k])}


def registry():
    from matplotlib import _pylab_helpers
    g = _pylab_helpers.Gcf
    return {n: g.figs[n].canvas.figure for n in sorted(g.figs)}


def duplicate(o, how):
    if how == "deep":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o, int(how[1:])))


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.found = []
        self.multi = len(sc["threads"]) > 1
        self.copies = set()

    def target(self, st, tid):
        if st["do"] == "copy":
            o = self.objs.get(st["o"])
            if o is None:
                return None

            def dup():
                self.fresh = duplicate(o, st["how"])
            self.fresh = None
            return dup
        return story.Story.target(self, st, tid)

    def before(self, t, st):
        if self.multi:
            return
        self.reg0 = registry()
        # everything held by objects that the step has nothing to do with
        self.pub = {n: public(o) for n, o in sorted(self.objs.items())
                    if n != st.get("o") or st["do"] == "copy"}

    def after(self, t, st, oc, v):
        o = self.out[(t.tid, st["id"])]
        if st["do"] == "run" and oc[0] == "ok":
            o["attrs"] = story.attrs(self.objs[st["o"]])
        if not self.multi:
            self.compare(st, st["do"])
        if st["do"] == "plot" and oc[0] == "ok" and not self.multi:
            reg = registry()
            o["pic"] = ("seq", [figs.figure(reg[n]) for n in reg if n not in self.reg0])
            plt.close("all")
        if st["do"] == "copy":
            if oc[0] == "ok":
                self.objs[st["to"]] = self.fresh
                self.copies.add(st["to"])
                if not self.multi:
                    self.alike(st, self.pub[st["o"]], public(self.fresh), "copied")
                    self.apart(st)
            elif not o["fired"]:
                self.found.append(("refused", st["id"], "%s of it raised %s: %s" % (
                    "copy.deepcopy" if st["how"] == "deep" else "pickling (protocol %s)" % st["how"][1:], oc[1], oc[2])))
            self.fresh = None

    def alike(self, st, a, b, what):
        for k in a:
            if k not in b or not data.same(a[k], b[k]):
                self.found.append(("content", st["id"], "%s, it has another %s: %s instead of %s" % (
                    what, k, data._b(b[k])[:150] if k in b else "none", data._b(a[k])[:150])))
                return

    def apart(self, st):
        """The copy shares no memory with the original."""
        x, y = self.objs[st["o"]], self.objs[st["to"]]
        for k, u in sorted(vars(x).items()):
            for w in data.arrays_in(u) if k in PUBLIC else ():
                for k2, u2 in sorted(vars(y).items()):
                    for w2 in data.arrays_in(u2) if k2 in PUBLIC else ():
                        if w.flags.writeable and w2.flags.writeable and np.may_share_memory(w, w2):
                            self.found.append(("shared", st["id"], "%s of the copy is the memory of %s" % (k2, k)))
                            return

    def compare(self, st, what):
        for n, p in self.pub.items():
            o = self.objs.get(n)
            if o is None:
                continue
            q = public(o)
            for k in p:
                if k not in q or not data.same(p[k], q[k]):
                    self.found.append(("other", st["id"], "the %s changed %s of %s, another object" % (what, k, n)))
                    return

    def harness(self, st):
        if st["do"] == "wipeargs":
            # the caller reuses what the original was built from; the original itself is gone
            a = self.oargs.pop(st["o"], None)
            self.objs.pop(st["o"], None)
            if a is not None and not (self.pool and len(self.oargs)):
                self.before(None, st)
                for _, x in a.objects():
                    if isinstance(x, np.ndarray):
                        data.scribble(x, st["s"])
                self.compare(st, "overwriting of the original's arguments")
            return
        if st["do"] == "ruin":
            # a copy is overwritten and thrown away
            o = self.objs.get(st["o"])
            if o is not None and st["o"] in self.copies:
                self.before(None, st)
                for k, u in sorted(vars(o).items()):
                    for x in data.arrays_in(u) if k in PUBLIC else ():
                        if x.flags.writeable:
                            data.scribble(x, st["s"])
                self.compare(st, "overwriting of a copy")
                del self.objs[st["o"]]
                o = None
                gc.collect()
            return
        if st["do"] == "drop":
            self.objs.pop(st["o"], None)
            self.oargs.pop(st["o"], None)
            gc.collect()
            return
        story.Story.harness(self, st)


def phase(sc, steps, saved, boundary):
    """One life of the process: restore what was saved, live, save again."""
    s = S(dict(sc, threads=steps))
    sid = boundary["id"] if boundary else -1
    if boundary:
        for c in boundary["warm"]:
            # the new process has its own objects by now
            try:
                a = world.Args(c)
                w = catalog.resolve(c["op"])(*a.args, **a.kw)
                if boundary["keep"]:
                    s.vals[len(s.vals)] = (w, w.run())
            except Exception:
                pass
        for n, blob, pub in saved:
            try:
                o = s.objs[n] = pickle.loads(blob)
            except Exception as e:
                s.found.append(("refused", sid, "restoring %s in a new process raised %s: %s" % (
                    n, type(e).__name__, str(e)[:160])))
                continue
            s.copies.add(n)
            s.alike({"id": sid}, pub, public(o), "restored in a new process")
    rec = s.go()
    rec["found"] = s.found
    rec["left"] = []
    nxt = steps[0][-1] if steps[0] and steps[0][-1]["do"] == "restart" else None
    if nxt:
        for n, o in sorted(s.objs.items()):
            try:
                rec["left"].append((n, pickle.dumps(o, nxt["proto"]), public(o)))
            except Exception as e:
                s.found.append(("refused", nxt["id"], "pickling (protocol %d) of %s raised %s: %s" % (
                    nxt["proto"], n, type(e).__name__, str(e)[:160])))
    return rec


class PROP(Prop):
    id = "C15"
    hang_is_violation = True
    quick = 2200
    thorough = 30000
    variants = 24
    rule = ("A run builds 1-2 representation objects and drives them and their copies through 4-14 steps: run, plot, "
            "deepcopy and pickling in all protocols at any point (fresh, run, plotted, after a run or plot aborted by an "
            "interrupt or an allocation failure, after a copy itself was aborted), crash of the process and restoring of "
            "the saved objects in a pristine one that may have other objects already, the caller overwriting a copy or "
            "the arguments of a dropped original; a sixth of the runs copy an object while another thread is inside its "
            "run(). Copies must succeed, have the original's public attributes and no memory in common, run and plot "
            "as a fresh object in a pristine process, and no step may change an object it does not name. Non-trivial: a "
            "copied or restored object completed a run or a plot. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, switches)"

    def gen(self, r, i, ctx):
        if r.random() < 0.16:
            return self.gen_threads(r, ctx)
        nobj = r.choice([1, 1, 1, 2])
        steps, faults, calls = [], [], {}
        sid = 0
        base = self.var(r, catalog.pick_op(r, catalog.CLS, True))
        names = []
        for j in range(nobj):
            x = r.random()
            c = data.deep(base) if j == 0 or x < 0.3 else (catalog.neighbor(
                base, story.gen_rng("nb", self.seed, r.randrange(6), data.canon(base))) if x < 0.7
                else self.var(r, catalog.pick_op(r, catalog.CLS, True)))
            calls["o%d" % j] = c
            names.append("o%d" % j)
            steps.append({"do": "new", "o": "o%d" % j, "c": c, "id": sid})
            sid += 1
        lives = 1
        for _ in range(r.choice([4, 6, 8, 12])):
            x = r.random()
            o = r.choice(names[-3:] if r.random() < 0.6 else names)
            if x < 0.3:
                st = {"do": "run", "o": o, "id": sid}
                if r.random() < 0.25:
                    f = story.fault(r, story.new_ref(ctx, calls[o])[1])
                    if f:
                        faults.append([0, sid] + f)
            elif x < 0.5:
                st = {"do": "copy", "o": o, "to": "c%d" % sid, "how": r.choice(["deep", "p2", "p4", "p5", "p0", "p1", "p3"]),
                      "id": sid}
                calls[st["to"]] = calls[o]
                names.append(st["to"])
                if r.random() < 0.15:
                    faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 25)])
            elif x < 0.68:
                p = story.plot_kw(r, calls[o]["op"], calls[o])
                st = {"do": "plot", "o": o, "c": p, "id": sid}
                y = r.random()
                if y < 0.15:
                    faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 170)])
                elif y < 0.22:
                    p["kw"]["show"] = True
                    st["showfail"] = True
            elif x < 0.82:
                if lives >= 3:
                    continue
                lives += 1
                st = {"do": "restart", "proto": r.choice([2, 4, 5, 0, 3]), "keep": r.random() < 0.5,
                      "warm": [data.deep(base) if r.random() < 0.3 else self.var(r, base["op"])
                               for _ in range(r.choice([0, 0, 1, 2]))], "id": sid}
            elif x < 0.88:
                st = {"do": "ruin", "o": o, "s": r.randrange(3), "id": sid}
            elif x < 0.95:
                st = {"do": r.choice(["wipeargs", "wipeargs", "drop"]), "o": o, "s": r.randrange(3), "id": sid}
            else:
                st = {"do": "gc", "id": sid}
            steps.append(st)
            sid += 1
        for o in names[-3:]:
            if r.random() < 0.6:
                steps.append({"do": "run", "o": o, "id": sid})
                sid += 1
            if r.random() < 0.3:
                steps.append({"do": "plot", "o": o, "c": story.plot_kw(r, calls[o]["op"], calls[o]), "id": sid})
                sid += 1
        return {"threads": [steps], "faults": faults, "share": r.random() < 0.3}

    def gen_threads(self, r, ctx):
        """One thread runs an object, the other copies it meanwhile and runs the copy."""
        c = self.var(r, catalog.pick_op(r, catalog.CLS))
        ref = story.new_ref(ctx, c)
        k = max(1, ref[1]["k"])
        one = [{"do": "new", "o": "o0", "c": c, "id": 0}]
        sid = 1
        for _ in range(r.choice([1, 1, 2])):
            one.append({"do": "run", "o": "o0", "id": sid})
            sid += 1
        two = []
        for _ in range(r.choice([1, 2])):
            two.append({"do": "copy", "o": "o0", "to": "c%d" % sid, "how": r.choice(["deep", "p2", "p4", "p5"]), "id": sid})
            two.append({"do": "run", "o": "c%d" % sid, "id": sid + 1})
            sid += 2
        sw = []
        for st in one[1:]:
            for _ in range(r.choice([1, 1, 2])):
                p = world.pick_point(r, ref[1]["sites"], k) if r.random() < 0.6 else r.randint(1, k)
                sw.append([0, st["id"], p or 1, r.randrange(4)])
        for st in two:
            if st["do"] == "run" and r.random() < 0.5:
                sw.append([1, st["id"], r.randint(1, k), r.randrange(4)])
        faults = []
        if r.random() < 0.15:
            f = story.fault(r, ref[1])
            if f:
                faults.append([0, one[-1]["id"]] + f)
        return {"threads": [one, two], "faults": faults, "switches": sw, "share": False}

    def execute(self, sc):
        if len(sc["threads"]) > 1:
            s = S(sc)
            rec = s.go()
            rec["found"] = s.found
            return rec
        lives, cur = [], []
        for st in sc["threads"][0]:
            cur.append(st)
            if st["do"] == "restart":
                lives.append(cur)
                cur = []
        lives.append(cur)
        total, saved, boundary = None, [], None
        for steps in lives:
            rec = proc.fork_call(phase, sc, [steps], saved, boundary, timeout=self.timeout)
            saved = rec.pop("left")
            boundary = steps[-1] if steps and steps[-1]["do"] == "restart" else None
            if total is None:
                total = rec
            else:
                total["out"].update(rec["out"])
                for k in ("trace", "fired", "found", "hangs"):
                    total[k] = total[k] + rec[k]
                total["events"] += rec["events"]
        total["lives"] = len(lives)
        return total

    def judge(self, sc, rec, ctx):
        viol = []
        steps = {st["id"]: st for th in sc["threads"] for st in th}
        calls, ran, made, bad, ops = {}, {}, set(), set(), {}
        work = copies = restarts = 0
        order = [(t, st) for t, th in enumerate(sc["threads"]) for st in th]
        for t, st in order:
            if st["do"] == "new":
                calls[st["o"]] = st["c"]
            elif st["do"] == "copy" and st["o"] in calls:
                calls[st["to"]] = calls[st["o"]]
        for clause, sid, what in rec["found"]:
            st = steps.get(sid, {})
            op = calls.get(st.get("o"), {}).get("op", "an object")
            viol.append({"clause": clause, "detail": "%s, step %d: %s" % (op, sid, what)})
        for t, st in order:
            do = st["do"]
            if do == "restart":
                restarts += 1
                made.update(calls)
                continue
            o = rec["out"].get((t, st["id"]))
            if o is None or st.get("o") not in calls:
                continue
            c = calls[st["o"]]
            ops[do if do != "new" else c["op"]] = ops.get(do if do != "new" else c["op"], 0) + 1
            if do == "copy" and o["o"][0] == "ok":
                copies += 1
                made.add(st["to"])
                ran[st["to"]] = ran.get(st["o"], 0)
                if st["o"] in bad:
                    bad.add(st["to"])
            if do == "run":
                if o["o"][0] != "ok":
                    bad.add(st["o"])
                else:
                    bad.discard(st["o"])
                    ran[st["o"]] = 1
                if o["fired"] and o["o"][0] == "exc":
                    continue
                work += st["o"] in made
                ref = story.new_ref(ctx, c)
                r1 = ref[1]["o"]
                same = data.same_outcome(o["o"], r1)
                if same and o["o"][0] == "ok" and len(sc["threads"]) == 1:
                    same = all(data.same(ref["attrs"][k], o["attrs"][k]) for k in ref["attrs"])
                if not same and not viol:
                    viol.append({"clause": "run", "detail": "%s, step %d: run() of %s %s; the first run() of a new object %s"
                                 % (c["op"], st["id"], "a copy or restored object" if st["o"] in made else "the object",
                                    data.brief(o["o"]), data.brief(r1))})
            if do == "plot" and o["o"][0] == "ok" and "pic" in o and st["o"] not in bad:
                work += st["o"] in made
                ref = story.plot_ref(ctx, c, ran.get(st["o"], 0), st["c"], None)
                if ref["o"][0] != "ok" or viol:
                    continue
                rp = ("seq", list(ref["figs"].values()))
                if not figs.same(o["pic"], rp):
                    viol.append({"clause": "picture", "detail": "%s, step %d: plot(%s) of %s drew another picture: %s" % (
                        c["op"], st["id"], data.canon(st["c"]["kw"])[:150],
                        "a copy or restored object" if st["o"] in made else "the object", data.diff(rp, o["pic"])[:250])})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": work > 0, "runs_and_plots_of_copies": work, "copies": copies,
                      "runs_with_threads": int(len(sc["threads"]) > 1), "switches": len(rec["trace"]),
                      "faults": dict(story.count_faults(rec), crash_and_restart=restarts, display=sum(
                          1 for st in steps.values() if st.get("showfail"))),
                      "sites": story.fault_sites(rec)}

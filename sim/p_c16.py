"""C16: a call made in the middle of another one, on the same thread, disturbs neither."""
import warnings

import matplotlib.pyplot as plt

from . import boot, catalog, data, figs, hist, sched, seams, story, world
from .p_c01 import with_entropy
from .p_c15 import registry
from .props_base import Prop

ATTRS = ("tfr", "ts", "freqs")


class S(story.Story):
    """Nested steps are those named in sc["nests"]: [outer step, how, where, [steps]]."""
    keep = False

    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.plan = {}
        for sid, how, k, steps in sc["nests"]:
            self.plan.setdefault(sid, []).append((how, k, steps))
        self.inner = []
        self.depth = 0

    def nested(self, t, steps):
        """What the handler, hook or callback does."""
        if self.depth:
            return
        self.depth += 1
        try:
            keep = (t.active, t.op, t.k, t.next, t.fault, t.fired, t.cap, t.sw, t.nests)
            on, seams.ON_SHOW = seams.ON_SHOW, None
            t.nests = []
            for st in steps:
                fn = self.target(st, t.tid)
                if fn is None:
                    self.harness(st)
                    continue
                if st.get("ent") is not None:
                    from . import entropy
                    entropy.install(st["ent"])
                reg = registry()
                oc, v = world.guarded(t, st["id"], fn)
                at = None
                if st["do"] == "plot":
                    new = [n for n in registry() if n not in reg]
                    at = ("seq", [figs.figure(registry()[n]) for n in new])
                    for n in new:       # the inner picture is looked at and closed
                        plt.close(n)
                self.inner.append((st["id"], oc, at))
            t.active, t.op, t.k, t.next, t.fault, t.fired, t.cap, t.sw, t.nests = keep
            seams.ON_SHOW = on
        finally:
            self.depth -= 1

    def before(self, t, st):
        t.nests = []
        self.reg0 = registry()
        self.hooks = []
        for how, k, steps in self.plan.get(st["id"], ()):
            if how == "handler":
                t.nests.append((k, lambda steps=steps: self.nested(t, steps)))
            elif how == "show":
                def on_show(steps=steps):
                    self.mine()
                    self.nested(t, steps)
                seams.ON_SHOW = on_show
            elif how == "warning":
                def hook(*a, steps=steps, **k):
                    self.nested(t, steps)
                self.hooks.append(warnings.showwarning)
                warnings.showwarning = hook
        t.nests.sort(key=lambda x: x[0])
        self.pic = None

    def mine(self):
        self.pic = ("seq", [figs.figure(f) for n, f in registry().items() if n not in self.reg0])

    def after(self, t, st, oc, v):
        t.nests = []
        seams.ON_SHOW = None
        for h in self.hooks:
            warnings.showwarning = h
        o = self.out[(t.tid, st["id"])]
        if st["do"] == "run" and oc[0] == "ok":
            o["attrs"] = story.attrs(self.objs[st["o"]])
        if st["do"] in ("plot", "plotifl") and oc[0] == "ok":
            if self.pic is None:
                self.mine()
            o["pic"] = self.pic


class PROP(Prop):
    id = "C16"
    hang_is_violation = True
    quick = 5000
    thorough = 50000
    variants = 10
    rule = ("A run makes 1-3 outer calls (any operation, run() and plots of representation objects, plotifl) and, in the "
            "middle of them, on the same thread, 1-3 inner ones: from a handler entered at a planned instruction where "
            "CPython delivers signals, from the caller's warning hook, or from a callback run by the display. Inner calls "
            "are the same operation with equal or nearly equal arguments, others, and run() of the very object in use. "
            "Every outer and inner call is compared with the call alone, every picture with that of a pristine process. "
            "Non-trivial: an inner call happened inside an outer one. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, places where inner calls began)"

    def inner(self, r, base, rnd, objs, sid, second):
        steps = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            if second and r.random() < 0.5:
                st = {"do": "plot", "o": "p0", "id": sid, "c": story.plot_kw(
                    story.gen_rng("pk", self.seed, r.randrange(6), data.canon(second)), second["op"], second)}
            elif objs and x < 0.45:
                st = {"do": "run", "o": r.choice(objs), "id": sid}
            else:
                names = catalog.DET if rnd else catalog.ALL
                if base is None or x > 0.8:
                    c = self.var(r, catalog.pick_op(r, names))
                elif x < 0.6:
                    c = data.deep(base)
                else:
                    c = catalog.neighbor(base, story.gen_rng("nb", self.seed, r.randrange(6), data.canon(base)))
                if rnd and catalog.OPS[c["op"]].tags.get("rng"):
                    c = self.var(r, catalog.pick_op(r, names))
                st = with_entropy(r, {"do": "call", "c": c, "id": sid})
            steps.append(st)
            sid += 1
        return steps, sid

    def gen(self, r, i, ctx):
        steps, nests, faults = [], [], []
        sid, nid = 0, 500
        objs = []
        self.second = None
        if r.random() < 0.2:
            # another object, ready to be drawn by inner calls
            c = catalog.variant(catalog.pick_op(r, catalog.CLS, True), self.shard * 100 + r.randrange(3), self.seed)
            if ctx.refs.get(c, None, True)["o"][0] == "ok":
                self.second = c
                steps += [{"do": "new", "o": "p0", "c": c, "id": 900}, {"do": "run", "o": "p0", "id": 901}]
        if r.random() < 0.4:
            c = None
            for _ in range(6):
                c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
                if ctx.refs.get(c, None, True)["o"][0] == "ok":
                    break
            steps.append({"do": "new", "o": "o0", "c": c, "id": sid})
            objs.append("o0")
            sid += 1
            ref = story.new_ref(ctx, c)
            ran = False
            for _ in range(r.choice([1, 2, 3])):
                if not ran or r.random() < 0.4:
                    st = {"do": "run", "o": "o0", "id": sid}
                    rf = ref[1]
                    ran = True
                else:
                    st = {"do": "plot", "o": "o0", "c": story.plot_kw(r, c["op"], c), "id": sid}
                    rf = story.plot_ref(ctx, c, 1, st["c"], None)
                n, nid = self.place(r, st, rf, c, False, objs, nid)
                nests += n
                steps.append(st)
                sid += 1
        else:
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                if x < story.ifl_share(0.06):
                    st = {"do": "plotifl", "c": story.gen_plotifl(r), "id": sid}
                    rf, c, rnd = story.ifl_ref(ctx, st["c"]), None, False
                else:
                    c = self.var(r, catalog.pick_op(r, catalog.WARN if x > 0.93 else catalog.ALL))
                    st = with_entropy(r, {"do": "call", "c": c, "id": sid})
                    rnd = bool(catalog.OPS[c["op"]].tags.get("rng"))
                    rf = ctx.refs.get(c, st.get("ent"), True)
                n, nid = self.place(r, st, rf, c, rnd, objs, nid)
                nests += n
                steps.append(st)
                sid += 1
        return {"threads": [steps], "faults": faults, "nests": nests, "share": r.random() < 0.5}

    def place(self, r, st, rf, c, rnd, objs, nid):
        nests = []
        pts = world.fault_points(rf, "nest") if rf.get("sites") else []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = world.pick_point(r, pts, rf["k"])
            # a curve drawn by plotifl goes to pyplot's current axes: no figures in the middle of it
            steps, nid = self.inner(r, c, rnd, objs, nid, self.second if st["do"] != "plotifl" else None)
            how = "handler"
            if st["do"] in ("plot", "plotifl") and r.random() < 0.2:
                how = "show"
            elif st["do"] == "call" and catalog.OPS[c["op"]].tags.get("warns") and r.random() < 0.4:
                how = "warning"
            nests.append([st["id"], how, k or 1, steps])
        return nests, nid

    def execute(self, sc):
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
        s = S(sc)
        rec = s.go()
        rec["inner"] = s.inner
        return rec

    def shrink(self, sc):
        for j in range(len(sc["nests"])):
            c = data.deep(sc)
            del c["nests"][j]
            yield c
            for i in range(len(sc["nests"][j][3])):
                if len(sc["nests"][j][3]) > 1:
                    c = data.deep(sc)
                    del c["nests"][j][3][i]
                    yield c
        for c in Prop.shrink(self, sc):
            ids = set(st["id"] for st in c["threads"][0])
            c["nests"] = [n for n in c["nests"] if n[0] in ids]
            yield c

    def judge(self, sc, rec, ctx):
        viol, ops = [], {}
        calls = {st["o"]: st["c"] for st in sc["threads"][0] if st["do"] == "new"}
        inner = {st["id"]: (st, n) for n in sc["nests"] for st in n[3]}

        def one(st, oc, at, where):
            if st["do"] == "call":
                ops[st["c"]["op"]] = ops.get(st["c"]["op"], 0) + 1
                if not ctx.refs.matches(st["c"], st.get("ent"), oc) and not viol:
                    ref = ctx.refs.get(st["c"], st.get("ent"))["o"]
                    viol.append({"clause": "differs", "detail": "%s, %s: alone it %s, here it %s" % (
                        st["c"]["op"], where, data.brief(ref), data.brief(oc))})
            elif st["do"] == "run" and st["o"] in calls:
                c = calls[st["o"]]
                ops["run"] = ops.get("run", 0) + 1
                ref = story.new_ref(ctx, c)
                ok = data.same_outcome(oc, ref[1]["o"])
                if ok and oc[0] == "ok" and at is not None:
                    ok = all(data.same(ref["attrs"][k], at[k]) for k in ATTRS)
                if not ok and not viol:
                    viol.append({"clause": "differs", "detail": "run() of %s, %s: on a new object it %s, here it %s%s" % (
                        c["op"], where, data.brief(ref[1]["o"]), data.brief(oc), "" if not data.same_outcome(
                            oc, ref[1]["o"]) else " and leaves other attributes")})
        def picture(st, oc, pic, where, ran):
            if ran is None:             # its run() failed: what that leaves behind is not looked at here
                return
            ops[st["do"]] = ops.get(st["do"], 0) + 1
            ref = story.ifl_ref(ctx, st["c"]) if st["do"] == "plotifl" else story.plot_ref(
                ctx, calls[st["o"]], ran, st["c"], None)
            if viol:
                return
            if (ref["o"][0] == "ok") != (oc[0] == "ok"):
                viol.append({"clause": "differs", "detail": "%s, %s: alone it %s, here it %s" % (
                    st["do"], where, data.brief(ref["o"]), data.brief(oc))})
            elif ref["o"][0] == "ok":
                rp = ("seq", list(ref["figs"].values()))
                if not figs.same(pic, rp):
                    viol.append({"clause": "picture", "detail": "%s, %s, drew another picture: %s" % (
                        st["do"], where, data.diff(rp, pic)[:250])})
        for sid, oc, at in rec["inner"]:
            st, n = inner[sid]
            if oc[0] == "exc" and oc[1] == "Deadlock":
                viol.append({"clause": "deadlock", "detail": "an inner %s waits for ever for a lock held by the call it "
                             "interrupted" % (st["c"]["op"] if "c" in st else st["do"])})
                continue
            where = "called from a %s in the middle of step %d" % (
                {"handler": "handler", "show": "display callback", "warning": "warning hook"}[n[1]], n[0])
            if st["do"] == "plot" and st["o"] in calls:
                picture(st, oc, at, where, 1)
            one(st, oc, None, where)
        runs = {}
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if o is None:
                continue
            how = [n[1] for n in sc["nests"] if n[0] == st["id"]]
            where = "step %d, interrupted by %s" % (st["id"], ", ".join(how) or "nothing")
            one(st, o["o"], o.get("attrs"), where)
            if st["do"] == "run":
                runs[st["o"]] = 1 if o["o"][0] == "ok" else None
            if st["do"] in ("plot", "plotifl"):
                picture(st, o["o"], o.get("pic"), where, runs.get(st["o"], 0) if "o" in st else 0)
        hows = {}
        for sid, oc, at in rec["inner"]:
            h = "call_from_" + inner[sid][1][1]
            hows[h] = hows.get(h, 0) + 1
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec) + rec["hash"], "ops": ops,
                      "nontrivial": bool(rec["inner"]), "inner_calls": len(rec["inner"]), "faults": hows,
                      "sites": [(x[3], x[4]) for x in rec["trace"] if x[3] >= 0]}

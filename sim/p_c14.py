"""C14: results are snapshots that nothing changes later."""
import numpy as np

from . import catalog, data, hist, story, world
from .p_c02 import Watch
from .props_base import Prop

GRIDS = ("timestamps", "time_samples", "t", "lag", "fnorm", "freq")


def overlap(a, b):
    return np.may_share_memory(a, b) and np.shares_memory(a, b)


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.held = []          # (watch, step id, owner object name or None)
        self.found = []
        self.wiped = 0

    def handed_back(self, x, a):
        """Is x (a view of) a grid that the caller supplied?"""
        for k in GRIDS:
            g = a.kw.get(k)
            if isinstance(g, np.ndarray) and overlap(x, g):
                return True
        return False

    def after(self, t, st, oc, v):
        self.check(st)
        a = self.args.get(st["id"]) if st["do"] == "call" else self.oargs.get(st.get("o"))
        if st["do"] == "run" and oc[0] == "ok":
            # the object's own arrays are replaced by each run; hold those of the latest one
            self.held = [h for h in self.held if h[2] != st["o"]]
            o = self.objs[st["o"]]
            for k in ("tfr", "ts", "freqs"):
                x = getattr(o, k, None)
                if isinstance(x, np.ndarray) and not self.handed_back(x, a):
                    self.held.append((Watch("attribute %s of %s after run (step %d)" % (k, st["o"], st["id"]), x),
                                      st["id"], st["o"]))
        if st["do"] in ("call", "run") and oc[0] == "ok":
            name = st["c"]["op"] if st["do"] == "call" else "run of %s" % st["o"]
            for i, x in enumerate(data.arrays_in(v)):
                if not self.handed_back(x, a):
                    self.held.append((Watch("result %d of %s (step %d)" % (i, name, st["id"]), x), st["id"], None))

    def check(self, st):
        for w, sid, own in self.held:
            if w.root is not None and w.x is not None:
                if not same_values(w):
                    name = (st.get("c") or {}).get("op", st["do"])
                    self.found.append((w.label, st["do"], name, st["id"], w.bad()))
                    w.x = None
        self.held = [h for h in self.held if h[0].x is not None]

    def wipe(self, st):
        """The caller overwrites everything it passed in, or everything one call returned."""
        if st["do"] == "wipeargs":
            for a in list(self.args.values()) + list(self.oargs.values()):
                for name, x in a.objects():
                    if isinstance(x, np.ndarray) and not any(x is a.kw.get(k) for k in GRIDS):
                        data.scribble(x, st["s"])
                        self.wiped += 1
            return
        v = self.vals.get(st["of"])
        self.held = [h for h in self.held if h[1] != st["of"]]
        own = [g for a in list(self.args.values()) + list(self.oargs.values()) for _, g in a.objects()
               if isinstance(g, np.ndarray)] + list(self.bufs.values())
        for x in data.arrays_in(v) if v is not None else ():
            if not any(overlap(x, g) for g in own):
                data.scribble(x, st["s"])
                self.wiped += 1

    def harness(self, st):
        if st["do"] in ("wipeargs", "wiperes"):
            self.wipe(st)
            self.check(st)
            return
        if st["do"] in ("scrib", "scribarg", "fill"):
            target = []
            if st["do"] == "scrib" and self.vals.get(st["of"]) is not None:
                arrs = list(data.arrays_in(self.vals[st["of"]]))
                target = [arrs[st["i"] % len(arrs)]] if arrs else []
            # the overwritten result itself (and the same run's matrix in the object) no longer counts
            if target:
                own = list(self.bufs.values()) + [g for a in list(self.args.values()) + list(self.oargs.values())
                                                  for g in [a.kw.get(k) for k in GRIDS] if isinstance(g, np.ndarray)]
                if any(overlap(target[0], g) for g in own):
                    return          # a grid of the caller's own
                self.held = [h for h in self.held if h[1] != st["of"]]
            story.Story.harness(self, st)
            self.check(st)
            return
        story.Story.harness(self, st)


def same_values(w):
    x = w.x
    if w.meta[0] != x.shape or w.meta[2] != x.dtype.str:
        return False
    return w.bad() is None


class PROP(Prop):
    id = "C14"
    quick = 4500
    thorough = 40000
    variants = 24
    rule = ("A run is a history of 3-24 steps over a family of equal and near-identical calls and of objects run once or "
            "several times; results are kept, and between later calls (some aborted by a fault) the caller overwrites the "
            "arrays it passed in, refills buffers and overwrites other results. After every step the bytes of all kept "
            "results and of the objects' matrices and grids are compared with their snapshot; every completed call is "
            "compared with its pristine reference. Non-trivial: a result was held across at least two later steps. "
            "Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def sweep(self, r):
        """Fresh calls of several operations: call, overwrite its results, call again; at the end overwrite all
        the arguments."""
        steps, sid = [], 0
        for _ in range(r.choice([2, 3, 4])):
            c = catalog.call(catalog.pick_op(r, catalog.DET), r)
            if r.random() < 0.4:
                catalog.spice(c, r)
            steps.append({"do": "call", "c": c, "id": sid})
            if r.random() < 0.7:
                steps.append({"do": "wiperes", "of": sid, "s": r.randrange(3), "id": sid + 1})
                if r.random() < 0.3:
                    steps.append({"do": "call", "c": catalog.neighbor(c, r), "id": sid + 2})
                steps.append({"do": "call", "c": data.deep(c), "id": sid + 3})
            sid += 5
        steps.append({"do": "wipeargs", "s": r.randrange(3), "id": sid})
        return {"threads": [steps], "faults": [], "bufs": {}}

    def gen(self, r, i, ctx):
        if r.random() < 0.35:
            return self.sweep(r)
        n = r.choice([3, 4, 6, 8, 12, 24])
        steps, faults, bufs = hist.history(self, r, ctx, catalog.ALL if r.random() < 0.3 else catalog.DET, n,
                                           p_fault=r.choice([0, 0.15]), p_scrib=0.35, p_odd=0.03)
        for st in steps:
            st.pop("drop", None)
        if r.random() < 0.45:
            sid = 1000
            c = self.var(r, catalog.pick_op(r, catalog.CLS))
            pre = [{"do": "new", "o": "o0", "c": c, "id": sid}]
            nobj = 1
            if r.random() < 0.5:
                pre.append({"do": "new", "o": "o1", "c": data.deep(c) if r.random() < 0.6 else catalog.neighbor(
                    c, story.gen_rng("nb", self.seed, r.randrange(6), data.canon(c))), "id": sid + 1})
                nobj = 2
            pos = [0]
            sid += 5
            runs = []
            for _ in range(r.choice([2, 3, 5])):
                st = {"do": "run", "o": "o%d" % r.randrange(nobj), "id": sid}
                pos.append(r.randint(0, len(steps)))
                if runs and r.random() < 0.4:
                    st = {"do": "scrib", "of": r.choice(runs), "i": r.choice([0, 0, 3]), "s": 1, "id": sid}
                elif r.random() < 0.15:
                    f = story.fault(r, story.new_ref(ctx, c)[1])
                    if f:
                        faults.append([0, sid] + f)
                if st["do"] == "run":
                    runs.append(sid)
                pre.append(st)
                sid += 1
            # merge the object's steps into the history, keeping their order
            at = sorted(r.randint(0, len(steps)) for _ in pre)
            out, j = [], 0
            for k, st in enumerate(steps + [None]):
                while j < len(pre) and at[j] <= k:
                    out.append(pre[j])
                    j += 1
                if st is not None:
                    out.append(st)
            out += pre[j:]
            steps = out
        if r.random() < 0.5:
            steps.append({"do": "wipeargs", "s": r.randrange(3), "id": 5000})
        return {"threads": [steps], "faults": faults, "bufs": bufs}

    def execute(self, sc):
        s = S(sc)
        rec = s.go()
        rec["found"] = s.found
        rec["held"] = len(s.held)
        rec["wiped"] = s.wiped
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        for label, do, name, sid, b in rec["found"]:
            viol.append({"clause": "changed", "detail": "%s was changed by a later step (%d: %s %s): %s" % (
                label, sid, do, name if name != do else "", b)})
        ops = {}
        n = 0
        objs = {}
        for t, st, c in hist.walk(sc):
            o = rec["out"].get((t, st["id"]))
            if st["do"] == "new":
                objs[st["o"]] = st["c"]
            if o is None:
                continue
            k = c["op"] if c else st["do"]
            ops[k] = ops.get(k, 0) + 1
            if viol or (o["fired"] and o["o"][0] == "exc"):
                continue
            if c is not None:
                n += 1
                if not ctx.refs.matches(c, st.get("ent"), o["o"]):
                    ref = ctx.refs.get(c, st.get("ent"))["o"]
                    viol.append({"clause": "later-call", "detail": "%s (step %d) %s; in a fresh process it %s" % (
                        c["op"], st["id"], data.brief(o["o"]), data.brief(ref))})
            elif st["do"] == "run":
                n += 1
                ref = story.new_ref(ctx, objs[st["o"]])[1]["o"]
                if not data.same_outcome(o["o"], ref):
                    viol.append({"clause": "later-call", "detail": "run of %s (step %d) %s; on a fresh object it %s" % (
                        objs[st["o"]]["op"], st["id"], data.brief(o["o"]), data.brief(ref))})
        over = sum(1 for st in sc["threads"][0] if st["do"] in ("scrib", "scribarg", "fill")) + rec["wiped"]
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": n >= 2 and len(sc["threads"][0]) >= 3, "results_held_at_the_end": rec["held"],
                      "arrays_overwritten_by_the_caller": over, "calls_compared": n,
                      "faults": story.count_faults(rec), "sites": story.fault_sites(rec)}

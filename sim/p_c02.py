"""C02: the caller's arrays are never written to."""
import numpy as np

from . import catalog, data, focus, sched, story, world
from .p_c01 import pick_calls, with_entropy
from .props_base import Prop


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def meta(a):
    return (a.shape, a.strides, a.dtype.str, a.flags.writeable, a.ctypes.data)


class Watch(object):
    """One object of the caller and what it held when it was handed over."""

    def __init__(self, label, x):
        self.label, self.x = label, x
        if isinstance(x, list):
            self.snap = list(x)
            self.root = None
        else:
            self.root = root(x)
            self.snap = self.root.tobytes()
            self.meta = meta(x)

    def bad(self):
        if self.root is None:
            return None if self.x == self.snap and len(self.x) == len(self.snap) else "list is now %r" % (self.x,)
        if self.root.tobytes() != self.snap:
            a = np.frombuffer(self.snap, dtype=self.root.dtype)
            b = np.frombuffer(self.root.tobytes(), dtype=self.root.dtype)
            i = int(np.nonzero(a.view(np.uint8) != b.view(np.uint8))[0][0]) // a.itemsize
            return "element %d of its buffer went from %r to %r" % (i, a[i], b[i])
        if meta(self.x) != self.meta:
            return "its layout changed from %r to %r" % (self.meta[:4], meta(self.x)[:4])
        return None


class S(story.Story):
    keep = True

    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.watch = {}
        self.found = []
        self.seen = set()
        self.cur = None
        self.polls = 0
        self.every = 1
        self.probe = self.poll

    def look(self, label, a):
        for name, x in a.objects():
            if id(x) not in self.watch:
                self.watch[id(x)] = Watch("%s of %s" % (name, label), x)

    def before(self, t, st):
        if st["do"] in ("call", "plot", "plotifl"):
            self.look("step %d" % st["id"], self.args[st["id"]])
        elif st["do"] == "new":
            self.look("object %s" % st["o"], self.oargs[st["o"]])
        self.cur = st
        self.every = 1
        self.live = [w for w in self.watch.values()]

    def poll(self, t, co, off):
        if self.every > 1 and t.k % self.every:
            return
        self.polls += 1
        if t.k == 20000:
            self.every = 7
        for w in self.live:
            b = w.bad()
            if b:
                self.report(w, b, "at instruction %d, %s" % (t.k, sched.site_name(sched.INDEX[co], off)))

    def report(self, w, b, when):
        if id(w.x) in self.seen:
            return
        self.seen.add(id(w.x))
        name = (self.cur.get("c") or {}).get("op", self.cur["do"])
        self.found.append((name, self.cur["id"], w.label, b, when))

    def after(self, t, st, oc, v):
        for w in self.live:
            b = w.bad()
            if b:
                self.report(w, b, "after it %s" % ("returned" if oc[0] == "ok" else "raised %s" % oc[1]))


def writable(c):
    c = data.deep(c)
    for v in c["args"] + list(c["kw"].values()):
        if data.is_arr(v) and v["l"] == "ro":
            v["l"] = "C"
    return c


class PROP(Prop):
    id = "C02"
    quick = 4000
    thorough = 60000
    variants = 24
    rule = ("A run makes 1-9 calls (or an object's construction, runs and plots) on shared caller arrays of varied "
            "layout (contiguous, strided, reversed, offset, Fortran, column, read-only) and lists; in a third of the runs an "
            "interrupt or allocation failure is raised at a planned instruction. Every caller object is compared with "
            "its snapshot at every tftb bytecode instruction and after every step. Non-trivial: at least one "
            "array or list was watched through at least 20 instructions. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    _names = []

    def with_arrays(self):
        if not self._names:
            for n in catalog.ALL:
                for k in range(6):
                    c = catalog.variant(n, k, self.seed)
                    if any(isinstance(v, (dict, list)) for v in c["args"] + list(c["kw"].values())):
                        self._names.append(n)
                        break
        return self._names

    def gen(self, r, i, ctx):
        steps = []
        faults = []
        x = r.random()
        if r.random() < 0.4:
            # a sweep: several unrelated calls with fresh arguments, none of them interrupted
            names = self.with_arrays()
            for j in range(r.choice([5, 7, 9])):
                c = catalog.call(catalog.pick_op(r, names), r)
                if r.random() < 0.4:
                    catalog.spice(c, r)
                for v in c["args"] + list(c["kw"].values()):
                    if data.is_arr(v) and v["l"] == "ro":
                        v["l"] = "C"
                steps.append(with_entropy(r, {"do": "call", "c": c, "id": j}))
        elif x < 0.62:
            names = self.with_arrays() if r.random() < 0.95 else catalog.ALL
            calls = pick_calls(self, r, r.choice([1, 1, 2, 3]), names, 0.5)
            for j, c in enumerate(calls):
                if r.random() < 0.3:
                    for v in c["args"] + list(c["kw"].values()):
                        if data.is_arr(v) and r.random() < 0.7:
                            v["l"] = r.choice(["ro", "ro", "step", "rev"]) if v["l"] != "col" else "col"
                steps.append(with_entropy(r, {"do": "call", "c": c, "id": j}))
            if r.random() < 0.5:
                st = r.choice(steps)
                f = story.fault(r, ctx.refs.get(st["c"], st.get("ent"), True))
                if f:
                    faults.append([0, st["id"]] + f)
        elif x < (0.95 if not focus.IFL else 0.8):
            c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
            steps.append({"do": "new", "o": "o", "c": c, "id": 0})
            ref = story.new_ref(ctx, c)
            for j in range(1, r.choice([2, 3, 3, 4])):
                if r.random() < 0.75:
                    steps.append({"do": "run", "o": "o", "id": j})
                    if r.random() < 0.35:
                        f = story.fault(r, ref[1])
                        if f:
                            faults.append([0, j] + f)
                else:
                    p = story.plot_kw(r, c["op"], c)
                    p["kw"]["show"] = False
                    steps.append({"do": "plot", "o": "o", "c": p, "id": j})
                    if r.random() < 0.35:
                        faults.append([0, j, r.choice(["mem", "kbd"]), r.randint(1, 160)])
            if r.random() < 0.15:
                f = story.fault(r, ref[0])
                if f:
                    faults.append([0, 0] + f)
        else:
            p = story.gen_plotifl(r)
            steps.append({"do": "plotifl", "c": p, "id": 0})
            if r.random() < 0.5:
                faults.append([0, 0, r.choice(["mem", "kbd"]), r.randint(1, 150)])
        return {"threads": [steps], "faults": faults, "share": True}

    def execute(self, sc):
        s = S(sc)
        rec = s.go()
        rec["found"] = s.found
        rec["watched"] = len(s.watch)
        rec["polls"] = s.polls
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        ops = {}
        for name, sid, label, b, when in rec["found"]:
            viol.append({"clause": "written", "detail": "%s (step %d) wrote to %s: %s, %s" % (name, sid, label, b, when)})
        ro = 0
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            name = (st.get("c") or {}).get("op") or st["do"]
            ops[name] = ops.get(name, 0) + 1
            if st["do"] != "call" or o is None or viol:
                continue
            if any(data.is_arr(v) and v["l"] == "ro" for v in st["c"]["args"] + list(st["c"]["kw"].values())):
                ro += 1
                if o["fired"] and o["o"][0] == "exc":
                    continue
                w = writable(st["c"])
                if not ctx.refs.matches(w, st.get("ent"), o["o"]):
                    ref = ctx.refs.get(w, st.get("ent"))["o"]
                    viol.append({"clause": "read-only", "detail": "%s: with writable arrays it %s, with read-only ones it %s" % (
                        st["c"]["op"], data.brief(ref), data.brief(o["o"]))})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": rec["watched"] > 0 and rec["polls"] >= 20, "faults": story.count_faults(rec),
                      "sites": story.fault_sites(rec), "comparisons_at_instructions": rec["polls"],
                      "objects_watched": rec["watched"], "read_only_calls": ro,
                      "ok": sum(o["o"][0] == "ok" for o in rec["out"].values()),
                      "exc": sum(o["o"][0] == "exc" for o in rec["out"].values())}

"""C17: a process forked at any point can go on using the library, and so can its parent."""
import os
import pickle
import select
import signal
import struct
import warnings

import matplotlib.pyplot as plt
import numpy as np

from . import boot, catalog, data, entropy, figs, proc, sched, seams, story, world
from .p_c01 import pick_calls, with_entropy
from .p_c15 import registry
from .props_base import Prop, _chunks

ATTRS = ("tfr", "ts", "freqs")
LIMIT = 45.0


def held(x, out, depth=0):
    """The bytes of every array in a result."""
    if isinstance(x, np.ndarray):
        out.append((x, x.tobytes()))
    elif isinstance(x, (tuple, list)) and depth < 4:
        for y in x:
            held(y, out, depth + 1)


class S(story.Story):
    keep = True

    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.kids = []
        self.seen = []
        self.alive = {}
        self.handed = 0
        self.pipe = None
        self.multi = len(sc["threads"]) > 1
        self.plan = {}
        for st in sc["mids"]:
            self.plan.setdefault(st["in"], []).append(st)
        self.pending = []
        self.level = 0

    # -- the two sides of a fork; one process at a time, handed over at planned points
    def arrays(self):
        out = []
        for k in sorted(self.vals):
            held(self.vals[k], out)
        for k in sorted(self.objs):
            held([v for _, v in sorted(vars(self.objs[k]).items())], out)
        return out

    def fork(self, t, st):
        """Returns True in the child.  The parent waits until the child hands over or has done everything."""
        r, w = os.pipe()
        cr, cw = os.pipe()
        mine = self.arrays()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(cw)
            for k in self.alive.values():
                os.close(k["r"])
                os.close(k["w"])
            self.alive = {}
            self.pipe, self.ctl = w, cr
            seams.VPID[0] += 1
            self.level = 1
            self.out = {}
            self.seen = []
            self.sw, self.fa = {}, {}
            t.sw, t.fault, t.nests = [], None, []
            # the other threads do not exist in this process; what they held stays held
            for u in t.sched.threads:
                if u is not t:
                    u.done, u.waiting = True, None
            if t.active:
                t._plan()
            if st.get("wait"):
                self.hand_over(st)
            return True
        os.close(w)
        os.close(cr)
        self.alive[st["id"]] = {"pid": pid, "r": r, "w": cw, "buf": bytearray(), "tid": t.tid}
        self.until(st["id"], mine)
        return False

    def hand_over(self, st):
        """The child stops here until the parent lets it go on."""
        mine = self.arrays()
        proc._write(self.pipe, b"Y")
        if os.read(self.ctl, 1) != b"x":
            os._exit(1)
        self.compare(mine, st["id"], "child")

    def compare(self, mine, sid, who):
        n = sum(1 for a, b in mine if a.tobytes() != b)
        if n:       # this process did nothing all the time
            self.seen.append((who, sid, n))

    def resume(self, sid):
        mine = self.arrays()
        self.handed += 1
        try:
            os.write(self.alive[sid]["w"], b"x")
        except OSError:
            pass
        self.until(sid, mine)

    def until(self, sid, mine):
        """Wait until the child hands over, is done or died."""
        kid = self.alive[sid]
        buf = kid["buf"]
        end = seams.real_monotonic() + LIMIT
        why = None
        while why is None:
            left = end - seams.real_monotonic()
            if left <= 0:
                os.kill(kid["pid"], signal.SIGKILL)
                why = "did not finish"
                break
            if not select.select([kid["r"]], [], [], min(left, 5.0))[0]:
                continue
            b = os.read(kid["r"], 1 << 20)
            if not b:
                why = "died"
            buf += b
            if bytes(buf[:1]) == b"Y":
                del buf[:1]
                self.compare(mine, sid, "parent")
                return
            if bytes(buf[:1]) == b"E":
                raise boot.HarnessError("a forked process failed outside the code under test")
            if len(buf) >= 9 and len(buf) == 9 + struct.unpack("<Q", bytes(buf[1:9]))[0]:
                why = pickle.loads(bytes(buf[9:]))
        os.close(kid["r"])
        os.close(kid["w"])
        os.waitpid(kid["pid"], 0)
        del self.alive[sid]
        self.compare(mine, sid, "parent")
        if not isinstance(why, str):
            why, seen = why
            self.seen.extend(seen)
        self.kids.append((kid["tid"], sid, why))

    def live(self, t, st):
        """The rest of the child's life."""
        try:
            for s in st["steps"]:
                if s["do"] == "hand":
                    self.hand_over(s)
                else:
                    self.step(t, t.tid, s)
            b = pickle.dumps(({sid: o for (_, sid), o in self.out.items()}, self.seen), protocol=4)
            proc._write(self.pipe, b"D" + struct.pack("<Q", len(b)) + b)
        except BaseException:
            import traceback
            traceback.print_exc()
            try:
                proc._write(self.pipe, b"E")
            except OSError:
                pass
        finally:
            os._exit(0)

    # -- steps
    def before(self, t, st):
        t.nests = []
        self.reg0 = registry()
        if self.level:
            return
        for f in self.plan.get(st["id"], ()):
            def mid(f=f):
                if self.level == 0 and self.fork(t, f):
                    self.pending.append(f)
            t.nests.append((f["k"], mid))
        t.nests.sort(key=lambda x: x[0])

    def after(self, t, st, oc, v):
        t.nests = []
        o = self.out[(t.tid, st["id"])]
        if st["do"] == "run" and oc[0] == "ok" and (not self.multi or self.level):
            o["attrs"] = story.attrs(self.objs[st["o"]])
        if st["do"] == "plot" and oc[0] == "ok" and not self.multi:
            reg = registry()
            o["pic"] = ("seq", [figs.figure(reg[n]) for n in reg if n not in self.reg0])
            plt.close("all")

    def step(self, t, tid, st):
        if st["do"] == "resume":
            if st["of"] in self.alive and self.level == 0:
                self.resume(st["of"])
            return
        if st["do"] == "fork":
            if self.level == 0 and self.fork(t, st):
                self.live(t, st)
            return
        story.Story.step(self, t, tid, st)
        if self.pending:
            self.live(t, self.pending.pop())


class PROP(Prop):
    id = "C17"
    hang_is_violation = True
    quick = 2600
    thorough = 40000
    variants = 10
    timeout = 100.0
    rule = ("A run has 1-3 simulated threads making 1-4 calls each (any operation, run() of shared or own objects, plots) "
            "under a seeded plan of switches, with aborted calls in a quarter of the runs. At planned points, between two "
            "calls of one thread while the others are inside theirs, or at an instruction in the middle of a call, the process is "
            "forked for real: the child has only the forking thread, finishes the call it is in and makes 1-3 more (equal, "
            "nearly equal or other arguments, run() and plots of the inherited objects), stopping at planned points to let the parent go on. "
            "Arrays held by the process that stands still must not change. "
            "Every call in every process is compared with the call alone. Non-trivial: a child made a call. "
            "Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, switches, forks)"

    def kid(self, r, base, objs, calls, sid, multi):
        steps = []
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if objs and x < 0.5:
                st = {"do": "run", "o": r.choice(objs), "id": sid}
            elif objs and x < 0.65 and not multi:
                o = r.choice(objs)
                st = {"do": "plot", "o": o, "c": story.plot_kw(r, calls[o]["op"], calls[o]), "id": sid}
            else:
                if base is None or x > 0.88:
                    c = self.var(r, catalog.pick_op(r, catalog.ALL))
                elif x < 0.75:
                    c = data.deep(base)
                else:
                    c = catalog.neighbor(base, story.gen_rng("nb", self.seed, r.randrange(6), data.canon(base)))
                st = with_entropy(r, {"do": "call", "c": c, "id": sid})
            steps.append(st)
            sid += 1
            if r.random() < 0.15:
                steps.append({"do": "hand", "id": sid})
                sid += 1
        return steps, sid

    def gen(self, r, i, ctx):
        nth = r.choice([1, 1, 2, 2, 2, 3])
        threads, faults, sw, mids = [[] for _ in range(nth)], [], [], []
        calls, objs = {}, []
        sid, nid = 10, 500
        if r.random() < 0.5:
            c = None
            for _ in range(6):
                c = self.var(r, catalog.pick_op(r, catalog.CLS))
                if ctx.refs.get(c, None, True)["o"][0] == "ok":
                    break
            calls["o0"] = c
            objs.append("o0")
            threads[0].append({"do": "new", "o": "o0", "c": c, "id": 0})
        fam = pick_calls(self, r, 5, catalog.ALL, 0.6)
        for t in range(nth):
            for _ in range(r.choice([1, 2, 2, 3])):
                x = r.random()
                if objs and x < 0.6:
                    st = {"do": "run", "o": "o0", "id": sid}
                    rf, base = story.new_ref(ctx, calls["o0"])[1], calls["o0"]
                elif objs and x < 0.7 and nth == 1:
                    st = {"do": "plot", "o": "o0", "c": story.plot_kw(r, calls["o0"]["op"], calls["o0"]), "id": sid}
                    rf, base = story.plot_ref(ctx, calls["o0"], 1, st["c"], None), calls["o0"]
                else:
                    base = data.deep(r.choice(fam))
                    st = with_entropy(r, {"do": "call", "c": base, "id": sid})
                    rf = ctx.refs.get(base, st.get("ent"), True)
                threads[t].append(st)
                k = max(1, rf["k"] or 1)
                if nth > 1:
                    for _ in range(r.choice([0, 1, 1, 2])):
                        p = world.pick_point(r, rf["sites"], k) if r.random() < 0.6 else r.randint(1, k)
                        sw.append([t, sid, p or 1, r.randrange(4)])
                if r.random() < 0.3:
                    pts = world.fault_points(rf, "kbd") if rf.get("sites") else []
                    steps, nid = self.kid(r, base, objs, calls, nid + 1, nth > 1)
                    mids.append({"in": sid, "k": world.pick_point(r, pts, k) or 1, "id": nid, "steps": steps})
                    nid += 1
                elif r.random() < 0.12:
                    f = story.fault(r, rf)
                    if f:
                        faults.append([t, sid] + f)
                sid += 1
                if r.random() < (0.45 if nth > 1 else 0.35):
                    steps, nid = self.kid(r, base, objs, calls, nid + 1, nth > 1)
                    threads[t].append({"do": "fork", "id": nid, "steps": steps})
                    nid += 1
        if not mids and not any(st["do"] == "fork" for th in threads for st in th):
            steps, nid = self.kid(r, r.choice(fam), objs, calls, nid + 1, nth > 1)
            threads[-1].append({"do": "fork", "id": nid, "steps": steps})
        # who goes on first after a fork, and when the other one does
        for t in range(nth):
            for j in range(len(threads[t]) - 1, -1, -1):
                st = threads[t][j]
                for f in [m for m in mids if m["in"] == st["id"]] + ([st] if st["do"] == "fork" else []):
                    if r.random() < 0.35:
                        f["wait"] = True
                    while (f.get("wait") or any(s["do"] == "hand" for s in f["steps"])) and r.random() < 0.4:
                        nid += 1
                        threads[t].insert(r.randint(j + 1, len(threads[t])), {"do": "resume", "of": f["id"], "id": nid})
        return {"threads": threads, "faults": faults, "switches": sw, "mids": mids, "share": r.random() < 0.4}

    def execute(self, sc):
        warnings.filterwarnings("ignore", message=".*multi-threaded.*fork")
        s = S(sc)
        rec = s.go()
        while s.alive:
            s.resume(sorted(s.alive)[0])
        rec["kids"] = s.kids
        rec["seen"] = s.seen
        rec["handed"] = s.handed
        return rec

    def shrink(self, sc):
        for j in range(len(sc["mids"])):
            c = data.deep(sc)
            del c["mids"][j]
            yield c
        for c in Prop.shrink(self, sc):
            ids = set(st["id"] for th in c["threads"] for st in th)
            c["mids"] = [m for m in c["mids"] if m["in"] in ids]
            yield c
        for get in [lambda c, j=j: c["mids"][j] for j in range(len(sc["mids"]))] + [
                lambda c, t=t, j=j: c["threads"][t][j] for t, th in enumerate(sc["threads"])
                for j, st in enumerate(th) if st["do"] == "fork"]:
            n = len(get(sc)["steps"])
            for a, b in _chunks(n):
                c = data.deep(sc)
                del get(c)["steps"][a:b]
                yield c

    def judge(self, sc, rec, ctx):
        viol, ops = [], {}
        steps = {}
        for th in sc["threads"]:
            for st in th:
                steps[st["id"]] = st
                for x in st.get("steps", ()):
                    steps[x["id"]] = x
        for m in sc["mids"]:
            steps[m["id"]] = m
            for x in m["steps"]:
                steps[x["id"]] = x
        calls = {st["o"]: st["c"] for th in sc["threads"] for st in th if st["do"] == "new"}
        multi = len(sc["threads"]) > 1

        def one(st, o, where, ran):
            oc = o["o"]
            name = {"call": lambda: st["c"]["op"], "new": lambda: st["c"]["op"]}.get(st["do"], lambda: st["do"])()
            ops[name] = ops.get(name, 0) + 1
            if oc[0] == "exc" and oc[1] == "Deadlock":
                viol.append({"clause": "deadlock", "detail": "%s, %s, waits for ever for a lock" % (name, where)})
            if o["fired"] and oc[0] == "exc" or viol:
                return
            if st["do"] == "call":
                if not ctx.refs.matches(st["c"], st.get("ent"), oc):
                    ref = ctx.refs.get(st["c"], st.get("ent"))["o"]
                    viol.append({"clause": "differs", "detail": "%s, %s: alone it %s, here it %s" % (
                        name, where, data.brief(ref), data.brief(oc))})
            elif st["do"] == "run" and st["o"] in calls:
                c = calls[st["o"]]
                ref = story.new_ref(ctx, c)
                ok = data.same_outcome(oc, ref[1]["o"])
                if ok and oc[0] == "ok" and o.get("attrs") is not None and not multi:
                    ok = all(data.same(ref["attrs"][k], o["attrs"][k]) for k in ATTRS)
                if not ok:
                    viol.append({"clause": "differs", "detail": "run() of %s, %s: on a new object it %s, here it %s" % (
                        c["op"], where, data.brief(ref[1]["o"]), data.brief(oc))})
            elif st["do"] == "plot" and st["o"] in calls and "pic" in o and ran is not None:
                ref = story.plot_ref(ctx, calls[st["o"]], ran, st["c"], None)
                if ref["o"][0] == "ok":
                    rp = ("seq", list(ref["figs"].values()))
                    if not figs.same(o["pic"], rp):
                        viol.append({"clause": "picture", "detail": "plot of %s, %s, drew another picture: %s" % (
                            calls[st["o"]]["op"], where, data.diff(rp, o["pic"])[:250])})
        # children first: what they saw comes before what their parent did next
        kids = {sid: k for _, sid, k in rec["kids"]}
        for who, sid, k in rec["seen"]:
            viol.append({"clause": "shared", "detail": "%d arrays that one process (%s) held were changed by what the other did "
                         "(step %d)" % (k, who, sid)})
        ran = 0

        def child(f, where):
            k = kids.get(f["id"])
            if k is None:
                return
            if isinstance(k, str):
                viol.append({"clause": "hang" if k != "died" else "crash", "detail": "the process forked %s %s" % (where, k)})
                return
            x = ran
            for st in ([steps[f["in"]]] if "in" in f else []) + f["steps"]:
                if st["id"] in k:
                    one(st, k[st["id"]], "in a process forked %s" % where, x)
                    if st["do"] == "run":
                        x = 1 if k[st["id"]]["o"][0] == "ok" else None
        for t, th in enumerate(sc["threads"]):
            for st in th:
                if st["do"] == "fork":
                    child(st, "by thread %d at step %d" % (t, st["id"]))
                    continue
                for m in sc["mids"]:
                    if m["in"] == st["id"]:
                        child(m, "in the middle of step %d" % st["id"])
                o = rec["out"].get((t, st["id"]))
                if o is None:
                    continue
                one(st, o, "step %d of thread %d of the first process" % (st["id"], t), ran)
                if st["do"] == "run":       # what an aborted run() leaves behind is the business of C03: no picture then
                    ran = 1 if o["o"][0] == "ok" else None
        n = sum(len(k) for _, _, k in rec["kids"] if not isinstance(k, str))
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": n > 0, "hand_overs": rec["handed"], "forks": len(rec["kids"]), "calls_in_children": n,
                      "switches": len(rec["trace"]),
                      "faults": dict(story.count_faults(rec), fork_between_calls=sum(
                          1 for _, sid, _ in rec["kids"] if "in" not in steps[sid]), fork_in_a_call=sum(
                          1 for _, sid, _ in rec["kids"] if "in" in steps[sid])),
                      "sites": story.fault_sites(rec)}

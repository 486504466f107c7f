"""C03: a representation can be run any number of times."""
from . import catalog, data, focus, sched, story
from .props_base import Prop


class S(story.Story):
    def after(self, t, st, oc, v):
        if st["do"] == "run" and oc[0] == "ok":
            self.out[(t.tid, st["id"])]["attrs"] = story.attrs(self.objs[st["o"]])


def clean(c):
    """Arguments as the object saw them (the reference reads the same values from fresh arrays)."""
    return c


class PROP(Prop):
    id = "C03"
    hang_is_violation = True
    quick = 2600
    thorough = 40000
    variants = 40
    rule = ("A run builds 1-3 representation objects (of one class with equal or near-identical arguments, or of "
            "different classes, sometimes sharing argument arrays) and drives them through 3-10 steps: run, plot with "
            "seeded options, the caller overwriting a returned matrix, runs and plots aborted by an interrupt or an "
            "allocation failure at a planned instruction, plots whose display fails. Every run() that completes is "
            "compared with the first run() of a fresh object in a pristine process: result and tfr/ts/freqs "
            "attributes. Non-trivial: some object completed a run after at least one earlier step on it. Distinct: by "
            "the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        nobj = r.choice([1, 1, 1, 2, 2, 3])
        steps, faults = [], []
        calls = {}
        sid = 0
        base = self.var(r, catalog.pick_op(r, catalog.CLS, True))
        for j in range(nobj):
            x = r.random()
            if j == 0 or x < 0.3:
                c = data.deep(base)
            elif x < 0.7:
                c = catalog.neighbor(base, story.gen_rng("nb", self.seed, r.randrange(6), data.canon(base)))
            else:
                c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
            calls["o%d" % j] = c
            steps.append({"do": "new", "o": "o%d" % j, "c": c, "id": sid})
            sid += 1
        n = r.choice([3, 4, 5, 6, 8, 10])
        k = [x for x in focus.INTS if 3 <= x <= 30]
        if k and r.random() < 0.2:
            n = 2 * r.choice(k) + 2
        runs = {}
        for _ in range(n):
            o = "o%d" % r.randrange(nobj)
            x = r.random()
            if x < 0.55:
                st = {"do": "run", "o": o, "id": sid}
                if r.random() < 0.3:
                    f = story.fault(r, story.new_ref(ctx, calls[o])[1])
                    if f:
                        faults.append([0, sid] + f)
                runs.setdefault(o, []).append(sid)
            elif x < 0.72 and runs:
                oo = r.choice(sorted(runs))
                st = {"do": "scrib", "of": r.choice(runs[oo]), "i": r.choice([0, 0, 3]), "s": r.randrange(3), "id": sid}
            elif x < 0.95:
                p = story.plot_kw(r, calls[o]["op"], calls[o])
                st = {"do": "plot", "o": o, "c": p, "id": sid}
                if r.random() < 0.4:
                    st["ax"] = "3d" if p["kw"].get("kind") in ("surf", "wireframe") else "2d"
                if r.random() < 0.3:
                    faults.append([0, sid, r.choice(["mem", "kbd"]), r.randint(1, 170)])
                elif r.random() < 0.2:
                    p["kw"]["show"] = True
                    st["showfail"] = True
            else:
                st = {"do": "gc", "id": sid}
            steps.append(st)
            sid += 1
        for o in sorted(calls):
            if r.random() < 0.8:
                steps.append({"do": "run", "o": o, "id": sid})
                sid += 1
        return {"threads": [steps], "faults": faults, "share": r.random() < 0.4}

    def execute(self, sc):
        return S(sc).go()

    def judge(self, sc, rec, ctx):
        viol = []
        calls, used, ops = {}, {}, {}
        again = 0
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if st["do"] == "new":
                calls[st["o"]] = st["c"]
                ops[st["c"]["op"]] = ops.get(st["c"]["op"], 0) + 1
                continue
            if o is None or st.get("o") not in calls:
                continue
            ops[st["do"]] = ops.get(st["do"], 0) + 1
            c = calls[st["o"]]
            if st["do"] == "run":
                if o["fired"] and o["o"][0] == "exc":
                    used[st["o"]] = used.get(st["o"], 0) + 1
                    continue
                again += used.get(st["o"], 0) > 0
                ref = story.new_ref(ctx, c)
                if not self.agrees(ctx, c, o, ref) and not viol:
                    r1 = ref[1]["o"]
                    what = "run() %s; the first run() of a fresh object %s" % (data.brief(o["o"]), data.brief(r1))
                    if data.same_outcome(o["o"], r1):
                        k = [k for k in ref["attrs"] if not data.same(ref["attrs"][k], o["attrs"][k])][0]
                        what = "after run() attribute %s is %s, on a fresh object %s" % (
                            k, data._b(o["attrs"][k])[:200], data._b(ref["attrs"][k])[:200])
                    viol.append({"clause": "run-again", "detail": "%s, after %d earlier steps on the object: %s" % (
                        c["op"], used.get(st["o"], 0), what)})
            used[st["o"]] = used.get(st["o"], 0) + 1
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": again > 0, "runs_after_earlier_use": again,
                      "faults": dict(story.count_faults(rec), display=sum(
                          1 for st in sc["threads"][0] if st.get("showfail"))),
                      "sites": story.fault_sites(rec),
                      "ok": sum(o["o"][0] == "ok" for o in rec["out"].values()),
                      "exc": sum(o["o"][0] == "exc" for o in rec["out"].values())}

    def agrees(self, ctx, c, o, ref):
        if data.same_outcome(o["o"], ref[1]["o"]):
            if o["o"][0] == "ok":
                return all(data.same(ref["attrs"][k], o["attrs"][k]) for k in ref["attrs"])
            return True
        return False

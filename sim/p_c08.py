"""C08: failures surface to the caller and the call can be retried."""
from . import catalog, data, focus, hist, sched, story, world
from .p_c01 import with_entropy
from .props_base import Prop


class PROP(Prop):
    id = "C08"
    quick = 20000
    thorough = 150000
    variants = 24
    hang_is_violation = True
    rule = ("A run makes one call (or an object's construction and run, or a plot) that meets an interrupt or an "
            "allocation failure at a planned bytecode instruction (chosen by site, so rare sites are as likely as hot "
            "loops), up to three failing attempts in a row, then the same call again without a fault. Non-trivial: a "
            "fault fired. Distinct: by the whole scenario (call, fault kinds and instructions).")
    measure = "distinct (code site, fault kind) pairs are in distinct_fault_sites; histories by outcome hash"

    def rare(self, r, name, c, ctx):
        """A site that some of several argument sets reach (branches that few calls take are as
        likely as the common path), and a call that reaches it."""
        kind = r.choice(["kbd", "mem", "mem"])
        found = {}
        for n in [c] + [self.var(r, name) for _ in range(4)]:
            for s in world.fault_points(ctx.refs.get(n, None, True), kind):
                found.setdefault((s[0], s[1]), []).append((n, s))
        if not found:
            return c, None
        g = sorted(k for k in found if k in sched.GUARDED)
        n, s = r.choice(found[r.choice(g if g and r.random() < 0.4 else sorted(found))])
        return n, [kind, s[2] if r.random() < 0.6 else r.randint(s[2], s[3])]

    def gen(self, r, i, ctx):
        x = r.random()
        steps, faults = [], []
        if x < 0.74:
            # operations round-robin, so that every one meets faults at many sites
            names = [n for n in catalog.ALL if not (catalog.OPS[n].tags.get("fails") and r.random() < 0.8)]
            name = names[(i * 7) % len(names)] if r.random() < (0.2 if focus.OPS else 0.5) else catalog.pick_op(r, names)
            c = self.var(r, name)
            first = None
            if r.random() < 0.5 and not catalog.OPS[name].tags.get("rng"):
                c, first = self.rare(r, name, c, ctx)
            st = with_entropy(r, {"do": "call", "c": c, "id": 0})
            ref = ctx.refs.get(c, st.get("ent"), True)
            tries = r.choice([1, 1, 1, 2, 3])
            for j in range(tries + 1):
                s = data.deep(st)
                s["id"] = j
                s["cap"] = 40 * ref["k"] + 200000
                steps.append(s)
                if j < tries:
                    f = first if j == 0 and first else story.fault(r, ref)
                    if f:
                        faults.append([0, j] + f)
            if r.random() < 0.3:
                n = catalog.neighbor(c, story.gen_rng("nb", self.seed, r.randrange(4), data.canon(c)))
                s = with_entropy(r, {"do": "call", "c": n, "id": 9})
                steps.insert(-1, s)
            return {"threads": [steps], "faults": faults}
        c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
        ref = story.new_ref(ctx, c)
        steps.append({"do": "new", "o": "o", "c": c, "id": 0})
        if r.random() < 0.25:
            f = story.fault(r, ref[0])
            if f:
                faults.append([0, 0] + f)
                steps.append({"do": "new", "o": "o", "c": c, "id": 1})
        for j in range(r.choice([1, 2])):
            steps.append({"do": "run", "o": "o", "id": 2 + j})
            f = story.fault(r, ref[1])
            if f:
                faults.append([0, 2 + j] + f)
        steps.append({"do": "run", "o": "o", "id": 5})
        if x > 0.93:
            p = story.plot_kw(r, c["op"], c)
            f = story.fault(r, story.plot_ref(ctx, c, 1, p, None))
            if f:
                faults.append([0, 6] + f)
            steps.append({"do": "plot", "o": "o", "c": p, "id": 6})
            steps.append({"do": "plot", "o": "o", "c": p, "id": 7})
        return {"threads": [steps], "faults": faults}

    def execute(self, sc):
        return story.Story(sc).go()

    def judge(self, sc, rec, ctx):
        viol = []
        ops = {}
        objs = {}
        fired = {(f[0], f[1]): (f[2], f[4], f[5]) for f in rec["fired"]}
        swallowed = 0
        for st in sc["threads"][0]:
            o = rec["out"].get((0, st["id"]))
            if st["do"] == "new":
                objs[st["o"]] = st["c"]
            if o is None:
                continue
            c = st["c"] if st["do"] == "call" else objs[st["o"]]
            name = c["op"] if st["do"] == "call" else "%s of %s" % (st["do"], c["op"])
            ops[name] = ops.get(name, 0) + 1
            oc = o["o"]
            f = fired.get((0, st["id"]))
            if oc[0] == "exc" and oc[1] in ("SimHang", "Deadlock"):
                viol.append({"clause": "hang", "detail": "%s never finished (%s)" % (name, oc[2])})
                continue
            if f and f[0] == "kbd":
                if not (oc[0] == "exc" and oc[1] == "KeyboardInterrupt"):
                    viol.append({"clause": "swallowed", "detail": "%s: an interrupt at %s did not reach the caller: the call %s" % (
                        name, sched.site_name(f[1], f[2]), data.brief(oc))})
                continue
            if f and oc[0] == "exc":
                continue
            swallowed += bool(f)
            if st["do"] == "call":
                good = ctx.refs.matches(c, st.get("ent"), oc)
                ref = ctx.refs.get(c, st.get("ent"))["o"]
            elif st["do"] == "plot":
                if rec["out"].get((0, 5), {"o": ("exc",)})["o"][0] != "ok":
                    continue
                ref = story.plot_ref(ctx, c, 1, st["c"], None)["o"]
                good = oc[0] == ref[0] and (oc[0] == "ok" or oc[1] == ref[1])
            else:
                ref = story.new_ref(ctx, c)[0 if st["do"] == "new" else 1]["o"]
                good = data.same_outcome(oc, ref)
            if not good and not viol:
                where = data.diff(ref[1], oc[1]) if ref[0] == oc[0] == "ok" else ""
                if f:
                    viol.append({"clause": "wrong-answer", "detail": "%s met an allocation failure at %s and %s; without it, it %s %s" % (
                        name, sched.site_name(f[1], f[2]), data.brief(oc), data.brief(ref), where)})
                else:
                    viol.append({"clause": "retry", "detail": "%s (step %d) after %d aborted calls %s; normally it %s %s" % (
                        name, st["id"], len(fired), data.brief(oc), data.brief(ref), where)})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": bool(fired), "faults": story.count_faults(rec),
                      "sites": [(f[4], f[5], f[2]) for f in rec["fired"]],
                      "allocation_failures_survived_with_a_result": swallowed}

"""C01: concurrent callers do not disturb each other."""
import random

from . import catalog, data, world
from .props_base import Prop, merge


def pick_calls(prop, r, n, names, related=0.5):
    """n calls: a related family (same op, near-identical arguments) or a mix."""
    calls = []
    base = None
    fam = r.random() < related
    pool = None
    if not fam and r.random() < 0.5:
        pool = [catalog.pick_op(r, names) for _ in range(2)]
    for _ in range(n):
        if fam and base is not None:
            x = r.random()
            if x < 0.3:
                calls.append(data.deep(base))
            elif x < 0.75:
                calls.append(catalog.neighbor(base, random.Random("nb/%d/%d/%s" % (
                    prop.seed, r.randrange(6), data.canon(base)))))
            else:
                calls.append(prop.var(r, base["op"]))
            continue
        name = r.choice(pool) if pool else catalog.pick_op(r, names)
        c = prop.var(r, name)
        base = base or c
        calls.append(c)
    return calls


def with_entropy(r, st):
    if catalog.OPS[st["c"]["op"]].tags.get("rng"):
        st["ent"] = {"s": r.randrange(40)}
    return st


class PROP(Prop):
    id = "C01"
    quick = 6000
    thorough = 40000
    variants = 10
    hang_is_violation = True
    rule = ("A run has 2-4 simulated caller threads with 1-3 calls each, drawn from all public operations "
            "(half the runs: one operation with equal or near-identical arguments, possibly sharing the argument "
            "arrays; a third: several threads calling run() on one representation), a seeded plan of thread "
            "switches at bytecode instructions and, in a third of the runs, an interrupt or allocation failure. "
            "Non-trivial: at least one switch happened inside a call of tftb while another thread was also inside "
            "one. Distinct: by the whole scenario.")
    measure = "hash of the sequence of (thread, step, instruction, next thread) switches actually taken"

    def gen(self, r, i, ctx):
        nth = r.choice([2, 2, 2, 3, 3, 4])
        objs = {}
        steps = [[] for _ in range(nth)]
        sid = 0
        mode = r.random()
        if mode < 0.33:
            nobj = 1 if r.random() < 0.8 else 2
            for j in range(nobj):
                for _ in range(6):      # mostly representations whose run() works
                    c = objs["o%d" % j] = self.var(r, catalog.pick_op(r, catalog.CLS))
                    if ctx.refs.get(c, None, True)["o"][0] == "ok" or r.random() < 0.1:
                        break
            for t in range(nth):
                for _ in range(r.choice([1, 1, 2])):
                    if r.random() < 0.8:
                        steps[t].append({"do": "run", "o": "o%d" % r.randrange(nobj), "id": sid})
                    else:
                        c = self.var(r, objs["o0"]["op"])
                        steps[t].append({"do": "call", "c": c, "id": sid})
                    sid += 1
        else:
            names = catalog.ALL
            per = [r.choice([1, 1, 2, 3]) for _ in range(nth)]
            calls = pick_calls(self, r, sum(per), names, 0.6)
            j = 0
            for t in range(nth):
                for _ in range(per[t]):
                    steps[t].append(with_entropy(r, {"do": "call", "c": calls[j], "id": sid}))
                    j += 1
                    sid += 1
        sc = {"threads": steps, "objs": objs, "share": r.random() < 0.7}
        info = {}
        for t, th in enumerate(steps):
            for st in th:
                ref = self.ref(sc, st, ctx, True)
                info[(t, st["id"])] = (ref["k"], ref["sites"])
                st["cap"] = 40 * ref["k"] + 200000
        sc["switches"], sc["style"] = world.gen_switches(r, sc, info, "hot" if objs and r.random() < 0.4 else None)
        sc["faults"] = []
        if r.random() < 0.33:
            t = r.randrange(nth)
            st = r.choice(steps[t])
            kind = r.choice(["mem", "kbd"])
            ref = self.ref(sc, st, ctx, True)
            k = world.pick_point(r, world.fault_points(ref, kind), ref["k"], True)
            if k:
                sc["faults"].append([t, st["id"], kind, k])
        return sc

    def call_of(self, sc, st):
        return st["c"] if st["do"] == "call" else sc["objs"][st["o"]]

    def ref(self, sc, st, ctx, record=False):
        return ctx.refs.get(self.call_of(sc, st), st.get("ent"), record)

    def execute(self, sc):
        rec = world.run_threads(sc)
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        ops = {}
        ok = exc = 0
        for t, th in enumerate(sc["threads"]):
            for st in th:
                c = self.call_of(sc, st)
                ops[c["op"]] = ops.get(c["op"], 0) + 1
                o = rec["out"].get((t, st["id"]))
                if o is None:
                    viol.append({"clause": "lost-call", "detail": "%s in thread %d never finished" % (c["op"], t)})
                    continue
                oc = o["o"]
                if oc[0] == "exc" and oc[1] == "SkipOp":
                    continue
                ok += oc[0] == "ok"
                exc += oc[0] == "exc"
                if o["fired"] and oc[0] == "exc":
                    continue
                if not ctx.refs.matches(c, st.get("ent"), oc):
                    ref = ctx.refs.get(c, st.get("ent"))["o"]
                    where = data.diff(ref[1], oc[1]) if ref[0] == oc[0] == "ok" else ""
                    viol.append({"clause": "differs", "detail": (
                        "%s in thread %d (step %d): alone it %s, among %d threads it %s %s" % (
                            c["op"], t, st["id"], data.brief(ref), len(sc["threads"]), data.brief(oc), where))})
        inside = [x for x in rec["trace"] if x[3] >= 0]
        both = len(set(x[0] for x in inside)) > 1
        fk = {}
        for f in rec["fired"]:
            fk[f[2]] = fk.get(f[2], 0) + 1
        st = {"events": rec["events"], "hash": rec["hash"], "nontrivial": both, "ops": ops, "ok": ok, "exc": exc,
              "switches": len(rec["trace"]), "switches_inside_calls": len(inside), "faults": fk,
              "sites": [(f[4], f[5]) for f in rec["fired"]],
              "runs_sharing_arrays": int(bool(sc.get("share"))), "runs_sharing_an_object": int(bool(sc.get("objs")))}
        return viol, st

"""C10: every random call draws fresh, independent randomness."""
import hashlib

import numpy as np

from . import catalog, data, entropy, focus, hist, p_c07, story, world
from .props_base import Prop

CONT = ("noisecu", "noisecg", "dopnoise", "anaask")


def nsym(c):
    """Number of symbols of a keyed signal."""
    n = c["args"][0]
    nc = c["kw"].get("n_comp")
    if not nc:
        return 0
    return -(-n // nc)


def rich(c):
    """Is a coincidence of two independent results of this call out of the question?"""
    name = c["op"].split(".")[-1]
    if name == "anaask":
        return True
    if name in CONT:
        return c["args"][0] >= 5
    if name == "anafsk" and c["kw"].get("Nbf", 4) < 2:
        return False
    return nsym(c) >= 64


def varied(c):
    """Does the result depend on the stream at all?"""
    name = c["op"].split(".")[-1]
    if name in ("noisecu", "noisecg", "dopnoise"):
        return c["args"][0] >= 3
    return not (name == "anafsk" and c["kw"].get("Nbf", 4) < 2)


def digest(v):
    h = hashlib.sha1()
    for a in data.arrays_in(v):
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def _many(c, ents):
    """The call under each of several streams, in one process."""
    out = []
    for e in ents:
        entropy.install(e)
        try:
            out.append(digest(world.invoke(c["op"], world.Args(c))))
        except Exception as x:
            out.append("exc:" + type(x).__name__)
    return out


def rich_call(r):
    name = r.choice(("noisecu", "noisecg", "dopnoise", "anaask", "anabpsk", "anafsk", "anaqpsk"))
    n = r.choice([64, 65, 80, 100, 128])
    if name in ("noisecu", "noisecg"):
        return p_c07.shortcall(name, r.choice([5, 8, 16, n]))
    if name == "dopnoise":
        return p_c07.shortcall(name, 16, 200.0, 30.0, 10.0, 20.0)
    kw = {"n_comp": 1}
    if name == "anafsk":
        kw["Nbf"] = r.choice([2, 4, 8])
    elif r.random() < 0.5:
        kw["f0"] = 0.25
    return p_c07.shortcall(name, n, **kw)


class S(story.Story):
    keep = False

    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.dig = []

    def after(self, t, st, oc, v):
        if st.get("free") and oc[0] == "ok":
            self.dig.append((t.tid, st["id"], digest(v)))
            if not st.get("full"):
                self.out[(t.tid, st["id"])]["o"] = ("ok", None)


class PROP(Prop):
    id = "C10"
    hang_is_violation = True
    quick = 3000
    thorough = 50000
    variants = 30
    rule = ("Three kinds of run. (a) A history of random calls (1-3 threads, repeated and neighbouring arguments, "
            "interrupts and allocation failures inside earlier ones), each preceded by its own chosen stream: every "
            "completed result must be that call's result under its own stream in a pristine process. (b) 10-120 calls "
            "of a few generators from one running stream, in 1-3 threads: results of the same call never repeat (only "
            "calls for which a coincidence has probability below 1e-18). (c) One call under 40 streams: not always the "
            "same result. Non-trivial: at least two random results compared. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, thread switches)"

    def gen(self, r, i, ctx):
        x = r.random()
        if x < 0.12:
            c = p_c07.gen_call(r) if r.random() < 0.6 else self.var(r, r.choice(focus.some(r, catalog.RNG)))
            b = r.randrange(10 ** 6)
            return {"threads": [], "many": c, "ents": [{"s": b + j} for j in range(40)]}
        nth = r.choice([1, 1, 1, 2, 2, 3])
        if x < 0.45:
            calls = [rich_call(r) for _ in range(r.choice([1, 1, 2, 3]))]
            n = r.choice([10, 20, 40, 120]) // nth
            threads, faults = [], []
            sid = 0
            for t in range(nth):
                steps = []
                for _ in range(n):
                    st = {"do": "call", "c": data.deep(r.choice(calls)), "free": True, "id": sid}
                    if r.random() < 0.08:
                        f = story.fault(r, ctx.refs.get(st["c"], {"s": 1}, True))
                        if f:
                            faults.append([t, sid] + f)
                    steps.append(st)
                    sid += 1
                    if r.random() < 0.03:
                        steps.append({"do": "clock", "dt": r.choice([0.5, 3600.0, -7200.0]), "id": sid})
                        sid += 1
                threads.append(steps)
            sc = {"threads": threads, "faults": faults, "start": {"s": r.randrange(10 ** 6)}}
        else:
            fam = hist.family(self, r, catalog.RNG, r.choice([1, 2, 3, 5]), 0.8)
            if r.random() < 0.4:
                fam = [p_c07.gen_call(r) for _ in range(r.choice([1, 2, 3]))]
            ents = [{"s": r.randrange(30)} for _ in range(r.choice([2, 3, 6]))]
            threads, faults = [], []
            sid = 0
            for t in range(nth):
                steps = []
                for _ in range(r.choice([2, 4, 8, 16, 40]) // nth + 1):
                    c = data.deep(r.choice(fam))
                    st = {"do": "call", "c": c, "ent": r.choice(ents), "full": True, "id": sid}
                    if r.random() < 0.2:
                        f = story.fault(r, ctx.refs.get(c, st["ent"], True))
                        if f:
                            faults.append([t, sid] + f)
                    steps.append(st)
                    sid += 1
                threads.append(steps)
            sc = {"threads": threads, "faults": faults}
        if nth > 1:
            info = {}
            for t, th in enumerate(sc["threads"]):
                for st in th:
                    if st["do"] == "call":
                        ref = ctx.refs.get(st["c"], st.get("ent") or {"s": 1}, True)
                        info[(t, st["id"])] = (ref["k"], ref["sites"])
                    else:
                        info[(t, st["id"])] = (1, [])
            sc["switches"], _ = world.gen_switches(r, sc, info)
        return sc

    def execute(self, sc):
        if "many" in sc:
            return {"digs": _many(sc["many"], sc["ents"])}
        world.install_clock()
        if "start" in sc:
            entropy.install(sc["start"])
        s = S(sc)
        rec = s.go()
        rec["dig"] = s.dig
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        if "many" in sc:
            c, d = sc["many"], rec["digs"]
            ok = [x for x in d if not x.startswith("exc")]
            if len(ok) >= 40 and varied(c):
                if len(set(ok)) == 1:
                    viol.append({"clause": "constant", "detail": "%s returns the same result under %d different random streams" % (
                        world_call(c), len(ok))})
                elif rich(c) and len(set(ok)) < len(ok):
                    viol.append({"clause": "constant", "detail": "%s returns only %d different results under %d different random "
                                 "streams" % (world_call(c), len(set(ok)), len(ok))})
            return viol, {"events": 0, "hash": data.canon(c), "nontrivial": len(ok) > 1, "streams_compared": len(ok),
                          "ops": {c["op"]: len(d)}}
        ops, n, calls = {}, 0, {}
        for t, th in enumerate(sc["threads"]):
            for st in th:
                o = rec["out"].get((t, st["id"]))
                if o is None:
                    continue
                c = st["c"]
                ops[c["op"]] = ops.get(c["op"], 0) + 1
                calls[(t, st["id"])] = c
                if st.get("ent") is None or (o["fired"] and o["o"][0] == "exc"):
                    continue
                n += 1
                if not viol and not ctx.refs.matches(c, st["ent"], o["o"]):
                    viol.append({"clause": "stream", "detail": (
                        "%s (thread %d, step %d) %s; drawing only from its own stream it %s" % (
                            world_call(c), t, st["id"], data.brief(o["o"]), data.brief(ctx.refs.get(c, st["ent"])["o"])))})
        seen = {}
        for t, sid, dg in rec["dig"]:
            c = calls[(t, sid)]
            if not rich(c):
                continue
            n += 1
            k = (data.canon(c), dg)
            if k in seen and not viol:
                viol.append({"clause": "repeat", "detail": "%s returned the same random signal at thread %d step %d and at "
                             "thread %d step %d, from one running stream" % ((world_call(c),) + seen[k] + (t, sid))})
            seen[k] = (t, sid)
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops, "nontrivial": n >= 2,
                      "random_results_compared": n, "faults": dict(story.count_faults(rec), switches=len(rec["trace"])),
                      "sites": story.fault_sites(rec)}


def world_call(c):
    return "%s(%s)" % (c["op"], ", ".join([str(a) for a in c["args"]] + ["%s=%s" % kv for kv in sorted(c["kw"].items())]))

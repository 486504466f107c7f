"""C12: undersampling is reported on every call that causes it."""
import threading
import warnings

import numpy as np

from . import catalog, data, focus, hist, mine, story, world
from .props_base import Prop

G = "generators."


def U(r, a, b, nd=4):
    return round(r.uniform(a, b), nd)


def gen_call(r):
    """A frequency law that stays inside, leaves at one end, in the middle, or by a single sample."""
    n = r.choice([8, 12, 16, 16, 20, 31, 32, 40, 64, 100, 128, 256]) if r.random() < 0.93 else r.choice([500, 512, 1000, 1024])
    if focus.INTS and r.random() < 0.3:
        n = max(5, mine.near(r, 3000) or n)
    if r.random() < 0.06:       # just inside or outside, by very little, or wholly outside
        e = r.choice([1, -1]) * 10.0 ** -r.uniform(1, 8)
        y = r.random()
        if y < 0.35:            # ends at 0.5 + e, or at -e
            return call("fmpar", n, [0.25, 0.25 / (n - 1) * (1 + 4 * e) * r.choice([1, -1]), 0.0])
        if y < 0.55:
            return call("fmpar", n, [r.choice([0.5 + e, -e, 0.7, -0.3, 3.0]), 0.0, 0.0])
        if y < 0.75:
            return call("fmhyp", n, [1, 0.5 + e], [n, U(r, 0.02, 0.28)])
        if y < 0.9:
            return call("fmpower", n, 1, [1, 0.5 + e, n, U(r, 0.05, 0.2)])
        return call("fmpower", n, r.choice([1, 2, 0.5]), [r.choice([-0.4, 0.9, 1.5]), r.choice([-0.2, 0.1])])
    x = r.random()
    kind = r.choice(["fmhyp", "fmpar", "fmpower"])
    if kind == "fmpar":
        if x < 0.3:      # parabola inside: vertex form
            v, peak, dip = U(r, 0.2, 0.8), U(r, 0.3, 0.49), U(r, 0.01, 0.2)
            a2 = -dip / n ** 2
            t0 = v * n
            co = [peak + a2 * t0 ** 2, -2 * a2 * t0, a2]
            return call(kind, n, [round(c, 12) for c in co])
        if x < 0.45:     # only one sample, next to the vertex, is outside
            k = r.randrange(1, n - 1)
            off = r.choice([-1, 1]) * r.uniform(0.02, 0.45)
            a2 = -r.choice([0.4, 0.1, 0.02, 0.3 / n ** 2, 1.0 / n ** 2])
            v = k + off
            over = -a2 * off ** 2 + r.uniform(0.05, 0.9) * -a2 * ((1 - abs(off)) ** 2 - off ** 2)
            top = 0.5 + over
            if r.random() < 0.4:
                a2, top = -a2, -over
            return call(kind, n, [top + a2 * v ** 2, -2 * a2 * v, a2])
        if x < 0.65:     # leaves only around an interior vertex
            over = U(r, 0.001, 0.1)
            t0 = U(r, 0.25, 0.75) * n
            a2 = -r.uniform(1.5, 3.0) * over / (0.25 * n) ** 2
            top = 0.5 + over
            if r.random() < 0.5:
                a2, top = -a2, -over
            return call(kind, n, [top + a2 * t0 ** 2, -2 * a2 * t0, a2])
        if x < 0.8:      # three points
            pts = [1, U(r, 0.05, 0.45), n // 2, U(r, 0.05, 0.6), n, U(r, -0.05, 0.45)]
            return call(kind, n, pts)
        return call(kind, n, [U(r, 0.1, 0.6), round(r.uniform(-0.6, 0.6) / n, 6), round(r.uniform(-0.3, 0.3) / n ** 2, 8)])
    if kind == "fmhyp":
        if x < 0.4:
            return call(kind, n, [1, U(r, 0.3, 0.49)], [n, U(r, 0.02, 0.28)])
        if x < 0.7:      # above only at the first samples
            return call(kind, n, [2, U(r, 0.4, 0.5)], [n, U(r, 0.02, 0.2)])
        return call(kind, n, [r.randrange(1, 4), U(r, 0.2, 0.5)], [r.randrange(5, n + 1), U(r, -0.2, 0.2)])
    if x < 0.45:
        k = -U(r, 0.3, 2.0, 2)
        return call(kind, n, k, [U(r, 0.05, 0.2), round(0.25 / n ** (-k), 12)])
    if x < 0.7:          # growing law that leaves at the end, possibly by one sample
        k = -U(r, 0.5, 2.0, 2)
        f0 = U(r, 0.05, 0.2)
        lim = r.choice([n - 1, n - 2, n * 0.8])
        return call(kind, n, k, [f0, (0.5 - f0) / max(lim, 1.0) ** (-k) * r.choice([1.0001, 1.01, 0.999])])
    if x < 0.8:          # far outside at the last samples only, or at the first only
        k = r.choice([1, 2, 3, 5, 8, 12, 20])
        if r.random() < 0.7:
            return call(kind, n, -k, [U(r, 0.05, 0.2), r.choice([0.4, 0.6, 1.0, 3.0, -0.4, -2.0]) / float(n) ** k])
        return call(kind, n, k, [U(r, 0.05, 0.2), r.choice([0.6, 2.0, -0.5])])
    k = U(r, 0.2, 2.2, 2) if r.random() < 0.8 else 1
    return call(kind, n, k, [1, U(r, 0.3, 0.5), n, U(r, 0.05, 0.2)] if r.random() < 0.5 else [U(r, -0.1, 0.4), U(r, -0.3, 0.3)])


def call(name, *args):
    return {"op": G + name, "args": list(args), "kw": {}}


def leaves(oc):
    """True / False / None (too close to call) from a returned law."""
    if oc[0] != "ok" or oc[1][0] != "seq" or oc[1][1][1][0] != "nd":
        return None
    law = oc[1][1][1][1]
    if np.any(np.isnan(law)):
        return None
    d = np.minimum(law, 0.5 - law)
    if np.min(d) < -1e-9:
        return True
    if np.min(d) > 1e-9:
        return False
    return None


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.seen = {}
        self.real = warnings.showwarning
        warnings.showwarning = self.show

    def show(self, message, category, filename, lineno, file=None, line=None):
        self.seen.setdefault(threading.get_ident(), []).append(category.__name__)

    def before(self, t, st):
        if "filter" in st:
            warnings.resetwarnings()
            warnings.simplefilter(st["filter"])
        self.seen[threading.get_ident()] = []

    def after(self, t, st, oc, v):
        self.out[(t.tid, st["id"])]["warned"] = list(self.seen.get(threading.get_ident(), []))


def _law(c):
    warnings.simplefilter("ignore")
    try:
        return ("ok", data.freeze(world.invoke(c["op"], world.Args(c))))
    except Exception as e:
        return world.exc_outcome(e)


class PROP(Prop):
    id = "C12"
    quick = 14000
    thorough = 120000
    variants = 24
    hang_is_violation = True
    rule = ("A run makes 2-12 calls of fmhyp, fmpar and fmpower (laws inside [0,0.5], leaving at an end, in the middle or by "
            "one sample; many repeats of one call) mixed with other calls, under a warning filter that changes between "
            "calls (always, error, ignore, default, once), some calls aborted by interrupts or allocation failures; a "
            "quarter of the runs use 2-3 threads with planned switches. Warnings delivered under 'always' are counted per "
            "call, calls under 'error' must raise exactly when the law leaves the interval. Non-trivial: a call that leaves "
            "the interval was judged. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, switches)"

    def gen(self, r, i, ctx):
        fam = [gen_call(r) for _ in range(r.choice([1, 1, 2, 4]))]
        if r.random() < 0.3:          # one law at several lengths, often growing
            ns = [max(4, int(fam[0]["args"][0] * r.choice([0.5, 0.75, 1, 1.25, 1.5, 2]))) for _ in range(r.choice([2, 3]))]
            fam = [dict(data.deep(fam[0]), args=[n] + data.deep(fam[0]["args"][1:])) for n in ns] + fam[:1]
        nth = 1 if r.random() < 0.75 else r.choice([2, 3])
        threads, faults, info, sid = [], [], {}, 0
        for t in range(nth):
            steps = []
            for _ in range(r.choice([2, 3, 5, 8, 12]) if nth == 1 else r.choice([1, 2, 3])):
                if nth == 1 and r.random() < 0.12:
                    c = self.var(r, catalog.pick_op(r, catalog.DET))
                    st = {"do": "call", "c": c, "id": sid, "other": True}
                else:
                    st = {"do": "call", "c": data.deep(r.choice(fam)), "id": sid}
                st["drop"] = True
                if nth == 1:
                    st["filter"] = r.choice(["always", "always", "always", "error", "error", "ignore", "default", "once"])
                else:
                    k = 300
                    info[(t, sid)] = (k, [])
                if r.random() < 0.15:
                    faults.append([t, sid, r.choice(["mem", "kbd"]), r.randint(1, 150)])
                steps.append(st)
                sid += 1
            threads.append(steps)
        sc = {"threads": threads, "faults": faults}
        if nth > 1:
            sc["switches"], sc["style"] = world.gen_switches(r, sc, info)
        return sc

    def execute(self, sc):
        warnings.resetwarnings()
        warnings.simplefilter("always")
        return S(sc).go()

    def judge(self, sc, rec, ctx):
        viol = []
        out = inside = 0
        ops = {}
        for t, th in enumerate(sc["threads"]):
            for st in th:
                o = rec["out"].get((t, st["id"]))
                c = st["c"]
                ops[c["op"]] = ops.get(c["op"], 0) + 1
                if o is None or st.get("other") or (o["fired"] and o["o"][0] == "exc"):
                    continue
                oc = o["o"]
                f = st.get("filter", "always")
                law = ctx.refs.custom("law", _law, c)
                lv = leaves(law)
                n = o["warned"].count("UserWarning")
                if f == "error":
                    if lv is None:
                        continue
                    # numpy's own RuntimeWarning may be raised first
                    if oc[0] == "exc" and oc[1] == "RuntimeWarning":
                        continue
                    bad = (oc[0] == "exc" and oc[1] == "UserWarning") != lv
                    said = data.brief(oc)
                else:
                    if not data.same_outcome(oc, law):
                        viol.append({"clause": "result", "detail": "%s under filter %s %s; normally it %s" % (
                            c["op"], f, data.brief(oc), data.brief(law))})
                        continue
                    if oc[0] != "ok" or lv is None:
                        continue
                    if f == "ignore":
                        bad = n != 0
                    elif f == "always":
                        bad = n != (1 if lv else 0)
                    else:
                        bad = n > (1 if lv else 0)
                    said = "issued %d UserWarning(s)" % n
                out += lv
                inside += not lv
                if bad and not viol:
                    viol.append({"clause": "report", "detail": "%s%s (thread %d, step %d), law %s [0, 0.5], under filter '%s': it %s" % (
                        c["op"], tuple(c["args"]), t, st["id"], "leaves" if lv else "stays inside", f, said)})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops, "nontrivial": out > 0,
                      "calls_leaving_the_interval": out, "calls_staying_inside": inside,
                      "runs_with_threads": int(len(sc["threads"]) > 1), "faults": story.count_faults(rec),
                      "sites": story.fault_sites(rec)}

"""What every property provides to the runner."""
import hashlib
import random

from . import catalog, data, focus


class Prop(object):
    id = None
    quick = 100          # simulated runs in the quick tier
    thorough = 1000
    variants = 10        # argument variants per operation (quick)
    rule = ""
    components = {}
    technique = ""
    assumptions = []
    timeout = 60.0

    def __init__(self, seed, tier):
        self.seed = seed
        self.tier = tier
        self.K = self.variants if tier == "quick" else self.variants * 12

    shard = 0

    def rng(self, i):
        # runs i, i + 8, i + 16, ... draw from one universe of calls and are executed by one worker, so that
        # reference results are shared within it, while the eight universes together stay wide
        self.shard = i % 8
        return random.Random("%s/%d/%d" % (self.id, self.seed, i))

    def var(self, r, name):
        k = self.K * 4 if name in focus.OPS else self.K
        return catalog.variant(name, self.shard * k + r.randrange(k), self.seed)

    # child-independent
    def gen(self, r, i, ctx):
        raise NotImplementedError

    def execute(self, sc):
        """Runs in a pristine forked child; returns a picklable record."""
        raise NotImplementedError

    def judge(self, sc, rec, ctx):
        """Returns (violations, stats). A violation: {"clause":..., "detail":...}."""
        raise NotImplementedError

    def shrink(self, sc):
        """Smaller candidate scenarios, most aggressive first."""
        return shrink_generic(sc)

    def key(self, sc):
        c = {k: v for k, v in sc.items() if k not in ("seed", "run")}
        return hashlib.sha1(data.canon(c).encode()).hexdigest()[:16]


def _prune(sc):
    """Drop faults and switches that refer to steps no longer there; drop unused objects."""
    ids = set((t, st["id"]) for t, th in enumerate(sc["threads"]) for st in th)
    if "faults" in sc:
        sc["faults"] = [f for f in sc["faults"] if (f[0], f[1]) in ids]
    if "switches" in sc:
        sc["switches"] = [s for s in sc["switches"] if (s[0], s[1]) in ids]
    if "objs" in sc:
        used = set(st.get("o") for th in sc["threads"] for st in th)
        sc["objs"] = {k: v for k, v in sc["objs"].items() if k in used}
    return sc


def _chunks(n):
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield i, min(n, i + size)
        size //= 2


def shrink_generic(sc):
    th = sc.get("threads", [])
    # drop whole threads (renumbering)
    if len(th) > 1:
        for t in range(len(th)):
            c = data.deep(sc)
            del c["threads"][t]
            for key in ("faults", "switches"):
                if key in c:
                    new = []
                    for f in c[key]:
                        if f[0] == t:
                            continue
                        new.append([f[0] - (f[0] > t)] + f[1:])
                    c[key] = new
            yield _prune(c)
    for t in range(len(th)):
        n = len(th[t])
        for a, b in _chunks(n):
            if n - (b - a) < 1 and len(th) == 1:
                continue
            c = data.deep(sc)
            del c["threads"][t][a:b]
            yield _prune(c)
    for key in ("faults", "switches"):
        n = len(sc.get(key, ()))
        for a, b in _chunks(n):
            c = data.deep(sc)
            del c[key][a:b]
            yield c
    if sc.get("share"):
        c = data.deep(sc)
        c["share"] = False
        yield c
    # simpler arguments
    for t in range(len(th)):
        for i, st in enumerate(th[t]):
            for c2 in _simpler_call(st.get("c")):
                c = data.deep(sc)
                c["threads"][t][i]["c"] = c2
                yield c
    for o in sorted(sc.get("objs", {})):
        for c2 in _simpler_call(sc["objs"][o]):
            c = data.deep(sc)
            c["objs"][o] = c2
            yield c


def _simpler_call(c):
    if not c or "args" not in c:
        return
    for k in sorted(c["kw"]):
        d = data.deep(c)
        del d["kw"][k]
        yield d
    for where, k in [("args", i) for i in range(len(c["args"]))] + [("kw", k) for k in sorted(c["kw"])]:
        v = c[where][k]
        if data.is_arr(v):
            for f, val in (("l", "C"), ("p", None), ("s", 0)):
                if v.get(f) is not None and v.get(f) != val:
                    d = data.deep(c)
                    if val is None:
                        del d[where][k][f]
                    else:
                        d[where][k][f] = val
                    yield d


def merge(stats, **kw):
    for k, v in kw.items():
        stats[k] = stats.get(k, 0) + v
    return stats

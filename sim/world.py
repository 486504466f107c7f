"""Shared execution helpers: building arguments, running one operation under the scheduler,
reference runs of single calls in pristine processes."""
import gc
import warnings

import numpy as np

from . import catalog, data, entropy, focus, proc, sched, seams


def mat(v, pool=None, bufs=None):
    """Materialise one argument value."""
    if isinstance(v, dict):
        if "a" in v:
            if pool is not None:
                key = data.canon(v)
                if key not in pool:
                    pool[key] = data.build(v)
                return pool[key]
            return data.build(v)
        if "buf" in v:
            return bufs[v["buf"]]
        if "list" in v:
            return list(v["list"])
    if isinstance(v, list):
        return list(v)
    return v


class Args(object):
    """The live arguments of a call."""

    def __init__(self, c, pool=None, bufs=None):
        self.args = [mat(v, pool, bufs) for v in c["args"]]
        self.kw = {k: mat(v, pool, bufs) for k, v in c["kw"].items()}

    def objects(self):
        """(label, object) of every array or list argument."""
        out = []
        for i, v in enumerate(self.args):
            if isinstance(v, (np.ndarray, list)):
                out.append(("argument %d" % i, v))
        for k, v in self.kw.items():
            if isinstance(v, (np.ndarray, list)):
                out.append(("argument %r" % k, v))
        return out


def invoke(name, a):
    """Call the operation: functions are called, representation classes constructed and run."""
    f = catalog.resolve(name)
    if catalog.OPS[name].kind == "cls":
        return f(*a.args, **a.kw).run()
    return f(*a.args, **a.kw)


def echoed(name, a):
    """Caller-supplied grids that the library hands back as they are."""
    return [a.kw[k] for k in catalog.OPS[name].tags.get("echo", ()) if isinstance(a.kw.get(k), np.ndarray)]


def exc_outcome(e):
    return ("exc", type(e).__name__, str(e)[:160])


def guarded(t, op, fn, fault=None, switches=(), cap=None, post=None):
    """Run fn as one simulated operation. Returns (outcome, live value). post(value) is called
    while no other thread can run, right when the operation returns."""
    v = None
    t.begin(op, fault, switches, cap)
    try:
        v = fn()
        t.active = False
        out = ("ok", None)
    except BaseException as e:
        t.active = False
        out = exc_outcome(e)
        e.__traceback__ = None
        del e
    finally:
        t.end()
    if out[0] == "ok":
        out = ("ok", data.freeze(v))
    return out, v


def guarded_stats(t):
    return {"fired": t.fired is not None, "site": t.fired, "k": t.k}


# ------------------------------------------------------------------ references
def _ref_child(c, ent, record, pad, pre):
    keep = [np.zeros(p) for p in (pad or ())]      # vary heap alignment
    s = sched.Sched()
    rec = None
    if record:
        sched.instrument(probe=True)
        rec = sched.Recorder()
        s.probe = rec
    if pre:
        for name, val in pre:
            _pre(name, val)
    a = Args(c)
    if ent is not None:
        entropy.install(ent)
    res = {}

    def body(t):
        res["o"], v = guarded(t, 0, lambda: invoke(c["op"], a))
        res["k"] = t.k
        if pad is None and v is not None:
            res["shapes"] = [x.shape for x in data.arrays_in(v)]
    s.run_single(body)
    del keep
    return {"o": res["o"], "k": res["k"],
            "sites": sorted((k[0], k[1], v[0], v[1], v[2]) for k, v in rec.sites.items()) if rec else None}


def _pre(name, val):
    if name == "errstate":
        np.seterr(**val)


class Refs(object):
    """Memoised reference results (one pristine process per call)."""

    def __init__(self, limit=6000):
        self.memo = {}
        self.limit = limit
        self.count = 0

    def get(self, c, ent=None, record=False, pre=None):
        key = data.canon([c, ent, bool(record), pre])
        r = self.memo.get(key)
        if r is None:
            if not record:
                r = self.memo.get(data.canon([c, ent, True, pre]))
                if r is not None:
                    return r
            if len(self.memo) > self.limit:
                self.memo.clear()
            r = proc.fork_call(_ref_child, c, ent, record, None, pre)
            self.count += 1
            self.memo[key] = r
        return r

    def custom(self, kind, fn, *args):
        """A memoised reference computed by fn(*args) in a pristine process."""
        key = kind + data.canon(list(args))
        r = self.memo.get(key)
        if r is None:
            if len(self.memo) > self.limit:
                self.memo.clear()
            r = proc.fork_call(fn, *args)
            self.count += 1
            self.memo[key] = r
        return r

    def matches(self, c, ent, outcome, pre=None):
        """Does an outcome agree with the reference?  On a mismatch the reference is recomputed
        under several heap layouts before the answer is no."""
        r = self.get(c, ent, pre=pre)
        if data.same_outcome(outcome, r["o"]):
            return True
        for pad in ([1], [3, 17], [5, 9, 1000], [7, 7, 7, 129]):
            r2 = proc.fork_call(_ref_child, c, ent, False, pad, pre)
            self.count += 1
            if data.same_outcome(outcome, r2["o"]):
                return True
        return False


def reset_process():
    """Baseline process settings inside a child."""
    warnings.simplefilter("ignore")
    gc.disable()


def fault_points(ref, kind):
    """Event sites of a recorded reference eligible for a fault kind:
    [(co, off, first, last, count)]."""
    m = {"mem": sched.MEM, "kbd": sched.KBD, "nest": sched.KBD | sched.FIN}[kind]
    return [s for s in ref["sites"] if sched.FLAGS[sched.CODES[s[0]]].get(s[1], 0) & m]


def pick_hot(r, sites):
    h = [s for s in sites if (s[0], s[1]) in sched.HOT]
    if h and r.random() < 0.5:
        h = [s for s in h if (s[0], s[1]) in sched.STORES] or h
    return r.choice(h) if h else None


def pick_point(r, sites, total, fault=False):
    """An instruction index inside an operation: by site (rare sites as likely as loops) or by time."""
    if not sites:
        return None
    if focus.CHANGED and r.random() < 0.3:
        g = [s for s in sites if s[0] in focus.CHANGED]
        if g:
            s = r.choice(g)
            return s[2] if r.random() < 0.5 else (s[3] if r.random() < 0.3 else r.randint(s[2], s[3]))
    x = r.random()
    if fault and r.random() < 0.15:
        g = [s for s in sites if (s[0], s[1]) in sched.GUARDED]
        if g:
            s = r.choice(g)
            return s[2] if r.random() < 0.6 else r.randint(s[2], s[3])
    if x < 0.3:
        s = pick_hot(r, sites)
        if s:
            k = s[2] if r.random() < 0.5 else (s[3] if r.random() < 0.3 else r.randint(s[2], s[3]))
            return k + r.choice([0, 0, 0, 0, 1, 2, 5, 12])
        x = r.random()
    if x < 0.65:
        s = r.choice(sites)
        return s[2] if r.random() < 0.6 else (s[3] if r.random() < 0.5 else r.randint(s[2], s[3]))
    return r.randint(1, max(1, total))


def install_clock(start=1.7e9):
    seams.CLOCK = seams.VClock(start)
    return seams.CLOCK


# ------------------------------------------------------------------ threaded programs
def plan_of(sc):
    """(thread, step id) -> switches and fault."""
    sw, fa = {}, {}
    for tid, sid, k, pick in sc.get("switches", ()):
        sw.setdefault((tid, sid), []).append((k, pick))
    for v in sw.values():
        v.sort()
    for tid, sid, kind, k in sc.get("faults", ()):
        fa[(tid, sid)] = (kind, k)
    return sw, fa


def run_threads(sc, before=None, after=None, keep=False):
    """Execute a multi-threaded scenario (steps: call, run). Returns the record."""
    sched.instrument()
    sw, fa = plan_of(sc)
    pool = {} if sc.get("share") else None
    rng = any(st.get("ent") is not None for th in sc["threads"] for st in th)
    s = sched.Sched(rng_per_thread=rng)
    objs = {}
    for name, c in sorted(sc.get("objs", {}).items()):
        a = Args(c, pool)
        try:
            objs[name] = catalog.resolve(c["op"])(*a.args, **a.kw)
        except Exception as e:
            objs[name] = exc_outcome(e)
    prepared = {}
    for tid, th in enumerate(sc["threads"]):
        for st in th:
            if st["do"] == "call":
                prepared[(tid, st["id"])] = Args(st["c"], pool)
    out = {}
    live = {}

    def make(tid):
        def body(t):
            for st in sc["threads"][tid]:
                key = (tid, st["id"])
                if st["do"] == "call":
                    a = prepared[key]
                    name = st["c"]["op"]

                    def fn():
                        return invoke(name, a)
                else:
                    o = objs[st["o"]]

                    def fn():
                        if isinstance(o, tuple):
                            raise SkipOp(o[1])
                        return o.run()
                if before:
                    before(t, st)
                ent = st.get("ent")
                if ent is not None:
                    entropy.install(ent)
                    t.rng = None
                oc, v = guarded(t, st["id"], fn, fa.get(key), sw.get(key, ()), st.get("cap"))
                out[key] = {"o": oc, "k": t.k, "fired": t.fired, "v": None}
                if keep:
                    live[key] = v
                if after:
                    after(t, st, oc, v)
                v = None
        return body
    for tid in range(len(sc["threads"])):
        s.add(make(tid))
    if len(s.threads) == 1:
        body = s.threads[0].body
        s.threads = []
        s.run_single(body)
    else:
        s.run()
    return {"out": out, "trace": s.trace, "fired": s.fired, "events": s.events,
            "live": live if keep else None, "hash": s.trace_hash()}


class SkipOp(Exception):
    """The shared object could not be constructed (a natural failure of the call)."""


def gen_switches(r, sc, info, style=None):
    """Choose where the baton moves. info[(tid, sid)] = (events, sites)."""
    sws = []
    if focus.CHANGED and r.random() < 0.3:
        style = "changed"
    style = style or r.choice(["few", "few", "site", "site", "dense", "storm", "boundary", "hot", "hot"])
    for tid, th in enumerate(sc["threads"]):
        for st in th:
            k, sites = info[(tid, st["id"])]
            pts = []
            if style == "few":
                pts = [r.randint(1, max(1, k)) for _ in range(r.choice([0, 1, 1, 2]))]
            elif style == "site":
                pts = [pick_point(r, sites, k) or 1 for _ in range(r.choice([1, 2, 3, 5]))]
            elif style == "changed":
                g = [s for s in sites if s[0] in focus.CHANGED] or sites or [(0, 0, 1, max(1, k))]
                for _ in range(r.choice([1, 1, 2, 4, 8])):
                    x = r.choice(g)
                    pts.append(x[2] if r.random() < 0.5 else r.randint(x[2], x[3]))
            elif style == "hot":
                for _ in range(r.choice([1, 1, 2, 4])):
                    x = pick_hot(r, sites) or (r.choice(sites) if sites else (0, 0, 1, max(1, k)))
                    pts.append(x[2] if r.random() < 0.4 else r.randint(x[2], x[3]))
            elif style == "dense":
                pts = [r.randint(1, max(1, k)) for _ in range(r.choice([10, 20, 40]))]
            elif style == "storm":      # a burst of consecutive instructions
                b = pick_point(r, sites, k) or 1
                pts = list(range(b, b + r.choice([5, 15, 40])))
            if r.random() < (0.9 if style == "boundary" else 0.3):
                pts.append(0)
            for p in sorted(set(pts)):
                sws.append([tid, st["id"], p, r.randrange(4)])
    return sws, style

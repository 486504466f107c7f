"""C19: what the library holds on to does not grow with use."""
import array
import collections
import ctypes
import gc
import hashlib
import os
import sys
import threading
import types
import warnings

import matplotlib.pyplot as plt
import numpy as np

from . import boot, catalog, data, entropy, hist, sched, story, world
from .p_c01 import with_entropy
from .props_base import Prop

_libc = ctypes.CDLL(None)


class _MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc.mallinfo2.restype = _MI


def malloced():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


NAMES = ("memory blocks", "bytes of memory", "file descriptors", "threads", "entries in the library's containers")
UNITS = (1, 64, 1, 1, 1)        # growth per cycle that counts
WARM, N = 6, 18         # cycles before and while measuring
COLD = 280              # calls with different arguments made before measuring (a cache may fill)


class Cycle(object):
    def __init__(self, sc):
        self.sc = sc
        self.outs = {}
        self.fired = {}
        self.calls = 0
        self.turn = 0
        # looked up once: a lookup by a new string leaves the string in the interpreter's caches
        self.f = {st["id"]: catalog.resolve(st["c"]["op"]) if st["do"] != "plotifl" else
                  boot.MODULES["tftb.processing.plotifl"].plotifl for st in sc["threads"][0]}
        self.rec = [array.array("q", [0] * (N + 1)) for _ in range(len(UNITS))]
        if any(st.get("fault") for st in sc["threads"][0]):
            sched.instrument()

    def call(self, st):
        """The thing one step does, as a function."""
        c = st["c"]
        if self.sc["vary"] and self.turn:
            vary(c)
        f, a = self.f[st["id"]], world.Args(c)
        if st["do"] == "plotifl":
            return lambda: f(*a.args, **a.kw)
        if st["do"] == "call" and catalog.OPS[c["op"]].kind != "cls":
            return lambda: f(*a.args, **a.kw)
        p = world.Args(st["p"]) if st.get("p") else None

        def life():
            o = f(*a.args, **a.kw)
            for _ in range(st.get("runs", 1)):
                o.run()
            if p is not None:
                o.plot(*p.args, **p.kw)
        return life

    def once(self, st):
        fn = self.call(st)
        if st.get("ent") is not None:
            entropy.install(st["ent"])
        boot.SHOW_FAIL[0] = RuntimeError("display failed") if st.get("showfail") else None
        how = "ok"
        if st.get("fault"):
            s = sched.Sched()
            got = []

            def body(t):
                t.begin(0, st["fault"])
                try:
                    fn()
                    got.append("ok")
                except BaseException as e:
                    got.append(type(e).__name__)
                finally:
                    t.active = False
                    t.end()
                if t.fired is not None:
                    self.fired[st["fault"][0]] = self.fired.get(st["fault"][0], 0) + 1
            s.run_single(body)
            how = got[0]
        elif st.get("thread"):
            got = []

            def run():
                try:
                    fn()
                    got.append("ok")
                except BaseException as e:
                    got.append(type(e).__name__)
            t = threading.Thread(target=run)
            t.start()
            t.join()
            how = got[0]
        else:
            try:
                fn()
            except BaseException as e:
                how = type(e).__name__
        boot.SHOW_FAIL[0] = None
        del boot.SHOW[:]
        self.outs[st["id"]] = how
        self.calls += 1

    def go(self):
        self.turn += 1
        for st in self.sc["threads"][0]:
            for _ in range(st["m"]):
                self.once(st)
        if plt.get_fignums():
            plt.close("all")

    def measure(self, j):
        """Written to arrays made beforehand, so that measuring itself takes up nothing."""
        sys._clear_type_cache()         # it keeps the names of attributes looked up
        gc.collect()
        a, b, c, d, e = self.rec
        a[j] = sys.getallocatedblocks()
        b[j] = malloced()
        c[j] = len(os.listdir("/proc/self/fd"))
        d[j] = len(os.listdir("/proc/self/task"))
        e[j] = entries()


_PLAIN = (int, float, complex, str, bytes, bool, type(None), np.ndarray, np.generic, types.ModuleType, types.CodeType,
          types.BuiltinFunctionType)


def entries():
    """How many entries the containers have that can be reached from what the library defines."""
    todo = [vars(m) for m in boot.MODULES.values()]
    seen = set(map(id, todo))
    n = 0
    while todo:
        x = todo.pop()
        if isinstance(x, types.FunctionType):
            if not (x.__module__ or "").startswith("tftb"):
                continue
            more = [x.__defaults__, x.__kwdefaults__, x.__closure__, x.__dict__]
        elif isinstance(x, types.CellType):
            try:
                more = [x.cell_contents]
            except ValueError:
                continue
        elif isinstance(x, type):
            if not x.__module__.startswith("tftb"):
                continue
            more = list(vars(x).values())
        elif isinstance(x, dict):
            n += len(x)
            more = list(x.values()) + list(x)
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            n += len(x)
            more = list(x)
        elif isinstance(x, (bytearray, array.array)):
            n += len(x)
            continue
        else:
            more = [getattr(x, "__dict__", None), getattr(x, "__wrapped__", None), getattr(x, "__func__", None)]
        for y in more:
            if not isinstance(y, _PLAIN) and id(y) not in seen:
                seen.add(id(y))
                todo.append(y)
    return n


def vary(c):
    """Other values of the same shape: of the arrays, and (in the same proportion) of all numbers that are no integers."""
    def other(v):
        return v * (1 - 1e-7) if type(v) is float else v
    c["args"] = [other(v) for v in c["args"]]
    c["kw"] = {x: other(v) for x, v in c["kw"].items()}
    for v in list(c["args"]) + [c["kw"][x] for x in sorted(c["kw"])]:
        if data.is_arr(v) and v["a"] not in ("range", "lin", "shuf", "remat", "coords"):
            v["s"] = v["s"] + 1


class PROP(Prop):
    id = "C19"
    quick = 600
    thorough = 8000
    variants = 16
    timeout = 120.0
    measured = True     # readings of the process: believed only when two more executions, one in a new interpreter, agree
    rule = ("A run repeats a cycle of 1-3 steps: any call 2-4 times, the life of an object (made, run once or twice, plotted or "
            "not, dropped), plotifl; some in a thread of their own, some stopped by an interrupt or for want of memory at a "
            "planned instruction each time, some with a display that fails. In 40% of the runs without plots the values of the arrays "
            "differ in every call, and so do the numbers that are no integers. After warm-up cycles (280 calls when values differ) and a full collection after each of 18 cycles, the memory "
            "blocks and bytes in use, file descriptors, threads and entries of the library's containers are recorded; a measure that "
            "grew by one a cycle or more in each of three such windows is a violation. Non-trivial: a call completed or was "
            "stopped as planned. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        steps, sid = [], 0
        calls = hist.family(self, r, catalog.ALL, 4, 0.5)
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if r.random() < story.ifl_share(0.04):
                st = {"do": "plotifl", "c": story.gen_plotifl(r), "id": sid, "showfail": r.random() < 0.3}
                ref = None
            elif x < 0.6:
                c = data.deep(r.choice(calls)) if r.random() < 0.6 else self.var(r, catalog.pick_op(r, catalog.ALL))
                st = with_entropy(r, {"do": "call", "c": c, "id": sid})
                ref = ctx.refs.get(c, st.get("ent"), True)
            else:
                c = self.var(r, catalog.pick_op(r, catalog.CLS))
                st = {"do": "life", "c": c, "id": sid, "runs": r.choice([1, 1, 2])}
                ref = story.new_ref(ctx, c)[1]
                if r.random() < 0.35:
                    st["p"] = story.plot_kw(r, c["op"], c)
                    if r.random() < 0.25:
                        st["showfail"] = True
                        st["p"]["kw"]["show"] = True
            plot = st["do"] == "plotifl" or st.get("p") is not None
            st["m"] = 1 if plot else r.choice([2, 4])
            y = r.random()
            if y < 0.3:
                if plot:
                    st["fault"] = [r.choice(["mem", "kbd"]), r.randint(1, 200)]
                elif ref:
                    f = story.fault(r, ref)
                    if f:
                        st["fault"] = f
            elif y < 0.45 and not plot:
                st["thread"] = True
            steps.append(st)
            sid += 1
        heavy = any(st["do"] == "plotifl" or st.get("p") for st in steps)
        return {"threads": [steps], "vary": not heavy and r.random() < 0.4}

    def execute(self, sc):
        warnings.simplefilter("ignore")
        s = Cycle(sc)
        per = sum(st["m"] for st in sc["threads"][0])
        warm = WARM
        if sc["vary"]:
            warm = max(warm, -(-COLD // per))
        for _ in range(warm):
            s.go()
        rows = []
        first = None
        for w in range(3):
            s.measure(0)
            for j in range(1, N + 1):
                s.go()
                s.measure(j)
            rows.append([tuple(x[j] for x in s.rec) for j in range(N + 1)])
            first = first or (s.calls, dict(s.fired))
            if not any(grown(rows[-1])):
                break
        return {"rows": rows, "calls": first[0], "outs": s.outs, "fired": first[1]}


    def judge(self, sc, rec, ctx):
        viol, ops = [], {}
        windows = [grown(p) for p in rec["rows"]]
        if len(windows) == 3:
            for k, name in enumerate(NAMES):
                # growth that fades away is an allocator or a store settling down
                if min(w[k] for w in windows) * 4 > max(w[k] for w in windows):
                    viol.append({"clause": name.split()[0], "detail": "%s in use grow with every cycle of calls, by %s between "
                                 "the first and the last third of three windows of %d cycles" % (
                                     name, ", ".join(str(w[k]) for w in windows), N)})
        for st in sc["threads"][0]:
            n = (st.get("c") or {}).get("op", st["do"])
            ops[n] = ops.get(n, 0) + rec["calls"] // len(sc["threads"][0])
        done = sum(1 for v in rec["outs"].values() if v == "ok") + sum(rec["fired"].values())
        return viol, {"events": rec["calls"], "hash": hashlib.sha1(data.canon([sorted(rec["outs"].items()), rec["fired"], sc["threads"]]).encode()).hexdigest()[:16],
                      "ops": ops, "nontrivial": done > 0, "calls": rec["calls"],
                      "faults": dict(rec["fired"])}


def grown(part):
    """Per measure: the growth from the first third to the last one, as far as every sample shows it."""
    n = len(part) // 3
    out = []
    for k, unit in enumerate(UNITS):
        a, b = [x[k] for x in part[:n]], [x[k] for x in part[-n:]]
        d = min(b) - max(a)
        out.append(d if d >= unit * n else 0)
    return out

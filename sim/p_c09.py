"""C09: process-wide settings are left as they were found."""
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import scipy.fft

from . import boot, catalog, data, entropy, hist, story, world
from .props_base import Prop

_SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGUSR1, signal.SIGPIPE, signal.SIGFPE]


def fp():
    """Settings that numpy keeps per thread."""
    d = np.geterr()
    d["errcall"] = repr(np.geterrcall())
    d["bufsize"] = np.getbufsize()
    d["decimal"] = repr(decimal.getcontext())
    return d


def snapshot():
    s = {"fp." + k: v for k, v in fp().items()}
    s["print options"] = repr(sorted(np.get_printoptions().items()))
    s["warning filters"] = tuple(repr(f) for f in warnings.filters)
    s["warning hooks"] = (id(warnings.showwarning), id(warnings.warn), id(warnings.warn_explicit),
                          id(warnings.formatwarning), getattr(warnings, "defaultaction", None))
    s["matplotlib configuration"] = tuple((k, repr(v)) for k, v in sorted(plt.rcParams.items()))
    s["matplotlib back end"] = (plt.get_backend(), matplotlib.is_interactive(), id(plt.show))
    s["open figures"] = tuple(plt.get_fignums())
    s["numpy random state"] = entropy.rng_digest()
    s["numpy random generator"] = id(np.random.mtrand._rand)
    s["Python random state"] = random.getstate()
    s["environment"] = tuple(sorted(os.environ.items()))
    s["working directory"] = os.getcwd()
    u = os.umask(0)
    os.umask(u)
    s["umask"] = u
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["time zone"] = (time.tzname, time.timezone)
    s["signal handlers"] = tuple(repr(signal.getsignal(x)) for x in _SIGS)
    s["alarm"] = signal.getitimer(signal.ITIMER_REAL)
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug())
    s["standard streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.displayhook), id(sys.excepthook))
    s["import path"] = (tuple(sys.path), len(sys.meta_path))
    s["tracing"] = (repr(sys.gettrace()), repr(sys.getprofile()), faulthandler.is_enabled())
    root = logging.getLogger()
    s["logging"] = (root.level, len(root.handlers), logging.root.manager.disable)
    s["fft settings"] = scipy.fft.get_workers()
    s["open files"] = tuple(_fds())
    s["child processes"] = _children()
    s["int digits"] = sys.get_int_max_str_digits()
    return s


def _fds():
    out = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith("/proc/"):
            continue
        out.append("%s %s" % (n, t))
    return out


def _children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return None


def _silent(*a, **k):
    pass


def configure(cfg):
    """A caller with settings of their own."""
    warnings.showwarning = _silent
    if cfg.get("err"):
        np.seterr(**cfg["err"])
    if cfg.get("print"):
        np.set_printoptions(precision=3, suppress=True)
    if cfg.get("buf"):
        np.setbufsize(16384)
    if cfg.get("filters"):
        warnings.resetwarnings()
        for f in cfg["filters"]:
            warnings.simplefilter(f)
    for k, v in (cfg.get("rc") or {}).items():
        plt.rcParams[k] = v
    if cfg.get("fig"):
        plt.figure()
        plt.plot([1, 2])
    if cfg.get("gc"):
        gc.enable()
        gc.set_threshold(100, 5, 5)
    if cfg.get("rec"):
        sys.setrecursionlimit(1500)
    if cfg.get("dec"):
        decimal.getcontext().prec = 12
    if cfg.get("ion"):
        plt.ion()


def differences(a, b, skip=()):
    return [k for k in sorted(a) if k not in skip and a[k] != b[k]]


class S(story.Story):
    def __init__(self, sc):
        story.Story.__init__(self, sc)
        self.found = []
        self.multi = len(sc["threads"]) > 1
        self.fp0 = {}
        self.threads0 = 0

    def before(self, t, st):
        if self.multi:
            self.fp0[t.tid] = fp()
        else:
            self.snap = snapshot()
            self.nthreads = threading.active_count()

    def after(self, t, st, oc, v):
        name = (st.get("c") or {}).get("op", st["do"])
        how = oc[0] if oc[0] == "ok" else oc[1]
        if self.multi:
            d = differences(self.fp0[t.tid], fp())
            for k in d:
                self.found.append((name, st["id"], how, k, self.fp0[t.tid][k], fp()[k]))
            return
        now = snapshot()
        skip = set()
        if st["do"] in ("plot", "plotifl"):
            skip.add("open figures")
        if name in catalog.OPS and catalog.OPS[name].tags.get("rng"):
            skip.add("numpy random state")
        for k in differences(self.snap, now, skip):
            self.found.append((name, st["id"], how, k, _short(self.snap[k], now[k]), _short(now[k], self.snap[k])))
        n = threading.active_count()
        if n != self.nthreads:
            self.found.append((name, st["id"], how, "threads", self.nthreads, n))


def _short(x, other):
    if isinstance(x, tuple) and isinstance(other, tuple):
        y = [v for v in x if v not in other]
        return repr(y)[:160]
    return repr(x)[:160]


class PROP(Prop):
    id = "C09"
    quick = 3200
    thorough = 50000
    variants = 24
    rule = ("A run configures the process in a seeded way (floating-point error handling including 'raise', print options, "
            "warning filters including 'error', matplotlib settings, collector settings, an open figure), then makes 1-6 "
            "calls, plots included, some of which fail naturally, through a raised warning or floating-point error, or by "
            "an allocation failure at a planned instruction; a third of the runs use 2-3 threads with planned switches. Over 30 "
            "settings are compared after every call (single thread) or after all have finished (threads). Non-trivial: "
            "at least one call completed or failed inside tftb code. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults, switches)"

    def gen(self, r, i, ctx):
        cfg = {}
        if r.random() < 0.55:
            lv = ["ignore", "warn", "raise", "ignore"]
            cfg["err"] = {k: r.choice(lv) for k in ("divide", "over", "under", "invalid") if r.random() < 0.7}
        if r.random() < 0.6:
            cfg["filters"] = [r.choice(["default", "always", "error", "ignore", "once", "module"])
                              for _ in range(r.choice([1, 2]))]
        for k, p in (("print", 0.3), ("buf", 0.3), ("fig", 0.3), ("gc", 0.3), ("rec", 0.3), ("dec", 0.2), ("ion", 0.25)):
            if r.random() < p:
                cfg[k] = True
        if r.random() < 0.3:
            cfg["rc"] = r.choice([{"image.cmap": "viridis"}, {"figure.figsize": [4.0, 3.0]}, {"axes.grid": True},
                                  {"lines.linewidth": 3.0, "font.size": 7.0}])
        nth = 1 if r.random() < 0.67 else r.choice([2, 2, 3])
        threads, faults, sid = [], [], 0
        info = {}
        for t in range(nth):
            steps = []
            for c in hist.family(self, r, catalog.ALL, r.choice([1, 2, 3, 6] if nth == 1 else [1, 2]), 0.5):
                st = {"do": "call", "c": c, "id": sid}
                ref = ctx.refs.get(c, {"s": 3} if catalog.OPS[c["op"]].tags.get("rng") else None, True)
                info[(t, sid)] = (ref["k"], ref["sites"])
                if r.random() < 0.35:
                    k = world.pick_point(r, world.fault_points(ref, "mem"), ref["k"], True)
                    if k:
                        faults.append([t, sid, "mem", k])
                steps.append(st)
                sid += 1
            if nth == 1 and r.random() < 0.3:
                c = self.var(r, catalog.pick_op(r, catalog.CLS, True))
                steps.append({"do": "new", "o": "o", "c": c, "id": sid})
                steps.append({"do": "run", "o": "o", "id": sid + 1})
                p = story.plot_kw(r, c["op"], c)
                steps.append({"do": "plot", "o": "o", "c": p, "id": sid + 2})
                if r.random() < 0.4:
                    faults.append([0, sid + 2, "mem", r.randint(1, 170)])
                elif r.random() < 0.3:
                    steps[-1]["showfail"] = True
                sid += 3
            if nth == 1 and r.random() < story.ifl_share(0.08):
                steps.append({"do": "plotifl", "c": story.gen_plotifl(r), "id": sid})
                if r.random() < 0.4:
                    faults.append([0, sid, "mem", r.randint(1, 150)])
                sid += 1
            threads.append(steps)
        sc = {"threads": threads, "faults": faults, "cfg": cfg, "share": r.random() < 0.3}
        if nth > 1:
            sc["switches"], sc["style"] = world.gen_switches(r, sc, info)
        return sc

    def execute(self, sc):
        configure(sc["cfg"])
        s = S(sc)
        a = snapshot()
        rec = s.go()
        b = snapshot()
        rec["found"] = s.found
        if s.multi:
            rng = any(catalog.OPS[st["c"]["op"]].tags.get("rng") for th in sc["threads"] for st in th)
            for k in differences(a, b, {"numpy random state"} if rng else ()):
                rec["found"].append(("the calls", -1, "all finished", k, _short(a[k], b[k]), _short(b[k], a[k])))
        return rec

    def judge(self, sc, rec, ctx):
        viol = []
        for name, sid, how, k, x, y in rec["found"]:
            viol.append({"clause": "setting", "detail": "%s (step %d, %s) left %s changed: %s -> %s" % (
                name, sid, how, k, x, y)})
        ops = {}
        for th in sc["threads"]:
            for st in th:
                n = (st.get("c") or {}).get("op", st["do"])
                ops[n] = ops.get(n, 0) + 1
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops,
                      "nontrivial": any(o["k"] > 0 for o in rec["out"].values()),
                      "runs_with_threads": int(len(sc["threads"]) > 1), "switches": len(rec["trace"]),
                      "faults": dict(story.count_faults(rec), display=sum(
                          1 for th in sc["threads"] for st in th if st.get("showfail"))),
                      "floating_point_errors_raised": sum(o["o"][1] == "FloatingPointError" for o in rec["out"].values()
                                                          if o["o"][0] == "exc"),
                      "warnings_raised": sum("Warning" in o["o"][1] for o in rec["out"].values() if o["o"][0] == "exc"),
                      "sites": story.fault_sites(rec)}

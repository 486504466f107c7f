"""Histories: the step vocabulary shared by the properties, executed by simulated threads."""
import gc
import random

import numpy as np
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

from . import boot, catalog, data, entropy, figs, focus, mine, sched, seams, world

PLOTIFL = "processing.plotifl"


class Story(object):
    """Executes one scenario.  Subclasses override before/after to observe."""
    probe = None
    keep = True

    def __init__(self, sc):
        self.sc = sc
        self.out = {}
        self.pool = {} if sc.get("share") else None
        self.bufs = {k: data.build(v) for k, v in sorted(sc.get("bufs", {}).items())}
        self.objs = {}
        self.oargs = {}
        self.vals = {}
        self.args = {}
        self.axes = {}
        self.sw, self.fa = world.plan_of(sc)
        self.prepared = {}

    # -- observation hooks
    def before(self, t, st):
        pass

    def after(self, t, st, oc, v):
        pass

    def target(self, st, tid):
        """The function of a step that runs tftb code, or None for a harness step."""
        do = st["do"]
        if do == "call":
            a = self.args[st["id"]] = self.prep(tid, st)
            name = st["c"]["op"]
            return lambda: world.invoke(name, a)
        if do == "new":
            a = self.oargs[st["o"]] = self.prep(tid, st)
            cls = catalog.resolve(st["c"]["op"])

            def new():
                self.objs[st["o"]] = cls(*a.args, **a.kw)
            return new
        if do == "run":
            o = self.objs.get(st["o"])
            if o is None:
                return None
            return o.run
        if do == "plot":
            o = self.objs.get(st["o"])
            if o is None:
                return None
            a = self.args[st["id"]] = self.prep(tid, st)
            kw = dict(a.kw)
            if st.get("ax"):
                kw["ax"] = self.axis(st["ax"])
            return lambda: o.plot(**kw)
        if do == "plotifl":
            a = self.args[st["id"]] = self.prep(tid, st)
            f = boot.MODULES["tftb.processing.plotifl"].plotifl
            return lambda: f(*a.args, **a.kw)
        return None

    def prep(self, tid, st):
        key = (tid, st["id"])
        if key in self.prepared:
            return self.prepared.pop(key)
        return world.Args(st["c"], self.pool, self.bufs)

    def axis(self, name):
        """An axes object of the caller, in a figure of its own.  Name: 2d.. or 3d..; with O the figure is not
        managed by pyplot, with M the figure has another axes (with E an empty one), with + the axes has contents."""
        if name not in self.axes:
            if "O" in name:
                fig = Figure()
                FigureCanvasAgg(fig)
            else:
                fig = plt.figure()
            proj = "3d" if name.startswith("3d") else None
            if "M" in name:
                sib = fig.add_subplot(211)
                if "E" not in name:
                    sib.plot([3, 1, 2])
                    sib.set_title("sibling")
                ax = fig.add_subplot(212, projection=proj)
            else:
                ax = fig.add_subplot(111, projection=proj)
            if "+" in name:
                ax.plot([0, 1], [0, 1])
            self.axes[name] = ax
        return self.axes[name]

    def harness(self, st):
        do = st["do"]
        if do == "scrib":
            v = self.vals.get(st["of"])
            arrs = list(data.arrays_in(v)) if v is not None else []
            if arrs:
                x = arrs[st["i"] % len(arrs)]
                # a grid handed back may be the caller's own, still in use: then it is left alone
                own = list(self.bufs.values()) + list((self.pool or {}).values())
                if not any(np.may_share_memory(x, b) for b in own):
                    data.scribble(x, st.get("s", 0))
        elif do == "scribarg":
            a = self.args.get(st["of"])
            if a is not None:
                arrs = [x for _, x in a.objects() if isinstance(x, np.ndarray)]
                if arrs:
                    data.scribble(arrs[st["i"] % len(arrs)], st.get("s", 0))
        elif do == "fill":
            data.fill(self.bufs[st["b"]], st["spec"])
        elif do == "gc":
            gc.collect()
        elif do == "clock":
            if seams.CLOCK is not None:
                seams.CLOCK.jump(st["dt"])
        elif do == "seed":
            if "np" in st:
                np.random.seed(st["np"])
            else:
                entropy.install(st["ent"])
        elif do == "close":
            n = plt.get_fignums()
            if "i" in st and n:
                # one of the open figures
                f = plt.figure(n[st["i"] % len(n)])
                plt.close(f)
                self.axes = {k: a for k, a in self.axes.items() if a.figure is not f}
            else:
                plt.close("all")
                self.axes.clear()
        elif do == "fig":
            f = plt.figure()
            ax = f.add_subplot(111)
            ax.plot(np.arange(5), np.arange(5) ** 2)
            ax.set_title("mine")
        elif do == "sca":
            n = plt.get_fignums()
            if n:
                plt.figure(n[st["i"] % len(n)])
        elif do == "drop":
            self.vals.pop(st["of"], None)
            self.args.pop(st["of"], None)

    def step(self, t, tid, st):
        fn = self.target(st, tid)
        if fn is None:
            self.harness(st)
            return
        self.before(t, st)
        ent = st.get("ent")
        if ent is not None:
            entropy.install(ent)
            t.rng = None
        boot.SHOW_FAIL[0] = RuntimeError("display failed") if st.get("showfail") else None
        key = (tid, st["id"])
        oc, v = world.guarded(t, st["id"], fn, self.fa.get(key), self.sw.get(key, ()), st.get("cap"))
        boot.SHOW_FAIL[0] = None
        self.out[key] = {"o": oc, "k": t.k, "fired": t.fired}
        if self.keep and st["do"] in ("call", "run"):
            self.vals[st["id"]] = v
        self.after(t, st, oc, v)
        if st.get("drop"):
            v = fn = None
            self.vals.pop(st["id"], None)
            self.args.pop(st["id"], None)

    def go(self):
        sc = self.sc
        sched.instrument(probe=self.probe is not None)
        rng = len(sc["threads"]) > 1 and any(st.get("ent") is not None for th in sc["threads"] for st in th)
        s = self.sched = sched.Sched(rng_per_thread=rng)
        s.probe = self.probe
        if len(sc["threads"]) > 1:
            for tid, th in enumerate(sc["threads"]):
                for st in th:
                    if st["do"] == "call":
                        self.prepared[(tid, st["id"])] = world.Args(st["c"], self.pool, self.bufs)

        def make(tid):
            def body(t):
                for st in sc["threads"][tid]:
                    self.step(t, tid, st)
            return body
        if len(sc["threads"]) == 1:
            s.run_single(make(0))
        else:
            for tid in range(len(sc["threads"])):
                s.add(make(tid))
            s.run()
        return {"out": self.out, "trace": s.trace, "fired": s.fired, "events": s.events, "hash": s.trace_hash(),
                "hangs": s.hangs}


# ------------------------------------------------------------------ generating pieces
def concrete(c, bufs):
    """A call with buffer references replaced by the spec now in the buffer."""
    n = data.deep(c)
    for i, v in enumerate(n["args"]):
        if isinstance(v, dict) and "buf" in v:
            n["args"][i] = data.deep(bufs[v["buf"]])
    for k, v in n["kw"].items():
        if isinstance(v, dict) and "buf" in v:
            n["kw"][k] = data.deep(bufs[v["buf"]])
    return n


def plot_kw(r, opname, c):
    """Options of one plot call for a representation."""
    kw = {}
    size = c["args"][0]["n"]
    size = size if isinstance(size, int) else size[0]
    cls = opname.split(".")[-1]
    affine = cls in ("Scalogram", "BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution")
    if r.random() < 0.75:
        kw["kind"] = r.choice(["cmap", "cmap", "contour", "contour", "surf", "wireframe"])
    if r.random() < 0.6:
        kw["show"] = r.random() < 0.4
    if affine:
        if r.random() < 0.5:
            kw["show_tf"] = r.random() < 0.4
    elif r.random() < 0.35:
        kw["show_tf"] = r.random() < 0.85
    if r.random() < 0.5:
        kw["threshold"] = r.choice([0.0, 0.01, 0.05, 0.2, 0.5, 0.9])
    if r.random() < 0.25:
        kw["default_annotation"] = r.random() < 0.3
    if not affine and cls not in ("Spectrogram",) and r.random() < 0.35:
        kw["sqmod"] = r.random() < 0.5
    if r.random() < 0.25 and "Wigner" in cls:
        kw["scale"] = "log"
        if r.random() < 0.6:
            kw.update(kind="contour", show_tf=True)
    if r.random() < 0.12 and "Margenau" not in cls:
        kw["extent"] = {"list": [0.0, 10.0, 0.0, 0.5]}
    x = r.random()
    if x < 0.14 and kw.get("show_tf", affine):
        n = size
        kw["freq_x"] = data.A("pos", n // 2, r.randrange(3), "f8", "C")
        kw["freq_y"] = data.A(r.choice(["lin", "lin", "desc", "shuf"]), n // 2, 0, "f8", catalog.lay(r), lo=0.0, hi=0.5)
        if r.random() < 0.2:
            kw["freq_x"]["m"] = ["rev"]
        if x < 0.06:
            del kw["freq_x" if x < 0.04 else "freq_y"]
    if r.random() < 0.05 and kw.get("kind") == "cmap" and not kw.get("show_tf", affine):
        kw["interpolation"] = r.choice(["nearest", "bilinear"])
    if r.random() < 0.1:
        kw["cmap"] = r.choice(["viridis", "jet"])
    if kw.get("kind", "contour" if affine else "cmap") == "contour" and kw.get("show_tf", affine) and r.random() < 0.4:
        # the caller's own contour grids and levels
        n = size
        t = c["kw"].get("timestamps")
        cols = t["n"] if isinstance(t, dict) else n
        rows = c["kw"].get("n_voices") or c["kw"].get("n_fbins") or n
        rows = max(2, int(rows)) if type(rows) in (int, float) else n
        if cls in ("ShortTimeFourierTransform", "Spectrogram") or "Margenau" in cls:
            rows = rows // 2
        if r.random() < 0.6:
            kw["contour_x"] = data.A("range", cols, 0, "f8", catalog.lay(r), lo=r.choice([0, 3]))
        if r.random() < 0.6:
            kw["contour_y"] = data.A(r.choice(["lin", "lin", "desc"]), rows, 0, "f8", catalog.lay(r), lo=0.0, hi=0.5)
        if r.random() < 0.5:
            kw["levels"] = r.choice([data.A("lin", 5, 0, "f8", catalog.lay(r), lo=0.01, hi=0.9),
                                     data.A("desc", 4, 0, "f8", "C", lo=0.01, hi=0.9),
                                     {"list": [0.05, 0.1, 0.4, 0.8]}, {"list": [0.4, 0.1, 0.05]}])
    return {"args": [], "kw": kw}


def plot_nudge(r, kw, opname):
    """The same plot with one option changed."""
    x = r.random()
    if x < 0.4:
        kw["threshold"] = r.choice([v for v in (0.0, 0.02, 0.1, 0.3, 0.6, 0.95) if v != kw.get("threshold")])
    elif x < 0.55:
        kw["show"] = not kw.get("show", True)
    elif x < 0.7 and "sqmod" in kw:
        kw["sqmod"] = not kw["sqmod"]
    elif x < 0.8:
        kw["default_annotation"] = not kw.get("default_annotation", True)
    elif x < 0.9 and "Wigner" in opname:
        if kw.pop("scale", None) is None:
            kw["scale"] = "log"
    elif kw.get("kind") in ("cmap", "contour"):
        kw["kind"] = "contour" if kw["kind"] == "cmap" else "cmap"


def gen_plotifl(r):
    n = r.choice([8, 16, 32]) if r.random() < 0.93 else r.choice([2, 3, 5, 33, 64, 100, 128, 257])
    if focus.IFL and r.random() < 0.25:
        n = max(2, mine.near(r, 2000) or n)
    law = data.A("law", n, r.randrange(4), "f8", catalog.lay(r))
    if r.random() < 0.3:
        law["p"] = [[r.randrange(n), -0.6]]
    if r.random() < 0.2:
        law["p"] = law.get("p", []) + [[r.randrange(n), float("nan")]]
    kw = {}
    if r.random() < 0.5:
        kw["signal"] = data.A("chirp", n, r.randrange(4), r.choice(["c16", "f8"]), catalog.lay(r))
    if r.random() < 0.2:
        kw["grid"] = False
    t = data.A("range", n, 0, r.choice(["i8", "f8"]), catalog.lay(r), lo=1)
    x = r.random()
    if x < 0.1:
        t["m"] = [r.choice(["rev", "rev", "neg", "swap", "roll"])]
    elif x < 0.15:
        t = data.A(r.choice(["desc", "shuf", "lin"]), n, r.randrange(3), "f8", catalog.lay(r), lo=0.0, hi=3.0)
    elif x < 0.18 and t["d"] == "f8":
        t["p"] = [[r.randrange(n), r.choice([float("nan"), -5.0])]]
    if r.random() < 0.08:
        law["m"] = [r.choice(["rev", "neg", "x2"])]
    if r.random() < 0.08:
        # arrays that do not fit together: the call fails
        x = r.choice([t, law] + ([kw["signal"]] if "signal" in kw else []))
        x["n"] = n + r.choice([1, 3, -1])
        if "p" in x:
            del x["p"]
    return {"args": [t, law], "kw": kw}


def ifl_share(p):
    """How often a plot step is a plotifl() call."""
    return 0.5 if focus.IFL else p


def _plot_ref(c, runs, p, ax, ifl):
    """Reference: a fresh object (run or not), one plot; what it drew and how long it was."""
    sched.instrument(probe=True)
    rec = sched.Recorder()
    if ifl:
        sc = {"threads": [[{"do": "plotifl", "c": p, "id": 1}]]}
    else:
        steps = [{"do": "new", "o": "o", "c": c, "id": 0}]
        steps += [{"do": "run", "o": "o", "id": 10 + i} for i in range(runs)]
        steps.append({"do": "plot", "o": "o", "c": p, "ax": ax, "id": 1})
        sc = {"threads": [steps]}

    class S(Story):
        def before(self, t, st):
            if st["id"] == 1:
                self.sched.probe = rec
                self.shows = len(boot.SHOW)
                self.figs0 = figs.numbers()
    s = S(sc)
    s.probe = rec
    r = s.go()
    o = r["out"].get((0, 1))
    if o is None:
        return {"o": ("skip",), "k": 0, "sites": [], "figs": {}, "shows": 0, "new": 0}
    return {"o": o["o"], "k": o["k"], "figs": figs.snapshot(), "shows": len(boot.SHOW) - s.shows,
            "new": len(set(figs.numbers()) - set(s.figs0)),
            "sites": sorted((k[0], k[1], v[0], v[1], v[2]) for k, v in rec.sites.items())}


def plot_ref(ctx, c, runs, p, ax):
    return ctx.refs.custom("plot", _plot_ref, c, min(runs, 1), p, ax, False)


def ifl_ref(ctx, p):
    return ctx.refs.custom("ifl", _plot_ref, None, 0, p, None, True)


def _new_ref(c):
    sched.instrument(probe=True)
    rec = sched.Recorder()
    steps = [{"do": "new", "o": "o", "c": c, "id": 0}, {"do": "run", "o": "o", "id": 1}]
    sites = {}

    class S(Story):
        def before(self, t, st):
            self.sched.probe = sites[st["id"]] = sched.Recorder()
    s = S({"threads": [steps]})
    s.probe = rec
    r = s.go()
    fz = {}
    for i in (0, 1):
        o = r["out"].get((0, i), {"o": ("skip",), "k": 0})
        fz[i] = {"o": o["o"], "k": o["k"], "sites": sorted(
            (k[0], k[1], v[0], v[1], v[2]) for k, v in sites[i].sites.items()) if i in sites else []}
    fz["attrs"] = attrs(s.objs["o"]) if "o" in s.objs else None
    return fz


def new_ref(ctx, c):
    """Reference for an object: constructor (0) and first run (1), and the attributes left behind."""
    return ctx.refs.custom("new", _new_ref, c)


def attrs(o):
    return {k: data.freeze(getattr(o, k, None)) for k in ("tfr", "ts", "freqs")}


def fault(r, ref, p_kbd=0.5):
    """[kind, k] for a fault inside a recorded operation, or None."""
    kind = "kbd" if r.random() < p_kbd else "mem"
    k = world.pick_point(r, world.fault_points(ref, kind), ref["k"], True)
    return [kind, k] if k else None


def gen_rng(*key):
    return random.Random("/".join(str(k) for k in key))


def count_faults(rec):
    fk = {}
    for f in rec["fired"]:
        fk[f[2]] = fk.get(f[2], 0) + 1
    return fk


def fault_sites(rec):
    return [(f[4], f[5]) for f in rec["fired"]]


def history_hash(sc, rec):
    """Identity of an executed history: steps with their outcome kind, switches and fired faults."""
    import hashlib
    h = []
    for t, th in enumerate(sc["threads"]):
        for st in th:
            o = rec["out"].get((t, st["id"]))
            h.append((t, st["do"], (st.get("c") or {}).get("op"), o and o["o"][0], o and o["o"][1] if o and o["o"][0] == "exc" else None,
                      o and o["fired"]))
    return hashlib.sha1(repr((h, rec["trace"])).encode()).hexdigest()[:16]

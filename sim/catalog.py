"""The operations of the simulated workload: every public call of tftb with generators for its
arguments.  A call is JSON: {"op": name, "args": [...], "kw": {...}}; arrays are data.A specs."""
import random

from .data import A, is_arr, deep
from . import boot, focus, mine

OPS = {}
P = "processing."
G = "generators."


class Op(object):
    def __init__(self, name, target, gen, kind, tags):
        self.name, self.target, self.gen, self.kind, self.tags = name, target, gen, kind, tags


def op(name, target, kind="fn", **tags):
    def deco(f):
        OPS[name] = Op(name, target, f, kind, tags)
        return f
    return deco


FIXED = ("range", "lin", "desc", "shuf", "remat", "coords")


# ------------------------------------------------------------- argument generators
def N(r, big=True, even=False, pow2=False):
    if focus.INTS and r.random() < 0.25:
        n = mine.near(r, 5000 if big else 200)
        if n and n >= 5:
            return n + 1 if even and n % 2 else n
    if pow2:
        n = r.choice([8, 16, 16, 32, 32, 64])
    else:
        n = r.choice([6, 8, 10, 12, 15, 16, 16, 17, 20, 24, 25, 31, 32, 32, 32, 40, 48, 64])
        x = r.random()
        if big and x < 0.1:
            n = r.choice([65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024, 2048])
        elif x < 0.2:
            n = mine.size(r, 5, 2100 if big else 130)
        elif x < 0.25:
            n = r.randint(5, 130)
    if even and n % 2:
        n += 1
    return n


def S(r, sizes, cap, even=False):
    """A size from a list, now and then a constant of the code or any up to a cap."""
    if focus.INTS and r.random() < 0.25:
        n = mine.near(r, 2 * cap)
        if n and n >= min(sizes):
            return n + 1 if even and n % 2 else n
    x = r.random()
    if x < 0.85:
        return r.choice(sizes)
    n = mine.size(r, min(sizes), cap) if x < 0.95 else r.randint(min(sizes), cap)
    return n + 1 if even and n % 2 else n


def U(r, lo, hi, nd=3):
    if r.random() < (0.25 if focus.FLOATS else 0.04):
        k = mine.floats(lo, hi)
        if k:
            return r.choice(k)
    return round(r.uniform(lo, hi), nd)


def bad(r, p, *vals):
    """An invalid value with probability p, else None."""
    return r.choice(vals) if r.random() < p else None


def lay(r, two=False, extra=()):
    x = r.random()
    if x < 0.58:
        return "C"
    opts = ["step", "rev", "off", "ro"] + (["F"] if two else []) + list(extra)
    return r.choice(opts)


def sig(r, n, cplx=0.7, extra=("col",)):
    k = r.choice(["chirp"] * 5 + ["noise"] * 3 + ["tone", "real", "real", "int", "pulse", "sparse", "const", "loud"])
    if r.random() < 0.015:
        k = "zero"
    if r.random() < cplx and k in ("chirp", "noise", "tone", "sparse", "const", "loud"):
        d = "c16" if r.random() < 0.9 else r.choice(["c8", "c8", "C16"])
    else:
        d = r.choice(["f8", "f8", "f8", "f8", "f4", "i8", "F8"]) if k != "int" else r.choice(["i8", "f8", "i4", "i2"])
        if d == "i8" and k != "int":
            k = "int"
    a = A(k, n, r.randrange(4), d, lay(r, extra=extra))
    if d[0] != "i" and r.random() < 0.03:
        a["p"] = [[r.randrange(n), r.choice([float("nan"), float("inf"), float("-inf"), 1e8, 1e-300])]]
    return a


def win(r, m):
    if r.random() < 0.12:
        m = S(r, [3, 5, 7, 9, 11], 33)
    if r.random() < 0.03:         # even lengths are rejected
        return A("win", (m | 1) + 1, r.randrange(8), "f8", lay(r))
    return A("win", m | 1, r.randrange(12), r.choice(["f8", "f8", "f8", "f4", "F8", "c16"]), lay(r))


def ts(r, n):
    """A time grid for a signal of n samples."""
    x = r.random()
    if x < 0.5:
        return A("range", n, 0, "i8", lay(r), lo=0)
    if x < 0.75:
        m = max(2, n // 2)
        return A("range", m, 0, "i8", lay(r), lo=r.randrange(0, n - m + 1))
    m = max(2, n // 3)
    return A("range", m, 0, "i8", lay(r), lo=r.randrange(1, 2), step=2)


def opt(r, kw, key, p, val):
    if r.random() < p:
        kw[key] = val() if callable(val) else val


def C(*args, **kw):
    return {"args": list(args), "kw": kw}


# ------------------------------------------------------------- generators
def _am(r):
    n = N(r)
    kw = {}
    if r.random() < 0.03:
        return r.choice([0, -1, -5, 1, 2]), kw
    opt(r, kw, "t0", 0.6, lambda: r.choice([U(r, 1, n, 1), r.randrange(1, n + 1)]))
    opt(r, kw, "spread", 0.6, lambda: U(r, 2, n, 1))
    return n, kw


for _n in ("amgauss", "amrect", "amtriang"):
    op(G + _n, G + _n)(lambda r: C(_am(r)[0]) if r.random() < 0.2 else (lambda a: C(a[0], **a[1]))(_am(r)))


@op(G + "amexpos", G + "amexpos")
def _(r):
    n, kw = _am(r)
    opt(r, kw, "kind", 0.6, lambda: r.choice(["bilateral", "unilateral", "unilateral", "nonsense"]))
    return C(n, **kw)


@op(G + "fmconst", G + "fmconst")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "fnorm", 0.8, lambda: r.choice([U(r, -0.5, 0.5), U(r, 0, 0.5), 0.7]) if r.random() < 0.3 else U(r, 0, .5))
    opt(r, kw, "t0", 0.5, lambda: r.randrange(0, n))
    return C(n, **kw)


@op(G + "fmhyp", G + "fmhyp", warns=True)
def _(r):
    n = N(r)
    if r.random() < 0.5:      # stays inside [0, 0.5]
        return C(n, [1, U(r, 0.3, 0.48)], [n, U(r, 0.02, 0.28)])
    return C(n, [r.randrange(1, 4), U(r, 0.3, 0.5)], [r.randrange(5, n + 1), U(r, -0.2, 0.2)])


@op(G + "fmlin", G + "fmlin")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "fnormi", 0.8, lambda: U(r, 0, 0.5))
    opt(r, kw, "fnormf", 0.8, lambda: U(r, 0, 0.5) if r.random() < 0.95 else 0.8)
    opt(r, kw, "t0", 0.5, lambda: r.randrange(1, n + 1))
    return C(n, **kw)


@op(G + "fmodany", G + "fmodany")
def _(r):
    n = N(r)
    a = A("law", n, r.randrange(4), r.choice(["f8", "f8", "f4"]), lay(r, extra=("col",)))
    kw = {}
    opt(r, kw, "t0", 0.6, lambda: r.randrange(0, n))
    return C(a, **kw)


@op(G + "fmpar", G + "fmpar", warns=True)
def _(r):
    n = N(r)
    c = [U(r, 0.3, 0.45), -round(r.uniform(0.1, 0.25) / n, 6), 0.0] if r.random() < 0.5 else \
        [U(r, 0.1, 0.6), round(r.uniform(-0.6, 0.6) / n, 6), round(r.uniform(-0.3, 0.3) / n ** 2, 8)]
    return C(n, c)


@op(G + "fmpower", G + "fmpower", warns=True)
def _(r):
    n = N(r)
    x = r.random()
    if x < 0.4:               # inside: growing power law
        k = -U(r, 0.3, 2.0)
        return C(n, k, [U(r, 0.05, 0.2), round(0.25 / n ** (-k), 9)])
    k = U(r, 0.2, 2.2) if r.random() < 0.8 else 1
    if x < 0.7:
        p = [[1, U(r, 0.3, 0.5)], [n, U(r, 0.05, 0.2)]]
        if r.random() < 0.25:       # the later point first
            p.reverse()
        return C(n, k, p[0] + p[1])
    if x < 0.82:              # leaves at the last samples only: f0 + c * t ** -k
        k = -r.choice([1, 2, 3, 5, 8, 12, 20])
        return C(n, k, [U(r, 0.05, 0.2), r.choice([0.6, 1.0, 3.0, -1.0]) / n ** (-k)])
    return C(n, k, [U(r, -0.1, 0.4), U(r, -0.3, 0.3)])


@op(G + "fmsin", G + "fmsin")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "fnormin", 0.6, lambda: U(r, 0.02, 0.2))
    opt(r, kw, "fnormax", 0.6, lambda: U(r, 0.25, 0.48))
    opt(r, kw, "period", 0.6, lambda: U(r, 4, n, 1))
    opt(r, kw, "t0", 0.5, lambda: r.randrange(1, n))
    opt(r, kw, "fnorm0", 0.4, lambda: U(r, 0.2, 0.25))
    opt(r, kw, "pm1", 0.4, lambda: r.choice([1, -1]))
    return C(n, **kw)


@op(G + "sigmerge", G + "sigmerge")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "ratio", 0.7, lambda: U(r, -10, 10, 1))
    return C(sig(r, n, extra=()), sig(r, n, extra=()), **kw)


@op(G + "scale", G + "scale", fails=True)
def _(r):
    return C(sig(r, 128, extra=()), U(r, 0.5, 2.0), 0.05, 0.45, 128)


@op(G + "anapulse", G + "anapulse")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "ti", 0.7, lambda: r.randrange(0, n))
    return C(n, **kw)


@op(G + "anastep", G + "anastep")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "ti", 0.7, lambda: r.randrange(0, n))
    return C(n, **kw)


@op(G + "anasing", G + "anasing")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "t0", 0.6, lambda: U(r, 1, n, 1))
    opt(r, kw, "h", 0.6, lambda: r.choice([0.0, -0.5, 0.5, 1.0, 2.0]))
    return C(n, **kw)


@op(G + "altes", G + "altes")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "fmin", 0.6, lambda: U(r, 0.02, 0.15))
    opt(r, kw, "fmax", 0.6, lambda: U(r, 0.2, 0.5))
    opt(r, kw, "alpha", 0.4, lambda: r.choice([10, 100, 300, 10000]))
    return C(n, **kw)


@op(G + "atoms", G + "atoms")
def _(r):
    n = N(r, big=False)
    kw = {}
    if r.random() < 0.4:
        kw["e"] = r.choice([[0.5], [0.0, 0.5], [0.6, 0.25], [-0.1], [0.5, 0.1, 0.7]])
    return C(n, A("coords", [r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8]), 4], r.randrange(4), "f8", lay(r, True), N=n, **kw))


@op(G + "doppler", G + "doppler")
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "t0", 0.5, lambda: r.randrange(1, n + 1))
    opt(r, kw, "v_wave", 0.4, lambda: r.choice([340.0, 1500.0]))
    return C(n, U(r, 100, 300, 1), r.choice([U(r, 10, 50, 1), 0.0]), U(r, 5, 20, 1), U(r, 0, 60, 1), **kw)


@op(G + "klauder", G + "klauder")
def _(r):
    kw = {}
    opt(r, kw, "attenuation", 0.6, lambda: U(r, 5, 15, 1))
    opt(r, kw, "f0", 0.6, lambda: U(r, 0.1, 0.4) if r.random() < 0.93 else 0.6)
    return C(N(r), **kw)


@op(G + "mexhat", G + "mexhat")
def _(r):
    return C(U(r, 0.01, 0.5)) if r.random() < 0.9 else C()


@op(G + "gdpower", G + "gdpower")
def _(r):
    kw = {}
    opt(r, kw, "degree", 0.8, lambda: r.choice([0.0, 0.5, -1.0, 1.0, 2.0, 3.0]))
    opt(r, kw, "rate", 0.6, lambda: r.choice([1.0, 2.0, -1.0, 0.5, 0.0]))
    return C(N(r), **kw)


# random generators ("rng": they consume numpy's global stream)
@op(G + "noisecu", G + "noisecu", rng=True)
def _(r):
    return C(r.choice([1, 2, 3, 4, 5, 7]) if r.random() < 0.2 else N(r))


@op(G + "noisecg", G + "noisecg", rng=True)
def _(r):
    return C(r.choice([1, 2, 3, 4, 5, 7]) if r.random() < 0.2 else N(r))


@op(G + "dopnoise", G + "dopnoise", rng=True)
def _(r):
    n = N(r, big=False)
    kw = {}
    opt(r, kw, "time_center", 0.5, lambda: U(r, 1, n, 1))
    opt(r, kw, "c", 0.3, lambda: 1500)
    return C(n, U(r, 100, 300, 1), U(r, 10, 50, 1), U(r, 5, 20, 1), U(r, 0, 60, 1), **kw)


def _key(r):
    n = N(r)
    kw = {}
    opt(r, kw, "n_comp", 0.75, lambda: r.choice([1, 2, 3, 4, 5, 7, 8, max(1, n // 3), max(1, n // 2), n]))
    if focus.INTS and r.random() < 0.2:
        kw["n_comp"] = mine.near(r, n) or 1
    return n, kw


for _n in ("anaask", "anabpsk", "anaqpsk"):
    def _g(r):
        n, kw = _key(r)
        opt(r, kw, "f0", 0.7, lambda: U(r, 0, 0.5) if r.random() < 0.95 else 0.6)
        return C(n, **kw)
    op(G + _n, G + _n, rng=True)(_g)


@op(G + "anafsk", G + "anafsk", rng=True)
def _(r):
    n, kw = _key(r)
    opt(r, kw, "Nbf", 0.6, lambda: r.choice([1, 2, 3, 4, 5, 8]))
    if focus.INTS and r.random() < 0.2:
        kw["Nbf"] = mine.near(r) or 4
    return C(n, **kw)


# ------------------------------------------------------------- processing: functions
@op(P + "loctime", P + "time_domain.loctime")
def _(r):
    return C(sig(r, N(r)))


@op(P + "locfreq", P + "freq_domain.locfreq")
def _(r):
    return C(sig(r, N(r)))


@op(P + "inst_freq", P + "freq_domain.inst_freq", echo=("t",))
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "t", 0.6, lambda: A("range", max(2, n - 3 - r.randrange(0, n // 3)), 0, "i8",
                                   lay(r, extra=("col",)), lo=2))
    return C(sig(r, n, 0.6), **kw)


@op(P + "group_delay", P + "freq_domain.group_delay", echo=("fnorm",))
def _(r):
    n = N(r)
    kw = {}
    opt(r, kw, "fnorm", 0.6, lambda: A("lin", r.choice([4, 7, 9]), 0, "f8", lay(r), lo=0.1, hi=U(r, 0.3, 0.4)))
    return C(sig(r, n), **kw)


@op(P + "narrow_band", P + "ambiguity.narrow_band", echo=("lag",))
def _(r):
    n = N(r, big=False)
    kw = {}
    opt(r, kw, "lag", 0.5, lambda: A("range", n // 2, 0, r.choice(["i8", "f8"]), lay(r), lo=-(n // 4)))
    opt(r, kw, "n_fbins", 0.4, lambda: n + r.choice([0, 2, 8]))
    return C(sig(r, n, extra=()), **kw)


@op(P + "wide_band", P + "ambiguity.wide_band")
def _(r):
    n = S(r, [16, 20, 24, 32], 64)
    kw = {}
    opt(r, kw, "fmin", 0.5, lambda: U(r, 0.05, 0.15))
    opt(r, kw, "fmax", 0.5, lambda: U(r, 0.3, 0.45))
    opt(r, kw, "N", 0.5, lambda: r.choice([8, 16, 32]))
    return C(sig(r, n), **kw)


@op(P + "smoothed_pseudo_wigner_ville", P + "cohen.smoothed_pseudo_wigner_ville", echo=("timestamps",))
def _(r):
    n = S(r, [8, 12, 16, 20, 24], 64)
    kw = {}
    opt(r, kw, "timestamps", 0.4, lambda: ts(r, n))
    opt(r, kw, "freq_bins", 0.4, lambda: r.choice([n, n // 2 * 2, 2 * n, 6]))
    opt(r, kw, "twindow", 0.5, lambda: win(r, r.choice([3, 5])))
    opt(r, kw, "fwindow", 0.5, lambda: win(r, r.choice([5, 7])))
    return C(sig(r, n, 0.9, extra=()), **kw)


def _reas(r, tname, wname, fb="n_fbins"):
    n = S(r, [8, 10, 12, 16], 40)
    kw = {}
    opt(r, kw, tname, 0.4, lambda: ts(r, n))
    opt(r, kw, fb, 0.4, lambda: r.choice([n, n, n + 4, n - 2, 2 * n, 2 * n + 3, 3 * n, 5 * n, 4, 6]))
    opt(r, kw, wname, 0.9, lambda: win(r, r.choice([3, 5, 7])))
    return C(sig(r, n, 0.9, extra=()), **kw)


op(P + "reassigned.spectrogram", P + "reassigned.spectrogram", echo=("time_samples",))(
    lambda r: _reas(r, "time_samples", "window"))
op(P + "reassigned.pseudo_wigner_ville", P + "reassigned.pseudo_wigner_ville", echo=("timestamps",))(
    lambda r: _reas(r, "timestamps", "fwindow"))
op(P + "reassigned.pseudo_margenau_hill", P + "reassigned.pseudo_margenau_hill", fails=True)(
    lambda r: _reas(r, "timestamps", "fwindow"))
op(P + "reassigned.pseudo_page", P + "reassigned.pseudo_page", fails=True)(
    lambda r: _reas(r, "timestamps", "fwindow"))


@op(P + "reassigned.morlet_scalogram", P + "reassigned.morlet_scalogram", fails=True)
def _(r):
    n = r.choice([8, 12, 16])
    return C(sig(r, n, 0.9, extra=()), tbp=r.choice([0.25, 1.0, 2.5]))


@op(P + "reassigned.smoothed_pseudo_wigner_ville", P + "reassigned.smoothed_pseudo_wigner_ville", fails=True)
def _(r):
    c = _reas(r, "timestamps", "fwindow")
    opt(r, c["kw"], "twindow", 0.7, lambda: win(r, 3))
    return c


@op(P + "affine.smoothed_pseudo_wigner", P + "affine.smoothed_pseudo_wigner", fails=True)
def _(r):
    return C(sig(r, 16, 0.9, extra=()), fmin=0.1, fmax=0.4, n_voices=16)


@op(P + "affine.lambdak", P + "affine.lambdak")
def _(r):
    return C(U(r, -2, 2) if r.random() < 0.95 else 0, r.choice(["bertrand", "unterberger", "d_flandrin", "aspwv"]))


GABOR_OK = [(16, 2, 2), (16, 4, 1), (16, 4, 4), (16, 8, 4), (20, 4, 4), (24, 3, 3), (24, 8, 8), (32, 8, 2), (32, 16, 8),
            (36, 6, 1), (36, 12, 4), (48, 12, 3), (64, 8, 1), (64, 16, 4)]


@op(P + "gabor", P + "linear.gabor")
def _(r):
    n, nc, q = r.choice(GABOR_OK if r.random() < 0.85 else [(16, 8, 2), (36, 6, 1), (64, 8, 2)])
    kw = {"n_coeff": nc, "q_oversample": q}
    opt(r, kw, "window", 0.5, lambda: win(r, r.choice([3, 5])))
    return C(sig(r, n, extra=()), **kw)


@op(P + "hough_transform", P + "postprocessing.hough_transform")
def _(r):
    m, n = r.choice([(4, 4), (5, 6), (6, 5), (7, 7), (8, 8)]) if r.random() < 0.9 else (S(r, [4, 8], 14), S(r, [4, 8], 14))
    kw = {}
    opt(r, kw, "m", 0.4, lambda: S(r, [5, 8, 11, 20], 64))
    opt(r, kw, "n", 0.4, lambda: S(r, [5, 8, 11, 20], 64))
    if r.random() < 0.12:
        kw["m"], kw["n"] = r.choice([16, 24, 40, 64]), r.choice([16, 20, 32])
    if r.random() < (0.3 if focus.INTS else 0.04):     # a large image, a small transform
        s = mine.side(r, 130) or r.choice([20, 33, 40])
        kw["m"], kw["n"] = r.choice([(3, 4), (4, 4), (5, 3)])
        m, n = s, s + r.choice([0, 1])
    return C(A(r.choice(["tfr", "pos"]), [m, n], r.randrange(4), "f8", lay(r, True)), **kw)


@op(P + "renyi_information", P + "postprocessing.renyi_information")
def _(r):
    m, n = r.choice([(8, 8), (8, 12), (16, 10), (12, 16)]) if r.random() < 0.85 else (S(r, [8, 12], 130), S(r, [8, 12], 130))
    kw = {}
    opt(r, kw, "timestamps", 0.7, lambda: A("range", n, 0, r.choice(["i8", "f8"]), lay(r), lo=r.choice([0, 0, 1])))
    opt(r, kw, "freq", 0.7, lambda: A(r.choice(["shuf", "lin"]), m, r.randrange(3), "f8", lay(r), lo=0.0, hi=0.5))
    opt(r, kw, "alpha", 0.6, lambda: r.choice([1, 2, 3.0, 0.5]))
    return C(A(r.choice(["tfr", "pos", "tfr", "real"]), [m, n], r.randrange(4), "f8", lay(r, True)), **kw)


@op(P + "ideal_tfr", P + "postprocessing.ideal_tfr", echo=("timestamps",))
def _(r):
    n = S(r, [8, 12, 16, 24], 130)
    kw = {}
    opt(r, kw, "timestamps", 0.5, lambda: ts(r, n))
    opt(r, kw, "n_fbins", 0.5, lambda: r.choice([n, 2 * n]))
    a = A("law", [r.choice([1, 2]), n], r.randrange(4), "f8", lay(r, True))
    if r.random() < 0.15:
        a["p"] = [[r.randrange(0, 2), float("nan")]]
    return C(a, **kw)


@op(P + "friedman_density", P + "postprocessing.friedman_density")
def _(r):
    m, n = r.choice([(8, 8), (12, 10)]) if r.random() < 0.85 else (S(r, [8, 12], 40), S(r, [8, 12], 40))
    kw = {}
    opt(r, kw, "timestamps", 0.3, lambda: A("range", n, 0, "i8", lay(r), lo=0))
    return C(A("tfr", [m, n], r.randrange(4), "f8", lay(r, True)),
             A("remat", [m, n], r.randrange(4), "c16", lay(r, True)), **kw)


@op(P + "ridges", P + "postprocessing.ridges")
def _(r):
    m, n = r.choice([(8, 8), (12, 10)]) if r.random() < 0.85 else (S(r, [8, 12], 40), S(r, [8, 12], 40))
    kw = {}
    opt(r, kw, "timestamps", 0.3, lambda: A("range", n, 0, "i8", lay(r), lo=0))
    opt(r, kw, "method", 0.8, lambda: r.choice(["rsp", "rpwv", "rpmh", "rspwv", "RSP", "type1", "nope"]))
    return C(A("tfr", [m, n], r.randrange(4), "f8", lay(r, True)),
             A("remat", [m, n], r.randrange(4), r.choice(["c16", "f8"]), lay(r, True)), **kw)


@op(P + "utils.integrate_2d", P + "utils.integrate_2d")
def _(r):
    m, n = r.choice([(4, 6), (8, 8), (9, 5)]) if r.random() < 0.85 else (S(r, [4, 6], 130), S(r, [4, 6], 130))
    kw = {}
    opt(r, kw, "x", 0.6, lambda: A("lin", n, 0, "f8", lay(r), lo=0.0, hi=U(r, 1, 9)))
    opt(r, kw, "y", 0.6, lambda: A("lin", m, 0, "f8", lay(r), lo=0.0, hi=U(r, 1, 9)))
    return C(A("real", [m, n], r.randrange(4), "f8", lay(r, True)), **kw)


@op(P + "utils.derive_window", P + "utils.derive_window")
def _(r):
    return C(win(r, S(r, [3, 5, 9, 15, 21], 130)))


@op(P + "utils.get_spectrum", P + "utils.get_spectrum")
def _(r):
    return C(sig(r, N(r), extra=()))


@op("utils.is_linear", "utils.is_linear")
def _(r):
    kw = {}
    opt(r, kw, "decimals", 0.4, lambda: r.choice([1, 3, 7]))
    return C(A(r.choice(["lin", "real", "range"]), N(r, big=False), r.randrange(4), "f8", lay(r)), **kw)


@op("utils.izak", "utils.izak")
def _(r):
    return C(A("noise", r.choice([[4, 4], [3, 5], [8, 2], [S(r, [4], 40), S(r, [4], 40)], S(r, [4, 9], 40)]), r.randrange(4), "c16", lay(r, True)))


@op("utils.nextpow2", "utils.nextpow2")
def _(r):
    return C(r.choice([1, 2, 3, 7, 8, 9, 100, 1000, 5.5, mine.size(r, 2, 4096), r.randrange(1, 5000)]))


@op("utils.divider", "utils.divider")
def _(r):
    n = [r.randrange(1, 400), r.randrange(1, 20) ** 2, mine.size(r, 1, 4096)]
    if r.random() < 0.2:
        # a root beyond the recursion limit, a prime, a product of two primes
        n = [r.randrange(1, 5000000), 1299709, 1009 * 1013, 2 * 999983]
    return C(r.choice(n))


@op("utils.nearest_odd", "utils.nearest_odd")
def _(r):
    x = r.random()
    if x < 0.5:
        return C(r.choice([0, 1, 2, 3, 4, 7.5, 8.2, 10]))
    if x < 0.75:
        return C({"list": [r.randrange(0, 20) for _ in range(5)]})
    return C(A("range", r.choice([4, 8]), 0, r.choice(["f8", "i8"]), lay(r), lo=r.choice([0, 1, 1]),
               step=r.choice([1, 1, 2, 3])))


@op("utils.modulo", "utils.modulo")
def _(r):
    return C(A(r.choice(["range", "int", "noise"]), r.choice([6, 10, 16]), r.randrange(3),
               r.choice(["i8", "f8", "c16"]), lay(r)), r.choice([2, 3, 4, 8]))


# ------------------------------------------------------------- processing: representations
def _rep(r, sizes, windows=True, evenonly=False, tsp=0.25, cap=130):
    n = S(r, sizes, cap)
    kw = {}
    opt(r, kw, "timestamps", tsp, lambda: ts(r, n))
    opt(r, kw, "n_fbins", 0.3, lambda: r.choice([n, n, n + 4, 2 * n]) if r.random() < 0.8 else
        r.choice([2 * n + 1, 3 * n, 4 * n, n // 2, n + 1, n - 1, 6]))
    if windows:
        opt(r, kw, "fwindow", 0.5, lambda: win(r, r.choice([3, 5, 7, 9])))
    return C(sig(r, n, 0.8), **kw)


SM = [8, 12, 15, 16, 16, 20, 24, 32, 32]
op(P + "ShortTimeFourierTransform", P + "linear.ShortTimeFourierTransform", "cls", echo=("timestamps",))(
    lambda r: _rep(r, SM + [64, 128], cap=260))
op(P + "Spectrogram", P + "cohen.Spectrogram", "cls", echo=("timestamps",))(lambda r: _rep(r, SM + [64, 128], cap=260))
op(P + "WignerVilleDistribution", P + "cohen.WignerVilleDistribution", "cls", echo=("timestamps",))(
    lambda r: _rep(r, [8, 12, 16, 16, 20, 24, 32, 32, 64, 128], False, tsp=0.12))
op(P + "PseudoWignerVilleDistribution", P + "cohen.PseudoWignerVilleDistribution", "cls", echo=("timestamps",))(
    lambda r: _rep(r, [8, 12, 16, 16, 20, 24, 32, 32, 64], tsp=0.12))
op(P + "MargenauHillDistribution", P + "cohen.MargenauHillDistribution", "cls", echo=("timestamps",))(
    lambda r: _rep(r, SM + [64], False))
op(P + "PseudoMargenauHillDistribution", P + "cohen.PseudoMargenauHillDistribution", "cls", echo=("timestamps",))(
    lambda r: _rep(r, SM + [64]))
op(P + "PageRepresentation", P + "cohen.PageRepresentation", "cls", echo=("timestamps",))(
    lambda r: _rep(r, SM, False))
op(P + "PseudoPageRepresentation", P + "cohen.PseudoPageRepresentation", "cls", echo=("timestamps",), fails=True)(
    lambda r: _rep(r, [16], True))


@op(P + "Scalogram", P + "affine.Scalogram", "cls")
def _(r):
    n = S(r, [12, 16, 16, 20, 24, 32], 70)
    kw = {}
    if r.random() < 0.7:
        kw["fmin"], kw["fmax"] = U(r, 0.05, 0.15), U(r, 0.3, 0.45)
    opt(r, kw, "n_voices", 0.2, lambda: n)
    opt(r, kw, "waveparams", 0.5, lambda: r.choice([U(r, 2, 5, 1), 0, 3]))
    return C(sig(r, n, 0.7), **kw)


def _aff(r, form=False):
    n = S(r, [12, 16, 16, 20, 24], 64)
    kw = {"fmin": U(r, 0.05, 0.15), "fmax": U(r, 0.3, 0.45), "n_voices": r.choice([8, 12, n])}
    if r.random() < 0.08:
        del kw["n_voices"]
    if r.random() < 0.08:
        del kw["fmin"]
    if form:
        opt(r, kw, "form", 0.6, lambda: r.choice(["A", "A", "A", "P"]))
    opt(r, kw, "timestamps", 0.12, lambda: ts(r, n))
    return C(sig(r, n, 0.7), **kw)


op(P + "BertrandDistribution", P + "affine.BertrandDistribution", "cls", echo=("timestamps",))(_aff)
op(P + "DFlandrinDistribution", P + "affine.DFlandrinDistribution", "cls", echo=("timestamps",))(_aff)
op(P + "UnterbergerDistribution", P + "affine.UnterbergerDistribution", "cls", echo=("timestamps",))(
    lambda r: _aff(r, True))


# ------------------------------------------------------------- access
def resolve(name):
    """The live callable of an op, from the tftb modules."""
    o = OPS[name]
    parts = o.target.split(".")
    mod = boot.MODULES["tftb"]
    obj = mod
    dotted = "tftb"
    for p in parts:
        dotted2 = dotted + "." + p
        if dotted2 in boot.MODULES:
            obj = boot.MODULES[dotted2]
            dotted = dotted2
        else:
            obj = getattr(obj, p)
    return obj


ALL = sorted(OPS)
DET = [n for n in ALL if not OPS[n].tags.get("rng")]
RNG = [n for n in ALL if OPS[n].tags.get("rng")]
CLS = [n for n in ALL if OPS[n].kind == "cls"]
WARN = [n for n in ALL if OPS[n].tags.get("warns")]
_fails = set(n for n in ALL if OPS[n].tags.get("fails"))


def weight(n):
    return 0.15 if n in _fails else (2.0 if OPS[n].kind == "cls" else 1.0)


def pick_op(r, names, plots=False):
    names = focus.plotted(r, names) if plots else focus.some(r, names)
    w = [weight(n) for n in names]
    return r.choices(names, w)[0]


def call(name, r):
    c = OPS[name].gen(r)
    c["op"] = name
    x = r.random()
    if x < 0.12:
        spice(c, r)
    elif x < 0.15:
        corner(c, r)
    elif x < (0.35 if name in focus.OPS else 0.22):
        edge(c, r)
    if focus.INTS and OPS[name].kind == "fn" and r.random() < 0.12:
        a = [v for v in c["args"] if is_arr(v) and isinstance(v["n"], list) and v["a"] not in FIXED]
        s = mine.side(r, 64)
        if a and s and len(c["args"]) == 1:
            c["args"][0]["n"] = [s, s + r.choice([0, 0, 1, 3])]
            c["kw"] = {k: v for k, v in c["kw"].items() if not is_arr(v)}
    return c


def edge(c, r):
    """One number at a limit of its range, or beyond it."""
    slots = [(c["args"], i) for i, v in enumerate(c["args"]) if isinstance(v, float) or i and type(v) is int]
    slots += [(c["kw"], k) for k in sorted(c["kw"]) if type(c["kw"][k]) in (int, float)]
    if slots:
        box, k = r.choice(slots)
        box[k] = r.choice([0, 1, -box[k], 2 * box[k]]) if type(box[k]) is int else \
            r.choice([0.0, 0.0, 0.5, 1.0, -box[k], -box[k], box[k] / 2, 2 * box[k], 0])


def corner(c, r):
    """A degenerate argument: one or two samples, or another number of dimensions."""
    arrs = [v for v in c["args"] if is_arr(v)] + [c["kw"][k] for k in sorted(c["kw"]) if is_arr(c["kw"][k])]
    arrs = [a for a in arrs if isinstance(a["n"], int) and a["a"] not in FIXED and a["a"] != "win"]
    if not arrs:
        return
    a = r.choice(arrs)
    a.pop("p", None)
    if r.random() < 0.5:
        a["n"] = r.choice([1, 1, 2, 3])
    else:
        a["a"] = "int" if a["d"][0] == "i" else "noise"
        a["n"] = r.choice([[4, 4], [8, 3], [1, 8], [8, 1]])
        a["l"] = r.choice(["C", "F", "C", "step", "ro"])


def spice(c, r):
    """Unusual contents in one array argument: undefined, huge, negated, all zero, descending, repeated."""
    arrs = [v for v in c["args"] if is_arr(v)] + [c["kw"][k] for k in sorted(c["kw"]) if is_arr(c["kw"][k])]
    if not arrs:
        return
    a = r.choice(arrs)
    size = a["n"] if isinstance(a["n"], int) else a["n"][0] * a["n"][1]
    if a["a"] in FIXED:
        x = r.random()
        if x < 0.6:
            a["m"] = [r.choice(["rev", "rev", "swap", "neg", "roll"])]
        elif x < 0.85 or a["d"][0] == "i":
            a["p"] = [[r.randrange(size), r.choice([1, -1])]]
        else:
            a["p"] = [[r.randrange(size), float("nan")]]
    elif a["d"][0] == "i":
        a["m"] = [r.choice(["neg", "rev", "x2"])]
    else:
        x = r.random()
        if x < 0.4:
            a["p"] = [[r.choice([r.randrange(size), r.randrange(size), 0, size - 1]),
                       r.choice([float("nan")] * 3 + [float("inf"), float("-inf"), 1e6, -1e6, -0.7])]
                      for _ in range(r.choice([1, 1, 2, 3]))]
        elif x < 0.7:
            a["m"] = [r.choice(["neg", "x2", "x2", "rev", "conj"])]
        else:
            a["a"] = r.choice(["zero", "const"])


def variant(name, k, seed):
    """The k-th argument variant of an op for a check seed (a fixed universe of calls, so that
    reference results can be shared between simulated runs)."""
    return call(name, random.Random("%s/%d/%d" % (name, k, seed)))



def nudge(n, r):
    """Change one number of a call slightly, or only its type."""
    slots = []
    for w, k in [("args", i) for i in range(len(n["args"]))] + [("kw", k) for k in sorted(n["kw"])]:
        v = n[w][k]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            slots.append((n[w], k))
        elif isinstance(v, list) and v and isinstance(v[0], (int, float)):
            slots += [(v, j) for j in range(len(v))]
    if not slots:
        return False
    box, k = r.choice(slots)
    v = box[k]
    if isinstance(v, float) or (box is not n["args"] and r.random() < 0.5):
        x = r.random()
        if x < 0.2:
            box[k] = int(v) if float(v) == int(v) else -v
        elif x < 0.35 and isinstance(v, int):
            box[k] = float(v)
        else:
            box[k] = v + r.choice([1, -1]) * r.choice([1e-2, 1e-3, 4e-4, 1e-4, 1e-5])
    elif r.random() < 0.15:
        box[k] = float(v)
    else:
        box[k] = v + r.choice([1, -1, 2])
    return True


def ladder(c, r):
    """Calls that differ from c by less and less in one number (or one sample of an array)."""
    out = []
    slots = []
    for w, k in [("args", i) for i in range(len(c["args"]))] + [("kw", k) for k in sorted(c["kw"])]:
        v = c[w][k]
        if isinstance(v, float):
            slots += [(w, k, None)] * 3
        elif isinstance(v, list) and v and isinstance(v[0], (int, float)):
            slots += [(w, k, j) for j in range(len(v))]
        elif is_arr(v) and v["d"][0] != "i" and v["a"] not in FIXED:
            slots.append((w, k, None))
    if not slots:
        return [c]
    w, k, j = r.choice(slots)
    for e in sorted(r.sample(range(1, 8), r.choice([2, 3, 4]))):
        n = deep(c)
        d = r.choice([1, -1]) * r.uniform(1, 3) * 10.0 ** -e
        v = n[w][k]
        if is_arr(v):
            size = v["n"] if isinstance(v["n"], int) else v["n"][0] * v["n"][1]
            v["p"] = v.get("p", []) + [[r.choice([0, size // 2, size - 1, r.randrange(size)]), d]]
        elif j is None:
            n[w][k] = v + d
        else:
            v[j] = v[j] + d
        out.append(n)
    return out + [c]


def neighbor(c, r):
    """A call that differs from c in one respect (same op)."""
    n = deep(c)
    slots = [("args", i) for i in range(len(n["args"]))] + [("kw", k) for k in n["kw"]]
    x = r.random()
    arrs = [s for s in slots if is_arr(n[s[0]][s[1]])]
    if arrs and x < 0.62:
        s = r.choice(arrs)
        a = n[s[0]][s[1]]
        y = r.random()
        size = a["n"] if isinstance(a["n"], int) else a["n"][0] * a["n"][1]
        if y < 0.4:
            a["s"] = a["s"] + r.choice([1, 2, 3])
            if a["a"] in ("range", "lin"):
                a.setdefault("q", {})
                a["q"]["lo"] = a["q"].get("lo", 0) + 1
        elif y < 0.5 and a["a"] not in FIXED and a["d"][0] != "i":
            a["m"] = (a.get("m", []) + [r.choice(["neg", "conj", "rev", "x2", "swap", "roll"])])[-2:]
        elif y < 0.75:
            if a["d"][0] != "i" and a["a"] not in FIXED:
                a["p"] = a.get("p", []) + [[r.choice([size // 2, size // 3, size - 1, 0, 1, r.randrange(size)]),
                                            r.choice([0.25, 1e-2, -0.3, 1e-4, float("nan")])]]
            else:
                a["s"] += 1
        elif y < 0.88:
            a["l"] = r.choice(["C", "step", "rev", "off", "ro"])
        else:
            a["d"] = {"c16": "c8", "c8": "c16", "f8": "f4", "f4": "f8", "i8": "f8", "i4": "i8"}.get(a["d"], a["d"])
            if a["a"] == "range":
                a["d"] = "i8"
        return n
    if r.random() < 0.4 and nudge(n, r):
        return n
    if x < 0.9:
        f = call(c["op"], r)
        keys = [k for k in set(f["kw"]) | set(n["kw"])
                if f["kw"].get(k) != n["kw"].get(k) and not is_arr(f["kw"].get(k)) and not is_arr(n["kw"].get(k))]
        keys.sort()
        sc = [i for i, v in enumerate(n["args"]) if not is_arr(v) and i < len(f["args"]) and
              f["args"][i] != v and not is_arr(f["args"][i])]
        pick = r.choice([("kw", k) for k in keys] + [("args", i) for i in sc]) if keys or sc else None
        if pick:
            if pick[0] == "args":
                n["args"][pick[1]] = f["args"][pick[1]]
            elif pick[1] in f["kw"]:
                n["kw"][pick[1]] = f["kw"][pick[1]]
            else:
                del n["kw"][pick[1]]
            return n
    return call(c["op"], r)

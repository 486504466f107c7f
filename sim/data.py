"""Array specifications (JSON) <-> arrays, frozen outcomes and their comparison."""
import copy
import hashlib
import json

import numpy as np

DT = {"c16": np.complex128, "c8": np.complex64, "f8": np.float64, "f4": np.float32,
      "i8": np.int64, "i4": np.int32, "i2": np.int16, "b": np.bool_, "F8": ">f8", "C16": ">c16"}
DT = {k: np.dtype(v) for k, v in DT.items()}


def A(kind, n, s=0, d="f8", l="C", **q):
    a = {"a": kind, "n": n, "s": s, "d": d, "l": l}
    if q:
        a["q"] = q
    return a


def is_arr(v):
    return isinstance(v, dict) and "a" in v


def content(spec):
    """The values of a spec; what the caller has set up for floating-point errors does not matter here."""
    with np.errstate(all="ignore"):
        return _content(spec)


def _content(spec):
    kind, n, s, q = spec["a"], spec["n"], spec["s"], spec.get("q", {})
    shape = tuple(n) if isinstance(n, list) else (n,)
    g = np.random.Generator(np.random.PCG64([s, sum(map(ord, kind)), 77]))
    m = shape[0]
    t = np.arange(m)
    if kind == "chirp":
        f0, f1 = 0.06 + 0.1 * g.random(), 0.3 + 0.14 * g.random()
        ph = 2 * np.pi * (f0 * t + (f1 - f0) * t ** 2 / (2.0 * max(m, 2)))
        x = np.exp(1j * ph) * np.exp(-((t - m * (0.35 + 0.3 * g.random())) / (0.45 * m + 1)) ** 2)
        x = x + 0.03 * (g.standard_normal(m) + 1j * g.standard_normal(m))
    elif kind == "noise":
        x = g.standard_normal(shape) + 1j * g.standard_normal(shape)
    elif kind == "tone":
        x = np.exp(2j * np.pi * (0.1 + 0.3 * g.random()) * t + 1j * g.random()) \
            + 0.02 * g.standard_normal(m)
    elif kind == "real":
        x = g.standard_normal(shape) + 0.4
    elif kind == "pos":
        x = g.random(shape) + 0.05
    elif kind == "int":
        x = g.integers(-6, 7, shape)
        x.flat[0] = 3
    elif kind == "pulse":
        x = 1e-3 * g.standard_normal(m)
        x[m // 2] = 1.0
    elif kind == "sparse":            # exact zeros
        x = (g.standard_normal(shape) + 1j * g.standard_normal(shape)) * (g.random(shape) < 0.4)
        x.flat[x.size // 2] = 1.0
    elif kind == "const":
        x = np.full(shape, 0.7 + 0.1 * s, dtype=complex)
    elif kind == "loud":              # far above unit amplitude, with an offset
        x = 40 * (g.standard_normal(shape) + 1j * g.standard_normal(shape)) + 25
    elif kind == "zero":
        x = np.zeros(shape)
    elif kind == "win":
        i = (t - (m - 1) / 2.0) / max(m / 2.0, 1.0)
        x = [0.54 + 0.46 * np.cos(np.pi * i), np.exp(-3 * i ** 2), 1 - 0.9 * np.abs(i),
             np.ones(m)][s % 4] + 0.0
        if s >= 8:                    # zeros at the ends
            x = x.copy()
            x[0] = x[-1] = 0.0
        x = x * (1 + 0.1 * (s // 4))
        if spec["d"] in ("c16", "c8"):
            x = x * np.exp(1j * (0.3 + 0.25 * s) * (t - (m - 1) // 2))
    elif kind == "range":
        x = q.get("lo", 0) + q.get("step", 1) * t
    elif kind == "lin":
        x = np.linspace(q.get("lo", 0.0), q.get("hi", 0.5), m)
    elif kind == "desc":
        x = np.linspace(q.get("hi", 0.5), q.get("lo", 0.0), m)
    elif kind == "shuf":
        x = g.permutation(np.linspace(q.get("lo", 0.0), q.get("hi", 0.5), m))
    elif kind == "law":
        x = 0.25 + 0.2 * np.sin(2 * np.pi * (t / max(m, 1.0) + g.random()))
        if len(shape) == 2:
            x = 0.25 + 0.2 * np.sin(2 * np.pi * (np.arange(shape[1])[None, :] / shape[1]
                                                 + g.random(shape[0])[:, None]))
    elif kind == "tfr":
        r, c = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
        x = np.exp(-((r - shape[0] * (0.2 + 0.6 * g.random())) / (0.3 * shape[0])) ** 2
                   - ((c - shape[1] * (0.2 + 0.6 * g.random())) / (0.3 * shape[1])) ** 2)
        x = x + 0.05 * g.random(shape)
    elif kind == "remat":
        x = g.integers(0, shape[0], shape) + 1j * g.integers(0, shape[1], shape)
        # some cells map to themselves, as ridges() looks for
        r, c = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
        keep = g.random(shape) < 0.5
        x = np.where(keep, r + 1j * c, x)
    elif kind == "coords":
        x = np.stack([g.uniform(1, q.get("N", 32), shape[0]), g.uniform(0, 0.5, shape[0]),
                      g.uniform(4, 20, shape[0]), g.uniform(0.5, 1.5, shape[0])], axis=1)
        if "e" in q:                # centres and frequencies on or beyond the limits
            x[:, 1] = np.resize(q["e"], shape[0])
            x[0, 0] = g.choice([0, 1, q.get("N", 32), q.get("N", 32) + 3])
    else:
        raise ValueError(kind)
    x = np.asarray(x)
    for idx, val in spec.get("p", []):
        x = x.astype(complex) if np.iscomplexobj(x) else (
            x if x.dtype.kind == "i" and spec["d"][0] == "i" else x.astype(float))
        x.flat[idx % x.size] = x.flat[idx % x.size] + val
    for m_ in spec.get("m", []):
        x = {"neg": lambda: -x, "conj": lambda: np.conj(x), "rev": lambda: x[::-1], "x2": lambda: 2 * x,
             "swap": lambda: _swap(x), "roll": lambda: np.roll(x, 1)}[m_]()
    dt = DT[spec["d"]]
    if np.issubdtype(dt, np.complexfloating):
        return x.astype(dt)
    if np.iscomplexobj(x):
        x = np.real(x)
    if np.issubdtype(dt, np.integer) and x.dtype.kind == "f":
        x = np.round(x * (1 if kind in ("range",) else 4))
    return x.astype(dt)


def _swap(x):
    y = np.array(x)
    f = y.reshape(-1)
    i, j = f.size // 3, (2 * f.size) // 3
    f[i], f[j] = f[j].copy(), f[i].copy()
    return f.reshape(y.shape)


def build(spec):
    """A fresh array object for a spec."""
    x = content(spec)
    lay = spec["l"]
    if lay == "C":
        return np.ascontiguousarray(x)
    if lay == "ro":
        y = np.ascontiguousarray(x).copy()
        y.flags.writeable = False
        return y
    if lay == "step":
        if x.ndim == 1:
            b = np.full(2 * x.shape[0], 7, dtype=x.dtype)
            y = b[::2]
        else:
            b = np.full((x.shape[0], 2 * x.shape[1]), 7, dtype=x.dtype)
            y = b[:, ::2]
        y[...] = x
        return y
    if lay == "rev":
        b = np.ascontiguousarray(x[::-1])
        return b[::-1]
    if lay == "off":
        b = np.full((x.size + 3,), 7, dtype=x.dtype)
        y = b[2:2 + x.size].reshape(x.shape)
        y[...] = x
        return y
    if lay == "F":
        return np.asfortranarray(x)
    if lay == "col":
        return np.ascontiguousarray(x).reshape(-1, 1) if x.ndim == 1 else x
    if lay == "row":
        return np.ascontiguousarray(x).reshape(1, -1) if x.ndim == 1 else x
    raise ValueError(lay)


def fill(arr, spec):
    """Overwrite an existing buffer in place with the content of a spec of the same shape."""
    x = content(spec)
    arr[...] = x.reshape(arr.shape)


def scribble(arr, s=0):
    """Overwrite an array in place with unrelated values."""
    if not arr.flags.writeable or arr.size == 0:
        return False
    if s == 2 and arr.dtype.kind in "cfiub" and np.any(arr):
        arr[...] = 0
    elif arr.dtype.kind == "c":
        arr[...] = (1e3 + s) * (1 - 1j)
    elif arr.dtype.kind == "f":
        arr[...] = -(1e3 + s)
    elif arr.dtype.kind in "iu":
        arr[...] = 97 + s
    elif arr.dtype.kind == "b":
        arr[...] = ~arr
    else:
        return False
    return True


# ---------------------------------------------------------------- outcomes
def freeze(v, depth=0):
    """A picklable deep copy of a returned value."""
    if isinstance(v, np.ndarray):
        return ("nd", np.array(v, copy=True, subok=False, order="C"))
    if isinstance(v, (tuple, list)) and depth < 4:
        return ("seq", [freeze(x, depth + 1) for x in v])
    if isinstance(v, (bool, int, float, complex, str, type(None), np.generic)):
        if isinstance(v, (bool, np.bool_)):
            return ("b", bool(v))
        if isinstance(v, (int, np.integer)):
            return ("int", complex(int(v)))
        if isinstance(v, (float, np.floating)):
            return ("num", complex(v))
        if isinstance(v, (complex, np.complexfloating)):
            return ("cpx", complex(v))
        return ("lit", v)
    if isinstance(v, dict) and depth < 4:
        return ("map", [(str(k), freeze(v[k], depth + 1)) for k in sorted(v, key=str)])
    return ("obj", type(v).__name__)


def arrays_in(v, depth=0):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, (tuple, list)) and depth < 4:
        for x in v:
            for y in arrays_in(x, depth + 1):
                yield y


RTOL, ATOL = 1e-7, 1e-9


def close(x, y, rtol=RTOL, atol=ATOL):
    if x.shape != y.shape:
        return False
    if x.dtype.kind != y.dtype.kind or x.dtype.itemsize != y.dtype.itemsize:
        return False
    if x.size == 0:
        return True
    if x.dtype.kind in "biu":
        return bool(np.array_equal(x, y))
    if x.dtype.kind not in "fc":
        return bool(np.array_equal(x, y))
    if x.dtype.itemsize <= (4 if x.dtype.kind == "f" else 8):
        rtol, atol = max(rtol, 1e-4), max(atol, 1e-5)
    with np.errstate(all="ignore"):
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return False
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        if not fx.all():
            ix, iy = x[~fx], y[~fy]
            if x.dtype.kind == "f":
                if not np.array_equal(ix[~np.isnan(ix)], iy[~np.isnan(iy)]):
                    return False
            x, y = x[fx], y[fy]
            if x.size == 0:
                return True
        sc = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))))
        return bool(np.all(np.abs(x - y) <= atol * sc + rtol * np.maximum(np.abs(x), np.abs(y))))


def same(u, v):
    """Tolerant equality of frozen values."""
    if u[0] != v[0]:
        return False
    k = u[0]
    if k == "nd":
        return close(u[1], v[1])
    if k == "seq":
        return len(u[1]) == len(v[1]) and all(same(a, b) for a, b in zip(u[1], v[1]))
    if k == "map":
        return [a for a, _ in u[1]] == [a for a, _ in v[1]] and \
            all(same(a[1], b[1]) for a, b in zip(u[1], v[1]))
    if k in ("num", "int", "cpx"):
        return close(np.array([u[1]]), np.array([v[1]]))
    return u[1] == v[1]


def same_outcome(u, v):
    """Outcomes are ('ok', frozen) or ('exc', type name, ...)."""
    if u[0] != v[0]:
        return False
    if u[0] == "ok":
        return same(u[1], v[1])
    return u[1] == v[1]


def brief(o):
    """Short text for reports."""
    if o is None:
        return "nothing"
    if o[0] == "exc":
        return "raised %s(%s)" % (o[1], (o[2] if len(o) > 2 else "")[:80])
    if o[0] == "ok":
        return "returned %s" % _b(o[1])
    return str(o[0])


def _b(f):
    if f[0] == "nd":
        a = f[1]
        with np.errstate(all="ignore"):
            flat = a.ravel()[:4]
        return "array%s %s %s..." % (a.shape, a.dtype, np.array2string(flat, precision=6))
    if f[0] == "seq":
        return "(" + ", ".join(_b(x) for x in f[1]) + ")"
    return repr(f[1])[:80]


def diff(u, v, path=""):
    """Where two frozen values differ (for reports)."""
    if u[0] != v[0]:
        return "%s: %s vs %s" % (path, _b(u), _b(v))
    if u[0] == "seq":
        if len(u[1]) != len(v[1]):
            return "%s: lengths %d vs %d" % (path, len(u[1]), len(v[1]))
        for i, (a, b) in enumerate(zip(u[1], v[1])):
            if not same(a, b):
                return diff(a, b, path + "[%d]" % i)
    if u[0] == "nd" and u[1].shape == v[1].shape and u[1].size:
        with np.errstate(all="ignore"):
            d = np.abs(np.asarray(u[1], complex) - np.asarray(v[1], complex))
            i = int(np.nanargmax(np.where(np.isfinite(d), d, np.nan))) if np.isfinite(d).any() else 0
        return "%s: flat index %d: %r vs %r" % (path, i, u[1].flat[i], v[1].flat[i])
    return "%s: %s vs %s" % (path, _b(u), _b(v))


def digest(f):
    """A hash of a frozen value rounded enough to be stable (distinctness counts only)."""
    h = hashlib.sha1()

    def put(x):
        h.update(x[0].encode())
        if x[0] == "nd":
            h.update(str(x[1].shape).encode())
            h.update(np.round(np.nan_to_num(np.asarray(x[1], complex)), 6).tobytes())
        elif x[0] in ("seq",):
            for y in x[1]:
                put(y)
        else:
            h.update(repr(x[1])[:64].encode())
    put(f)
    return h.hexdigest()[:12]


def canon(j):
    return json.dumps(j, sort_keys=True, separators=(",", ":"))


def deep(j):
    return copy.deepcopy(j)

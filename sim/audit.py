"""Determinism audit: a digest of everything observed in each run, to be compared between processes."""
import hashlib

import numpy as np

from . import data, proc, runner


def feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(("nd%s%s" % (x.dtype.str, x.shape)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype.kind != "O" else repr(x.tolist()).encode())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            feed(h, x[k])
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            feed(h, v)
        h.update(b"]")
    elif isinstance(x, (set, frozenset)):
        feed(h, sorted(x, key=repr))
    else:
        h.update(repr(x).encode())


def trace(prop, lo, hi):
    ctx = runner.Ctx(prop)
    for i in range(lo, hi):
        sc = runner.scenario(prop, i, ctx)
        rec = proc.fork_call(prop.execute, sc, timeout=prop.timeout)
        v, stats = prop.judge(sc, rec, ctx)
        h = hashlib.sha1()
        feed(h, rec)
        print("%s %d scenario=%s record=%s events=%s violations=%d" % (
            prop.id, i, hashlib.sha1(data.canon(sc).encode()).hexdigest()[:12], h.hexdigest()[:16],
            stats.get("events"), len(v)))
    return 0

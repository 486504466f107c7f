"""Where to look first.  The code under test is compared with a recorded baseline (tools/mkbaseline.py): the
operations that reach a changed function, and the sizes and numbers that the change brought in, are tried more often.
This only steers the search; what counts as a violation does not depend on it, and on an unchanged tree (or when
nearly everything changed) it does nothing."""
import hashlib
import json
import os
import sys
import types

from . import boot

CHANGED = set()       # indices into sched.CODES
OPS = set()           # operations that reach a changed function
PLOTS = set()         # representation classes whose plots reach one
IFL = False
INTS, FLOATS = [], []
SHARE = 0.5           # how much of the search goes there

_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")


def _const(k):
    if isinstance(k, types.CodeType):
        return "<%s>" % k.co_name
    if isinstance(k, frozenset):
        return "{%s}" % ",".join(sorted(map(_const, k)))
    if isinstance(k, tuple):
        return "(%s)" % ",".join(map(_const, k))
    return repr(k)


def digest(c):
    h = hashlib.sha1(c.co_code)
    h.update(repr([_const(k) for k in c.co_consts]).encode())
    h.update(repr((c.co_names, c.co_varnames, c.co_freevars, c.co_cellvars)).encode())
    return h.hexdigest()[:12]


def numbers():
    """How often each number occurs in the code."""
    out = {}

    def put(k):
        if isinstance(k, bool):
            return
        if isinstance(k, (int, float)):
            out[repr(k)] = out.get(repr(k), 0) + 1
        elif isinstance(k, (tuple, frozenset)):
            for x in k:
                put(x)
    for c in boot.code_objects():
        for k in c.co_consts:
            put(k)
    return out


def table(codes, names):
    t = {}
    for c, n in zip(codes, names):
        t[n] = t.get(n, "") + digest(c)
    return t


def load(codes, names):
    global IFL
    if not os.path.exists(_path) or os.environ.get("SIM_NO_FOCUS"):
        return
    b = json.load(open(_path))
    if b["python"] != sys.version.split()[0]:
        return
    now = table(codes, names)
    ch = set(n for n in now if b["codes"].get(n) != now[n])
    ch |= set(filter(None, os.environ.get("SIM_FOCUS_TEST", "").split(",")))      # trial of the machinery itself
    INTS.extend(int(x) for x in filter(None, os.environ.get("SIM_FOCUS_INTS", "").split(",")))
    # a new helper is reached through a changed caller; module code alone says little
    mods = set(n.split(":")[0] for n in ch if n.endswith(":<module>"))
    funs = set(n for n in ch if not n.endswith(":<module>"))
    if not ch:
        return
    if not funs:
        funs = set(n for n in now if n.split(":")[0] in mods and not n.endswith(":<module>"))
    every = set(f for t in (b["cover"], b["plots"]) for c in t.values() for f in c) | set(b["ifl"])
    near = set(funs)
    for f in funs - every:      # a new function, or a class body: whatever reaches its class, or else its module
        cls = [g for g in every if g.startswith(f + ".") or g.startswith(f.rsplit(".", 1)[0] + ".") and "." in f.split(":")[1]]
        if not cls and not funs & every:
            cls = [g for g in every if g.split(":")[0] == f.split(":")[0]]
        near.update(cls)
    hit = set(o for o, c in b["cover"].items() if near & set(c))
    plots = set(o for o, c in b["plots"].items() if near & set(c))
    nums = numbers()
    for k, v in sorted(nums.items()):
        if v > b["numbers"].get(k, 0):
            x = abs(eval(k))
            if isinstance(x, int) and 2 <= x <= 1 << 16:
                INTS.append(x)
            elif isinstance(x, float) and 0 < x < 1e6:
                FLOATS.append(x)
                if x == int(x) and x >= 2:
                    INTS.append(int(x))
    if len(hit) <= 0.6 * len(b["cover"]):
        OPS.update(hit)
    PLOTS.update(plots)
    IFL = bool(near & set(b["ifl"]))
    for i, n in enumerate(names):
        if n in funs:
            CHANGED.add(i)


def some(r, names):
    """Restrict a list of operations to the focus, for a share of the draws."""
    if OPS and r.random() < SHARE:
        f = [n for n in names if n in OPS]
        return f or names
    return names


def plotted(r, names):
    """The same for classes that are to be plotted."""
    f = PLOTS if PLOTS and (not OPS or r.random() < 0.5) else OPS
    if f and r.random() < SHARE:
        return [n for n in names if n in f] or names
    return names


def describe():
    return {"changed_functions": len(CHANGED), "operations": sorted(OPS), "plots": len(PLOTS),
            "numbers": (INTS + FLOATS)[:20]}

"""Numbers that occur in the code under test, as a dictionary for sizes and parameters: a branch that
depends on a size is likelier to be taken when its own constant is tried."""
from . import boot, focus

_ints, _floats = None, None


def _load():
    global _ints, _floats
    ints, floats = set(), set()

    def put(k):
        if isinstance(k, bool):
            return
        if isinstance(k, int) and 2 <= abs(k) <= 4096:
            ints.add(abs(k))
        elif isinstance(k, float) and 1e-4 < abs(k) < 4096:
            floats.add(abs(k))
            if k == int(k) and 2 <= abs(k) <= 4096:
                ints.add(int(abs(k)))
        elif isinstance(k, (tuple, frozenset)):
            for x in k:
                put(x)
    for c in boot.code_objects():
        for k in c.co_consts:
            put(k)
    _ints, _floats = sorted(ints), sorted(floats)


def ints(lo=2, hi=4096):
    if _ints is None:
        _load()
    return [k for k in _ints if lo <= k <= hi]


def floats(lo, hi):
    if _floats is None:
        _load()
    f = [k for k in focus.FLOATS if lo <= k <= hi]
    return f or [k for k in _floats if lo <= k <= hi]


def near(r, hi=5000):
    """A size at, next to, or somewhat above a number that a change of the code brought in; None without one."""
    f = [x for x in focus.INTS if x <= hi]
    if not f:
        return None
    x = r.choice(f)
    return max(1, r.choice([x, x, x + 1, x + 1, x - 1, x + r.randrange(1, 8), 2 * x, x + x // 4]))


def side(r, hi=64):
    """The same for the side of a matrix of that many elements."""
    f = [x for x in focus.INTS if 16 <= x <= hi * hi]
    if not f:
        return None
    return int(r.choice(f) ** 0.5) + r.choice([0, 1, 1, 2])


def size(r, lo, hi, even=False):
    """A size at or next to a constant of the code (or a seeded one if there is none)."""
    k = ints(max(2, lo - 1), hi + 1)
    if focus.INTS and r.random() < 0.7:      # numbers of a change come first
        f = [x for x in focus.INTS if lo - 1 <= x <= hi]
        k = f or k
    n = r.choice(k) + r.choice([0, 0, 1, -1]) if k else r.randint(lo, hi)
    n = min(max(n, lo), hi)
    if even and n % 2:
        n += 1
    return n

"""The entropy seam: numpy's global MT19937 put into chosen, fully valid states.

The tempering of MT19937 is invertible, so the 624 words of a state can be chosen such that the next
624 output words (312 doubles) are any we like; the generator itself runs unmodified."""
import numpy as np

M32 = 0xFFFFFFFF


def untemper(y):
    y = np.asarray(y, dtype=np.uint64)
    y = y ^ (y >> np.uint64(18))
    y = y ^ ((y << np.uint64(15)) & np.uint64(0xEFC60000))
    x = y
    for _ in range(5):
        x = y ^ ((x << np.uint64(7)) & np.uint64(0x9D2C5680))
    y = x & np.uint64(M32)
    x = y
    for _ in range(3):
        x = y ^ (x >> np.uint64(11))
    return (x & np.uint64(M32)).astype(np.uint32)


VALUES = {"zero": 0.0, "one": 1.0 - 2.0 ** -53, "half": 0.5, "halfm": 0.5 - 2.0 ** -53,
          "halfp": 0.5 + 2.0 ** -53, "q1": 0.25, "q3": 0.75, "q1m": 0.25 - 2.0 ** -53,
          "q3m": 0.75 - 2.0 ** -53, "tiny": 2.0 ** -53, "q3p": 0.75 + 2.0 ** -53}


def words(v):
    m = int(v * 2.0 ** 53)
    return ((m >> 26) << 5) & M32, ((m & ((1 << 26) - 1)) << 6) & M32


def state(ent):
    """ent: {"s": seed, "x": [[i, value name or number], ...]}: the i-th double is overridden."""
    g = np.random.Generator(np.random.PCG64([ent["s"], 4242]))
    w = g.integers(0, 1 << 32, 624, dtype=np.uint64)
    for i, v in ent.get("x", ()):
        v = VALUES[v] if isinstance(v, str) else float(v)
        a, b = words(v)
        if 2 * i + 1 < 624:
            w[2 * i], w[2 * i + 1] = a, b
    return {"bit_generator": "MT19937", "has_gauss": 0, "gauss": 0.0,
            "state": {"key": untemper(w), "pos": 0}}


def install(ent):
    np.random.set_state(state(ent))


def rng_digest():
    s = np.random.get_state(legacy=False)
    return (s["state"]["pos"], s["has_gauss"], float(s["gauss"]), s["state"]["key"].tobytes())

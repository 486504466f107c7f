"""C07: random signals meet their contracts for every random stream."""
import math

import numpy as np

from . import catalog, data, entropy, focus, mine, story, world
from .props_base import Prop

G = "generators."
KEYED = ("anaask", "anabpsk", "anafsk", "anaqpsk")
DEFDIV = {"anaask": 2.0, "anabpsk": 5.0, "anafsk": 5.0, "anaqpsk": 5.0}
TOL = 1e-6


def shortcall(name, *args, **kw):
    return {"op": G + name, "args": list(args), "kw": kw}


def lengths(r):
    x = r.random()
    if x < 0.45:
        return r.randint(1, 24)
    if x < 0.75:
        return r.choice([16, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 100, 127, 128])
    if x < 0.95:
        return r.randint(25, 200)
    return r.choice([250, 256, 257, 300, 500, 512, 600, 999, 1000, 1024, 1025, 2048, 3000, 4096, 5000])


def gen_call(r):
    name = r.choice(("noisecu", "noisecg", "dopnoise") + KEYED * 2)
    f = [o for o in catalog.RNG if o in focus.OPS]
    if f and r.random() < focus.SHARE:
        name = r.choice(f).split(".")[-1]
    n = lengths(r)
    if focus.INTS and r.random() < 0.25:
        n = mine.near(r, 6000) or n
    if name in ("noisecu", "noisecg"):
        return shortcall(name, n)
    if name == "dopnoise":
        n = min(max(n, 2), 300)
        kw = {}
        if r.random() < 0.5:
            kw["time_center"] = round(r.uniform(1, n), 1)
        if r.random() < 0.3:
            kw["c"] = 1500
        return shortcall(name, n, round(r.uniform(100, 300), 1), round(r.uniform(10, 50), 1),
                         round(r.uniform(5, 20), 1), round(r.uniform(0, 60), 1), **kw)
    kw = {}
    if n < 3 or r.random() < 0.8:
        kw["n_comp"] = (focus.INTS and r.random() < 0.2 and mine.near(r)) or r.choice([1, 1, 2, 3, 4, 5, 7, 8, 10, max(1, n // 3), max(1, n // 2), max(1, n - 1), n, n + 1,
                                 2 * n, r.randint(1, n), r.randint(1, n)])
    if name == "anafsk":
        if r.random() < 0.75:
            kw["Nbf"] = r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 16, 10]) if r.random() < 0.85 else \
                r.choice([32, 50, 64, 100, 128, 200, 256, 300, 1000, 40000, 70000])
    elif r.random() < 0.7:
        kw["f0"] = r.choice([0.0, 0.5, 0.25, 0.05, 0.1, round(r.uniform(0, 0.5), 3)])
    return shortcall(name, n, **kw)


def gen_ent(r, c):
    """A random stream; in two thirds of the cases with rare values at chosen draws."""
    e = {"s": r.randrange(100000)}
    if r.random() < 0.35:
        return e
    vals = sorted(entropy.VALUES)
    name = c["op"].split(".")[-1]
    if name == "anafsk":
        nb = c["kw"].get("Nbf", 4)
        ks = range(nb + 1) if nb <= 16 else sorted(set([0, 1, nb // 2, nb - 1, nb, 127, 128, 129, 255, 256]) & set(range(nb + 1)))
        vals = vals + [(k / nb) for k in ks if k < nb] + [np.nextafter(k / nb, 0) for k in ks if k > 0]
    if name.startswith("noise") or name == "dopnoise":
        e["x"] = [[i, r.choice(vals)] for i in sorted(r.sample(range(40), r.choice([1, 2, 3])))]
        return e
    style = r.random()
    if style < 0.35:
        v = r.choice(vals)
        e["x"] = [[i, v] for i in range(300)]
    elif style < 0.7:
        e["x"] = [[i, r.choice(vals)] for i in range(40)]
    else:
        e["x"] = [[r.choice([0, 0, 1, 2, r.randrange(20)]), r.choice(vals)] for _ in range(r.choice([1, 2]))]
    e["x"] = [[i, v if isinstance(v, str) else float(v)] for i, v in e["x"]]
    return e


def copied(c, oc):
    """A stretch of random symbols that occurs again (forwards or backwards) in one result.  The stretches are so
    long that this happens by chance less than once in 10^18 results."""
    name = c["op"].split(".")[-1]
    n = c["args"][0]
    if name == "noisecg" or name not in KEYED:
        return None
    nc = c["kw"].get("n_comp")
    if not nc or oc[0] != "ok":
        return None
    s = np.ascontiguousarray(oc[1][1][1][1].ravel()[::nc])
    m = {"anaask": 2.0 ** 40, "anabpsk": 2.0, "anaqpsk": 4.0}.get(name) or float(c["kw"].get("Nbf", 4))
    if m < 2:
        return None
    w = max(2, int(math.ceil(90 / math.log(m, 2))))
    if s.size <= w:
        return None
    seen, back = {}, {}
    for j in range(s.size - w + 1):
        b = s[j:j + w].tobytes()
        if b in seen:
            return "symbols %d..%d are those of %d..%d again" % (j, j + w - 1, seen[b], seen[b] + w - 1)
        seen[b] = j
        back[s[j:j + w][::-1].tobytes()] = j
    for b, j in back.items():
        i = seen.get(b)
        if i is not None and abs(i - j) >= w:
            return "symbols %d..%d are those of %d..%d backwards" % (j, j + w - 1, i, i + w - 1)
    return None


def contract(c, oc, law0):
    """Why an outcome breaks the contract of its generator, or None."""
    name = c["op"].split(".")[-1]
    n = c["args"][0]
    if oc[0] == "exc":
        return "it raised %s(%s)" % (oc[1], oc[2][:120])
    v = oc[1]
    law = None
    if name in KEYED or name == "dopnoise":
        if v[0] != "seq" or len(v[1]) != 2 or v[1][0][0] != "nd" or v[1][1][0] != "nd":
            return "it did not return a pair of arrays"
        y, law = v[1][0][1], v[1][1][1]
        if law.size != n:
            return "its law has %d values for n_points = %d" % (law.size, n)
        law = law.ravel()
        if not np.all(np.isfinite(law)):
            return "its law has values that are not finite"
    else:
        if v[0] != "nd":
            return "it did not return an array"
        y = v[1]
    if y.size != n:
        return "it returned %d samples for n_points = %d" % (y.size, n)
    y = y.ravel()
    if not np.all(np.isfinite(y)):
        return "it returned %d samples that are not finite" % int(np.sum(~np.isfinite(y)))
    t = np.arange(n)
    if name in ("noisecu", "noisecg"):
        if n >= 4 and n & (n - 1) == 0:
            f = np.fft.fft(y)
            neg = np.abs(f[n // 2 + 1:])
            if neg.size and neg.max() > TOL * np.abs(f).max():
                return "it has negative-frequency content (%.3g of the peak)" % (neg.max() / np.abs(f).max())
            var = float(np.var(y.real))
            if abs(var - 0.5) > 1e-6:
                return "the variance of its real part is %.9g, not 1/2" % var
        return None
    if name == "dopnoise":
        e = float(np.sum(np.abs(y) ** 2))
        if abs(e - 1) > 1e-6:
            return "its energy is %.9g, not 1" % e
        if law0 is not None and not np.allclose(law, law0, rtol=1e-9, atol=1e-12):
            return "its frequency law depends on the random draws"
        return None
    nc = c["kw"].get("n_comp")
    if nc:
        for b in range(0, n, nc):
            blk = law[b:b + nc]
            if np.any(blk != blk[0]):
                return "the law changes inside the symbol of samples %d..%d (n_comp = %d)" % (b, b + len(blk) - 1, nc)
    f0 = c["kw"].get("f0", 0.25)
    if name == "anaask":
        if law.min() < 0 or law.max() >= 1:
            return "an amplitude is outside [0,1): min %r max %r" % (law.min(), law.max())
    elif name == "anabpsk":
        if not np.all(np.abs(law) == 1):
            return "a symbol is neither -1 nor +1: %r" % law[np.abs(law) != 1][0]
    elif name == "anafsk":
        nb = int(c["kw"].get("Nbf", 4))
        al = 0.25 + 0.25 * (np.arange(nb) / nb - (nb - 1) / (2.0 * nb))
        j = np.clip(np.searchsorted(al, law), 1, nb - 1) if nb > 1 else np.zeros(law.size, dtype=int)
        d = np.minimum(np.abs(law - al[j]), np.abs(law - al[j - 1]))
        if d.max() > 1e-9:
            return "frequency %r is not one of the %d of the alphabet" % (law[int(np.argmax(d))], nb)
        if np.max(np.abs(np.abs(y) - 1)) > TOL:
            return "the amplitude is not 1"
        if n > 1:
            inc = y[1:] * np.conj(y[:-1])
            e1 = np.max(np.abs(inc - np.exp(2j * np.pi * law[1:])))
            e0 = np.max(np.abs(inc - np.exp(2j * np.pi * law[:-1])))
            if min(e0, e1) > 1e-5:
                return "the signal does not follow its frequency law (phase step off by %.3g)" % min(e0, e1)
        return None
    else:
        k = law / (np.pi / 2)
        if np.max(np.abs(k - np.round(k))) > 1e-9 or k.min() < -1e-9 or k.max() > 3 + 1e-9:
            return "phase %r is not one of 0, pi/2, pi, 3*pi/2" % law[int(np.argmax(np.abs(k - np.clip(np.round(k), 0, 3))))]
    mod = np.exp(1j * law) if name == "anaqpsk" else law
    z = y * np.exp(-2j * np.pi * f0 * t)
    keep = np.abs(mod) > 1e-9
    if np.any(np.abs(y[~keep]) > 1e-6):
        return "the signal is not zero where its amplitude is"
    if np.any(keep):
        u = z[keep] / mod[keep]
        if np.max(np.abs(np.abs(u) - 1)) > 1e-5:
            return "the modulated carrier does not have unit amplitude"
        if np.max(np.abs(u - u[0])) > 1e-4:
            return "the signal is not the carrier of frequency %s modulated by its law" % f0
    return None


# ------------------------------------------------------------------ pooled distributions
def indicators(c, oc):
    """{name: (probability, [0/1 ...])} over one result drawn from an ordinary stream."""
    name = c["op"].split(".")[-1]
    out = {}
    if oc[0] != "ok":
        return out
    if name in ("noisecu", "noisecg"):
        y = oc[1][1].ravel()
        x = y.real * math.sqrt(2)
        half = math.sqrt(3) / 2 if name == "noisecu" else 0.67448975
        out["real part within its median magnitude"] = (0.5, list(np.abs(x) < half))
        out["real part beyond 1.6"] = (1 - 1.6 / math.sqrt(3) if name == "noisecu" else 0.10960, list(np.abs(x) > 1.6))
        out["real part positive"] = (0.5, list(x > 0))
        out["neighbours of the same sign"] = (0.5, list((x[1:] > 0) == (x[:-1] > 0)))
        for d in (2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, x.size // 2, x.size // 3, x.size // 4):
            if 2 <= d < x.size:
                out["neighbours at distance %d of the same sign" % d] = (0.5, list((x[d:] > 0) == (x[:-d] > 0)))
        h = x.size // 2
        out["mirrored samples of the same sign"] = (0.5, list((x[:h] > 0) == (x[::-1][:h] > 0)))
        return out
    law = oc[1][1][1][1].ravel()
    nc = c["kw"]["n_comp"]
    s = law[::nc]
    if name == "anaask":
        for q in (0.1, 0.25, 0.5, 0.75, 0.9):
            out["amplitude below %s" % q] = (q, list(s < q))
            out["first amplitude below %s" % q] = (q, [s[0] < q])
        out["neighbours in the same half"] = (0.5, list((s[1:] < 0.5) == (s[:-1] < 0.5)))
        return out
    if name == "anabpsk":
        k, m = np.round((s + 1) / 2), 2
    elif name == "anaqpsk":
        k, m = np.round(s / (np.pi / 2)), 4
    else:
        m = int(c["kw"].get("Nbf", 4))
        k = np.round(((s - 0.25) / 0.25 + (m - 1) / (2.0 * m)) * m)
    for j in range(m):
        out["symbol %d" % j] = (1.0 / m, list(k == j))
        out["first symbol %d" % j] = (1.0 / m, [k[0] == j])
        out["last symbol %d" % j] = (1.0 / m, [k[-1] == j])
    out["neighbours equal"] = (1.0 / m, list(k[1:] == k[:-1]))
    for d in (2, 3, 4, 5, 8, 10, 16, 32, 48, k.size // 2, k.size // 3):
        if 2 <= d < k.size:
            out["neighbours at distance %d equal" % d] = (1.0 / m, list(k[d:] == k[:-d]))
    h = k.size // 2
    out["mirrored symbols equal"] = (1.0 / m, list(k[:h] == k[::-1][:h]))
    return out


def patterns(name, S, m):
    """{name: (probability, count)} of symbol patterns over many short results (rows of S), all drawn afresh."""
    k, w = S.shape
    out = {}
    if w < 2:
        return out
    d = np.diff(S, axis=1)
    if m is None:           # continuous amplitudes
        f = math.factorial(w)
        out["all increasing"] = (1.0 / f, np.sum(np.all(d > 0, axis=1)))
        out["all decreasing"] = (1.0 / f, np.sum(np.all(d < 0, axis=1)))
        for j in range(w):
            out["largest in place %d" % j] = (1.0 / w, np.sum(np.argmax(S, axis=1) == j))
        out["all below one half"] = (0.5 ** w, np.sum(np.all(S < 0.5, axis=1)))
        out["all above one half"] = (0.5 ** w, np.sum(np.all(S >= 0.5, axis=1)))
        for g in (0.02, 0.1):
            if (w - 1) * g < 1:
                gap = np.min(np.diff(np.sort(S, axis=1), axis=1), axis=1)
                out["two amplitudes within %s" % g] = (1 - (1 - (w - 1) * g) ** w, np.sum(gap < g))
                out["neighbours within %s" % g] = (2 * g - g * g, np.sum(np.abs(d[:, 0]) < g))
        return out
    out["all symbols equal"] = (float(m) ** (1 - w), np.sum(np.all(d == 0, axis=1)))
    out["no neighbours equal"] = ((1 - 1.0 / m) ** (w - 1), np.sum(np.all(d != 0, axis=1)))
    out["palindrome"] = (float(m) ** -(w // 2), np.sum(np.all(S == S[:, ::-1], axis=1)))
    if w % 2 == 0:
        out["second half like the first"] = (float(m) ** -(w // 2), np.sum(np.all(S[:, :w // 2] == S[:, w // 2:], axis=1)))
    for j in range(min(m, 4)):
        out["no symbol %d" % j] = ((1 - 1.0 / m) ** w, np.sum(np.all(S != j, axis=1)))
        out["symbol %d exactly once" % j] = (w / float(m) * (1 - 1.0 / m) ** (w - 1), np.sum(np.sum(S == j, axis=1) == 1))
    r_ = np.sum(S, axis=1).astype(int) % m
    for j in range(min(m, 4)):
        out["sum of the symbols is %d modulo %d" % (j, m)] = (1.0 / m, np.sum(r_ == j))
    return out


def symbols(name, law, nc, m):
    s = law[::nc]
    if name == "anaask":
        return s
    if name == "anabpsk":
        return np.round((s + 1) / 2)
    if name == "anaqpsk":
        return np.round(s / (np.pi / 2))
    return np.round(((s - 0.25) / 0.25 + (m - 1) / (2.0 * m)) * m)


class PROP(Prop):
    id = "C07"
    quick = 12000
    thorough = 90000
    rule = ("A run makes 1-5 random-generator calls, each from its own state of numpy's real MT19937: an ordinary state, "
            "or one solved for (by inverting the tempering) so that chosen draws take extreme values (0, 1-2^-53, alphabet "
            "boundaries and their neighbours); lengths 1-5000, symbol lengths that do not divide the length or exceed it; some "
            "calls first aborted by a fault. Every result is checked against the generator's contract. One run in 60 instead "
            "pools 120-400 calls of one generator and tests symbol frequencies and independence (alarm: beyond 8 standard "
            "deviations and 3 percent), and one in 400 makes 20000 short results of one keying and counts patterns of symbols (all "
            "equal, mirrored, repeated, missing, order and spacing of amplitudes) against their binomial law (alarm: "
            "probability below 1e-13). Non-trivial: a result was checked. Distinct: by the whole scenario.")
    measure = "hash of the executed history (steps, outcomes, fired faults)"

    def gen(self, r, i, ctx):
        if i % 60 == 5:
            name = ("noisecu", "noisecg") + KEYED * 2
            name = name[(i // 60) % len(name)]
            if name.startswith("noise"):
                c = shortcall(name, r.choice([128, 200, 256, 300, 512]))
                k = 120
            else:
                nc = r.choice([1, 2, 3, 8])
                c = shortcall(name, nc * r.choice([1, 2, 5, 20, 20, 60]) + r.choice([0, 0, 1]), n_comp=nc)
                if name == "anafsk":
                    c["kw"]["Nbf"] = r.choice([2, 3, 4, 5, 8])
                k = 400
            return {"threads": [], "pooled": c, "n": k, "s0": r.randrange(10 ** 6)}
        if i % 400 == 39:
            name = KEYED[(i // 400) % 4]
            f = [k for k in KEYED if G + k in focus.OPS]
            if f and r.random() < 0.7:
                name = r.choice(f)
            nc = r.choice([1, 1, 2, 3])
            m = {"anaask": None, "anabpsk": 2, "anaqpsk": 4, "anafsk": r.choice([2, 3, 4, 4, 8])}[name]
            w = r.randint(2, 5) if m is None else r.randint(2, max(2, int(1 + math.log(500, m))))
            if m == 2 and r.random() < 0.5:
                w = r.choice([8, 9, 10])
            c = shortcall(name, nc * w, n_comp=nc)
            if name == "anafsk":
                c["kw"]["Nbf"] = m
            return {"threads": [], "patterns": c, "m": m, "n": 20000, "s0": r.randrange(10 ** 6)}
        steps, faults = [], []
        for j in range(r.choice([1, 1, 2, 3, 5])):
            c = gen_call(r)
            st = {"do": "call", "c": c, "ent": gen_ent(r, c), "id": j}
            steps.append(st)
            if r.random() < 0.12:
                faults.append([0, j, r.choice(["mem", "kbd"]), r.randint(1, 60)])
        return {"threads": [steps], "faults": faults}

    def execute(self, sc):
        if "pooled" in sc:
            from .seams import CLOCK  # noqa: F401
            tot = {}
            c = sc["pooled"]
            a = world.Args(c)
            for j in range(sc["n"]):
                entropy.install({"s": sc["s0"] * 1000 + j})
                try:
                    oc = ("ok", data.freeze(world.invoke(c["op"], a)))
                except Exception as e:
                    oc = world.exc_outcome(e)
                if contract(c, oc, None) is not None:
                    continue
                for k, (p, xs) in indicators(c, oc).items():
                    t = tot.setdefault(k, [p, 0, 0])
                    t[1] += len(xs)
                    t[2] += int(sum(bool(x) for x in xs))
            return {"tot": tot}
        if "patterns" in sc:
            c = sc["patterns"]
            name = c["op"].split(".")[-1]
            a = world.Args(c)
            entropy.install({"s": sc["s0"]})
            rows = []
            for j in range(sc["n"]):
                law = np.ravel(world.invoke(c["op"], a)[1])
                if law.size == c["args"][0]:
                    rows.append(symbols(name, law, c["kw"]["n_comp"], sc["m"] or 0))
            tot = {}
            if rows:
                for k, (p, s) in patterns(name, np.array(rows), sc["m"]).items():
                    tot[k] = [p, len(rows), int(s)]
            return {"tot": tot}
        return story.Story(sc).go()

    def judge(self, sc, rec, ctx):
        viol = []
        if "pooled" in sc:
            for k, (p, n, s) in sorted(rec["tot"].items()):
                if n < 100:
                    continue
                sd = math.sqrt(p * (1 - p) / n)
                if abs(s / n - p) > max(8 * sd, 0.03) and not viol:
                    viol.append({"clause": "distribution", "detail": "%s%s: '%s' in %d of %d draws, expected share %.3f" % (
                        sc["pooled"]["op"], tuple(sc["pooled"]["args"]), k, s, n, p)})
            return viol, {"events": 0, "hash": "pooled-%s" % sc["s0"], "nontrivial": bool(rec["tot"]),
                          "pooled_draws": sum(t[1] for t in rec["tot"].values())}
        if "patterns" in sc:
            from scipy.stats import binom
            for k, (p, n, s) in sorted(rec["tot"].items()):
                tail = min(binom.cdf(s, n, p), binom.sf(s - 1, n, p))
                if tail < 1e-13 and not viol:
                    viol.append({"clause": "distribution", "detail": "%s(%s): '%s' in %d of %d results, expected %.1f" % (
                        sc["patterns"]["op"], data.canon([sc["patterns"]["args"], sc["patterns"]["kw"]]), k, s, n, n * p)})
            return viol, {"events": 0, "hash": "patterns-%s" % sc["s0"], "nontrivial": bool(rec["tot"]),
                          "pattern_results": max([t[1] for t in rec["tot"].values()] or [0])}
        ops = {}
        n = crafted = 0
        for st in sc["threads"][0]:
            o = rec["out"][(0, st["id"])]
            c = st["c"]
            ops[c["op"]] = ops.get(c["op"], 0) + 1
            if o["fired"] and o["o"][0] == "exc":
                continue
            law0 = None
            if c["op"].endswith("dopnoise"):
                rf = ctx.refs.get(c, {"s": 1})["o"]
                if rf[0] == "ok" and rf[1][0] == "seq":
                    law0 = rf[1][1][1][1].ravel()
            name = c["op"].split(".")[-1]
            if name in KEYED and c["kw"].get("n_comp") is None and round(c["args"][0] / DEFDIV[name]) < 1:
                continue        # the default symbol would have no sample
            n += 1
            crafted += "x" in st["ent"]
            why = contract(c, o["o"], law0)
            if not why and "x" not in st["ent"]:
                why = copied(c, o["o"])
            if why and not viol:
                viol.append({"clause": "contract", "detail": "%s(%s) with random stream %s: %s" % (
                    c["op"], data.canon([c["args"], c["kw"]]), data.canon(st["ent"])[:160], why)})
        return viol, {"events": rec["events"], "hash": story.history_hash(sc, rec), "ops": ops, "nontrivial": n > 0,
                      "results_checked": n, "results_from_crafted_streams": crafted,
                      "faults": story.count_faults(rec), "sites": story.fault_sites(rec)}

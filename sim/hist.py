"""Seeded histories of library calls made by one caller."""
from . import catalog, data, focus, story


def family(prop, r, names, size, related=0.6):
    """A set of calls a history draws from: few operations, many near-identical arguments."""
    calls = []
    nops = r.choice([1, 1, 2, 3]) if r.random() < related else r.choice([3, 5, 8])
    ops = [catalog.pick_op(r, names) for _ in range(nops)]
    if r.random() < 0.35:       # equal up to a small difference
        for _ in range(r.choice([1, 2, 3])):
            c = prop.var(r, r.choice(ops))
            calls += catalog.ladder(c, story.gen_rng("ladder", prop.seed, r.randrange(4), data.canon(c)))
        return calls
    for _ in range(size):
        same = [c for c in calls]
        x = r.random()
        if same and x < 0.45:
            b = r.choice(same)
            calls.append(catalog.neighbor(b, story.gen_rng("nb", prop.seed, r.randrange(6), data.canon(b))))
        elif same and x < 0.55:
            calls.append(data.deep(r.choice(same)))
        else:
            calls.append(prop.var(r, r.choice(ops)))
    return calls


def bufferise(r, c, bufs):
    """Let one array argument of a call live in a caller buffer that is refilled later."""
    slots = [("args", i) for i, v in enumerate(c["args"]) if data.is_arr(v) and v["l"] != "ro"] + \
            [("kw", k) for k, v in sorted(c["kw"].items()) if data.is_arr(v) and v["l"] != "ro"]
    if not slots:
        return None
    w, k = r.choice(slots)
    name = "b%d" % len(bufs)
    bufs[name] = data.deep(c[w][k])
    n = data.deep(c)
    n[w][k] = {"buf": name}
    return n


def refill(r, spec):
    """Other contents of the same shape, type and layout."""
    s = data.deep(spec)
    if s["a"] in ("range", "lin", "shuf", "remat", "coords"):
        s["s"] += 1
        if s["a"] == "lin":
            q = s.setdefault("q", {})
            q["hi"] = round(q.get("hi", 0.5) * r.choice([0.9, 0.8, 1.1]), 4)
        elif s["a"] == "range" and r.random() < 0.5:
            q = s.setdefault("q", {})
            q["lo"] = max(0, q.get("lo", 0) + r.choice([-1, 1]))
    elif r.random() < 0.5 and s["d"][0] != "i":
        n = s["n"] if isinstance(s["n"], int) else s["n"][0] * s["n"][1]
        s["p"] = (s.get("p", []) + [[r.choice([0, n // 2, n - 1, r.randrange(n)]), r.choice([0.25, 0.5, -0.3])]])[-3:]
    else:
        s["s"] += r.choice([1, 2, 3])
    return s


def history(prop, r, ctx, names, n, p_fault=0.15, p_buf=0.35, p_scrib=0.15, p_odd=0.08, extra=None, start=0):
    """(steps, faults, bufs): n steps."""
    k = [x for x in focus.INTS if n <= x <= 70]
    if k and r.random() < 0.15:         # a change may count calls
        n = r.choice(k) * r.choice([1, 1, 2]) + r.choice([1, 2, 5])
    fam = family(prop, r, names, max(2, min(10, n // 2 + 1)))
    bufs, cur = {}, {}
    bcalls = []
    steps, faults = [], []
    if r.random() < p_buf:
        for c in fam[:3]:
            b = bufferise(r, c, bufs)
            if b:
                bcalls.append(b)
        cur = {k: data.deep(v) for k, v in bufs.items()}
    done = []
    sid = start
    while len(steps) < n:
        x = r.random()
        if x < p_scrib and done:
            steps.append({"do": r.choice(["scrib", "scrib", "scribarg"]), "of": r.choice(done), "i": r.randrange(3),
                          "s": r.randrange(3), "id": sid})
            # a buffer is refilled, never scribbled
            tgt = [s for s in steps if s["id"] == steps[-1]["of"]][0]
            if steps[-1]["do"] == "scribarg" and has_buf(tgt["c"]):
                steps.pop()
                continue
        elif x < p_scrib + p_odd:
            steps.append(r.choice([{"do": "gc", "id": sid}, {"do": "clock", "dt": r.choice([0.5, 3600.0, 86400.0 * 400,
                                                                                         -7200.0]), "id": sid}]))
        elif extra is not None and r.random() < 0.08:
            steps.append(extra(sid))
        else:
            if bcalls and r.random() < 0.6:
                c = r.choice(bcalls)
                if r.random() < 0.55:
                    b = r.choice(bufs_of(c))
                    cur[b] = refill(r, cur[b])
                    steps.append({"do": "fill", "b": b, "spec": data.deep(cur[b]), "id": sid})
                    sid += 1
            else:
                c = r.choice(fam)
            st = {"do": "call", "c": data.deep(c), "id": sid}
            if catalog.OPS[c["op"]].tags.get("rng"):
                st["ent"] = {"s": r.randrange(30)}
            if r.random() < 0.5:
                st["drop"] = True
            else:
                done.append(sid)
            if r.random() < p_fault:
                f = story.fault(r, ctx.refs.get(story.concrete(c, cur), st.get("ent"), True))
                if f:
                    faults.append([0, sid] + f)
            steps.append(st)
        sid += 1
    return steps, faults, bufs


def bufs_of(c):
    return [v["buf"] for v in list(c["args"]) + [c["kw"][k] for k in sorted(c["kw"])]
            if isinstance(v, dict) and "buf" in v]


def has_buf(c):
    return bool(bufs_of(c))


def walk(sc):
    """Yield (thread, step, concrete call or None), tracking what is in the buffers."""
    cur = {k: data.deep(v) for k, v in sc.get("bufs", {}).items()}
    for t, th in enumerate(sc["threads"]):
        for st in th:
            if st["do"] == "fill":
                cur[st["b"]] = dict(data.deep(st["spec"]), l=cur[st["b"]]["l"])
            yield t, st, (story.concrete(st["c"], cur) if st["do"] == "call" else None)

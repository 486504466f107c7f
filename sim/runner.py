"""Seeded search over simulated runs, minimisation, replay files, evidence."""
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time

from . import boot, data, focus, proc, sched, seams, world

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SIM_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.refs = world.Refs()


class RunError(Exception):
    pass


def run_one(prop, sc, ctx, patience=1):
    """Execute and judge one scenario."""
    rec = proc.fork_call(prop.execute, sc, timeout=prop.timeout * patience)
    return prop.judge(sc, rec, ctx)


def again(prop, sc, v):
    """Does the same happen in another execution, and in another interpreter?"""
    try:
        vs, _ = run_one(prop, sc, Ctx(prop))
        if not [x for x in vs if x["clause"] == v["clause"]]:
            return False
        return fresh_replay(replay_file(prop, sc, v, 0))[0]
    except Exception:
        return False


def scenario(prop, i, ctx):
    r = prop.rng(i)
    sc = prop.gen(r, i, ctx)
    sc["prop"], sc["seed"], sc["run"] = prop.id, prop.seed, i
    return sc


# ------------------------------------------------------------------ workers
def _send(fd, obj):
    d = pickle.dumps(obj, protocol=4)
    proc._write(fd, struct.pack("<Q", len(d)) + d)


def _worker(prop, indices, fd):
    ctx = Ctx(prop)
    for i in indices:
        msg = {"i": i}
        try:
            sc = scenario(prop, i, ctx)
            viol, stats = run_one(prop, sc, ctx)
            msg["key"] = prop.key(sc)
            msg["stats"] = stats
            if viol:
                msg["viol"] = viol
                msg["sc"] = sc
            elif i < 3:
                msg["sample"] = sc
        except proc.ChildTimeout as e:
            msg["timeout"] = str(e)
            try:
                msg["sc"] = sc
            except UnboundLocalError:
                pass
        except Exception:
            import traceback
            msg["error"] = traceback.format_exc()[-6000:]
        _send(fd, msg)
    _send(fd, {"end": True, "refs": ctx.refs.count})


class Pool(object):
    def __init__(self, prop, n, workers):
        self.procs = {}
        for w in range(workers):
            idx = list(range(w, n, workers))
            r, wr = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    _worker(prop, idx, wr)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 4
                finally:
                    os._exit(code)
            os.close(wr)
            self.procs[r] = [pid, bytearray()]

    def messages(self):
        open_ = dict(self.procs)
        while open_:
            rd, _, _ = select.select(list(open_), [], [], 10.0)
            for fd in rd:
                chunk = os.read(fd, 1 << 20)
                pid, buf = open_[fd]
                if not chunk:
                    del open_[fd]
                    continue
                buf += chunk
                while len(buf) >= 8:
                    n = struct.unpack("<Q", bytes(buf[:8]))[0]
                    if len(buf) < 8 + n:
                        break
                    m = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    yield m

    def stop(self):
        for fd, (pid, _) in self.procs.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for fd, (pid, _) in self.procs.items():
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            os.close(fd)
        self.procs = {}


# ------------------------------------------------------------------ minimisation
def minimise(prop, sc, viol, ctx, budget_s=60.0, max_trials=600):
    clause = viol["clause"]
    best, bestv = sc, viol
    t0 = seams.real_monotonic()
    trials = 0
    progress = True
    while progress and trials < max_trials and seams.real_monotonic() - t0 < budget_s:
        progress = False
        for cand in prop.shrink(best):
            trials += 1
            if trials >= max_trials or seams.real_monotonic() - t0 > budget_s:
                break
            try:
                vs, _ = run_one(prop, cand, ctx)
            except Exception:
                continue
            same = [v for v in vs if v["clause"] == clause]
            if same:
                best, bestv = cand, same[0]
                progress = True
                break
    return best, bestv, trials


def replay_file(prop, sc, v, trials):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%d.json" % (prop.id, prop.seed, sc["run"]))
    with open(p, "w") as f:
        json.dump({"property": prop.id, "seed": prop.seed, "tier": prop.tier, "run": sc["run"],
                   "clause": v["clause"], "detail": v["detail"], "minimisation_trials": trials,
                   "scenario": sc}, f, indent=1, sort_keys=True)
        f.write("\n")
    return p


def fresh_replay(path):
    """Replay in a fresh interpreter: does the recorded violation occur again?"""
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-m", "sim.main", "replay", path, "--quiet"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    return p.returncode == 1, p.stdout.decode() + p.stderr.decode()


def known():
    """known_findings.txt: lines 'known: property=<id> clause=<clause> match=<text> -- <what>'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, what = line[7:].partition(" -- ")
                e = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                e["what"] = what
                out.append(e)
    return out


def is_known(prop, v, kn):
    for e in kn:
        if e.get("property") == prop.id and e.get("clause") == v["clause"] and \
                e.get("match", "\0") in v["detail"]:
            return e
    return None


# ------------------------------------------------------------------ the check
def check(prop, workers, runs=None, evidence=True):
    t0 = seams.real_monotonic()
    n = runs or (prop.quick if prop.tier == "quick" else prop.thorough)
    print("check %s tier=%s seed=%d runs=%d workers=%d repo=%s" % (
        prop.id, prop.tier, prop.seed, n, workers, boot.REPO))
    sys.stdout.flush()
    pool = Pool(prop, n, workers)
    agg = {"runs": 0, "stats": {}, "keys": set(), "hash": set(), "samples": [], "nontrivial": set(),
           "sites": set(), "ops": {}, "faults": {}}
    kn = known()
    found, errors, timeouts, knowns, refs, ended = [], [], [], {}, 0, 0
    unsure = []
    grace = None
    try:
        for m in pool.messages():
            if m.get("end"):
                refs += m["refs"]
                ended += 1
                continue
            if "error" in m:
                errors.append(m)
                if len(errors) > 20:
                    break
                continue
            if "timeout" in m:
                timeouts.append(m)
                if len(timeouts) > 3:
                    break
                continue
            agg["runs"] += 1
            _collect(agg, m)
            for v in m.get("viol", ()):
                e = is_known(prop, v, kn)
                if e:
                    knowns[e["what"]] = e
                elif getattr(prop, "measured", False) and not again(prop, m["sc"], v):
                    unsure.append(m["i"])
                else:
                    found.append((m["i"], v, m["sc"]))
            if found and grace is None:
                grace = seams.real_monotonic() + 2.0
            if grace is not None and seams.real_monotonic() > grace:
                break
    finally:
        pool.stop()
    rc = 0
    reported = None
    for e in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (prop.id, e["what"]))
    # a run that never ended: confirm with a longer limit; then it is a hang of the code under test
    if timeouts and not found:
        m = min(timeouts, key=lambda x: x["i"])
        if "sc" in m:
            try:
                # a slow machine, not a hang: the runs count, with more time
                ctx = Ctx(prop)
                for m in timeouts:
                    if "sc" not in m:
                        m["sc"] = scenario(prop, m["i"], ctx)
                    vs, st = run_one(prop, m["sc"], ctx, 3)
                    agg["runs"] += 1
                    _collect(agg, {"i": m["i"], "stats": st, "key": prop.key(m["sc"])})
                    found += [(m["i"], v, m["sc"]) for v in vs if not is_known(prop, v, kn)]
            except proc.ChildTimeout:
                if getattr(prop, "hang_is_violation", False):
                    v = {"clause": "hang", "detail": "the run does not terminate (limit %.0f s)" % (prop.timeout * 3)}
                    reported = replay_file(prop, m["sc"], v, 0)
                    print("detail: %s" % v["detail"])
                    print("VIOLATION property=%s replay=%s" % (prop.id, reported))
                    rc = 1
                else:
                    errors.append({"i": m["i"], "error": "run exceeds its time limit"})
    unrepro = 0
    if found:
        found.sort(key=lambda x: x[0])
        ctx = Ctx(prop)
        tried = set()
        for i, v, sc in found[:12]:
            if v["clause"] in tried and len(tried) < 2 and unrepro > 3:
                continue
            tried.add(v["clause"])
            # the run must fail again before it is believed
            try:
                vs, _ = run_one(prop, sc, ctx)
            except Exception as e:
                errors.append({"i": i, "error": "re-run failed: %r" % e})
                continue
            if not [x for x in vs if x["clause"] == v["clause"]]:
                unrepro += 1
                continue
            best, bv, trials = minimise(prop, sc, v, ctx)
            path = replay_file(prop, best, bv, trials)
            ok, txt = fresh_replay(path)
            if not ok:
                path = replay_file(prop, sc, v, 0)
                ok, txt = fresh_replay(path)
            if not ok:
                unrepro += 1
                continue
            reported = path
            print("violation in run %d (seed %d), minimised in %d trials" % (i, prop.seed, trials))
            print("clause: %s" % bv["clause"])
            print("detail: %s" % bv["detail"])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            rc = 1
            break
        if rc == 0 and unrepro:
            errors.append({"i": found[0][0], "error": "violation did not reproduce: %r" % (found[0][1],)})
    for f in prop.final(agg) if hasattr(prop, "final") and rc == 0 and not unrepro else ():
        # checks over the pooled history of all runs
        path = replay_file(prop, f["sc"], f, 0)
        ok, txt = fresh_replay(path)
        if ok:
            print("clause: %s" % f["clause"])
            print("detail: %s" % f["detail"])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            rc = 1
            break
        unrepro += 1
        errors.append({"i": -1, "error": "pooled violation did not reproduce: %s" % f["detail"]})
    if unsure:
        print("readings that did not repeat, in runs %s: not counted" % ", ".join(map(str, unsure)))
    wall = seams.real_monotonic() - t0
    if evidence:
        write_evidence(prop, agg, n, workers, wall, refs, 1 if rc else 0, len(errors), knowns)
    if errors and rc == 0:
        sys.stderr.write("harness errors: %d; first (run %s):\n%s\n" % (
            len(errors), errors[0]["i"], errors[0]["error"]))
    lost = n - agg["runs"]
    if rc == 0 and (lost or errors):
        # a few runs lost to the machinery itself (they are counted as not explored) do not void the others
        sys.stderr.write("only %d of %d runs reported\n" % (agg["runs"], n))
        if unrepro or max(lost, len(errors)) > max(1, n // 500):
            rc = 2
    print("%s %s: %d runs, %d distinct non-trivial, %.1f s" % (
        prop.id, {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc], agg["runs"], len(agg["nontrivial"]), wall))
    return rc


def _collect(agg, m):
    s = m["stats"]
    for k, v in s.items():
        if k == "nontrivial":
            if v:
                agg["nontrivial"].add(m["key"])
        elif k == "hash":
            agg["hash"].update(v if isinstance(v, (list, set, tuple)) else [v])
        elif k == "sites":
            agg["sites"].update(map(tuple, v))
        elif k == "ops":
            for o, c in v.items():
                agg["ops"][o] = agg["ops"].get(o, 0) + c
        elif k == "pool":
            agg.setdefault("pool", []).append((m["i"], v))
        elif k == "faults":
            for o, c in v.items():
                agg["faults"][o] = agg["faults"].get(o, 0) + c
        elif isinstance(v, (int, float)):
            agg["stats"][k] = agg["stats"].get(k, 0) + v
    if "sample" in m and len(agg["samples"]) < 3:
        agg["samples"].append(m["sample"])


def write_evidence(prop, agg, n, workers, wall, refs, viol, errors, knowns):
    os.makedirs(EVID, exist_ok=True)
    rph = agg["runs"] / wall * 3600.0 if wall > 0 else 0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": prop.rule,
        "samples": agg["samples"][:3],
        "seeds_per_hour": round(rph),
        "check_seed": prop.seed,
        "run_seeds": "run i uses Random('%s/%d/i'), i in [0, %d)" % (prop.id, prop.seed, n),
        "reference_executions": refs,
        "simulated_time_logical_steps": agg["stats"].get("events", 0),
        "fault_kinds_fired": agg["faults"],
        "distinct_fault_sites": len(agg["sites"]),
        "distinct_interleavings_or_histories": len(agg["hash"]),
        "distinctness_measure": getattr(prop, "measure", "hash of the switch/fault trace of the run"),
        "operations_exercised": dict(sorted(agg["ops"].items())),
        "probes": {k: v for k, v in sorted(agg["stats"].items()) if k != "events"},
        "components": prop.components or COMPONENTS,
        "workers": workers,
        "focus": focus.describe(),
        "harness_errors": errors,
        "known_findings": sorted(knowns),
    }
    ev = {"property": prop.id, "tier": prop.tier, "seed": prop.seed, "level": "exploration",
          "coverage": cov, "assumptions": prop.assumptions or ASSUMPTIONS, "wall_s": round(wall, 2),
          "violations": viol}
    p = os.path.join(EVID, "%s.json" % prop.id)
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    os.replace(p + ".tmp", p)


COMPONENTS = {
    "real": ["tftb (every module, from the repository's working tree)", "numpy", "scipy",
             "matplotlib with the Agg back end", "CPython threads (parked and released one at a time)",
             "numpy's MT19937"],
    "stub": ["thread choice (seeded plan)", "interrupts and allocation failures (raised at planned instructions)",
             "clock (virtual where used)", "plt.show (recorded)", "locks created by tftb code (simulator locks)"],
}
ASSUMPTIONS = [
    "threads are switched and faults raised only at bytecode boundaries of tftb code; numpy, scipy and "
    "matplotlib calls are atomic steps",
    "results are compared with relative tolerance 1e-7 (1e-4 for single precision)",
    "sampling: held means no violation in the stated runs",
]

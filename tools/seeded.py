"""Run the checks against planted bugs: python3 tools/seeded.py [id ...]   (writes nothing under /verif unless --record).
Each patch is applied to a scratch copy of the repository, and the check of its property is run on that copy."""
import fcntl, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/seeded"
rec = "--record" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(D))
res = {}


def record(res):
    """Merge results into the file, under a lock: several of these may run at a time."""
    f = V + "/tools/seeded_results.json"
    with open("/tmp/seeded.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        old = json.load(open(f)) if os.path.exists(f) else {}
        old.update(res)
        old = {k: v for k, v in old.items() if os.path.isdir(D + "/" + k)}
        with open(f, "w") as h:
            json.dump(old, h, indent=0, sort_keys=True)
            h.write("\n")


for i in ids:
    m = json.load(open("%s/%s/meta.json" % (D, i)))
    w = "/tmp/seeded-%d-%s" % (os.getpid(), i)
    ev = w + ".ev"
    subprocess.check_call(["cp", "-a", "/repo", w])
    try:
        subprocess.check_call(["git", "-C", w, "apply", "%s/%s/patch.diff" % (D, i)])
        env = dict(os.environ, VERIF_REPO=w, SIM_EVIDENCE_DIR=ev, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                   VERIF_TIER="quick")
        t = time.time()
        p = subprocess.run([V + "/bin/check", m["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        run = re.search(r"violation in run (\d+)", p.stdout)
        cl = re.search(r"clause: (\S+)", p.stdout)
        res[i] = {"rc": p.returncode, "run": int(run.group(1)) if run else None, "clause": cl and cl.group(1)}
        print(i, m["property"], {1: "CAUGHT", 0: "MISSED"}.get(p.returncode, "ERROR"), res[i], "%.0fs" % (time.time() - t))
        sys.stdout.flush()
        if rec:
            record({i: res[i]})
    finally:
        shutil.rmtree(w)
        shutil.rmtree(ev, ignore_errors=True)
print("caught %d of %d" % (sum(r["rc"] == 1 for r in res.values()), len(res)))

"""Rewrite the two tables of DESIGN.md from properties.jsonl, the planted bugs and the recorded results."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
res = json.load(open(V + "/tools/seeded_results.json"))
man = json.load(open(V + "/MANIFEST.json"))
claimed = [c["property"] for c in man["checks"]]
meta = {i: json.load(open("%s/seeded/%s/meta.json" % (V, i))) for i in sorted(os.listdir(V + "/seeded"))}
METHOD = {
    "C01": ("each call alone", "thread switches, shared arguments"),
    "C02": ("bytes before the call, at every instruction", "interrupts, allocation failures, read-only layouts"),
    "C03": ("first run of a fresh object", "overwritten results, aborted runs"),
    "C04": ("bytes before the plot; a fresh object's picture", "failing displays, aborts"),
    "C05": ("the call in a pristine process", "history, buffer reuse, clock jumps, aborts, GC"),
    "C06": ("same seed in a pristine process; random state", "reseeding, aborts, other processes"),
    "C07": ("contract of each generator", "extreme and constant entropy"),
    "C08": ("the call alone, or the fault itself", "one fault per attempt, then retry"),
    "C09": ("settings before the call", "aborts, threads, strict settings"),
    "C10": ("the call on its own stream", "history, threads, aborts"),
    "C11": ("figures before the plot; picture of a pristine process", "aborts, failing display, closed windows"),
    "C12": ("contract: warn exactly when the law leaves [0, 0.5]", "filters, threads, aborts"),
    "C13": ("weak references die", "aborts, failures, threads"),
    "C14": ("bytes of every earlier result", "later calls, reuse of buffers"),
    "C15": ("a new object; pristine process", "crash and restart, interrupts, threads"),
    "C16": ("each call alone", "handlers, finalizers, hooks, callbacks"),
    "C17": ("each call alone", "forks between and inside calls, threads, aborts"),
    "C18": ("settings before the import; undisturbed process", "interrupted, failed and repeated imports, strict settings"),
    "C19": ("resources in use after earlier cycles", "aborts, failing display, threads, ever different arguments"),
}
t = ["| id | property | oracle | injected | planted bugs caught |", "|---|---|---|---|---|"]
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    mine = [k for k, m in meta.items() if m["property"] == i]
    ok = [k for k in mine if res.get(k, {}).get("rc") == 1]
    t.append("| %s | %s | %s | %s | %d of %d |" % (i, p["title"], METHOD[i][0], METHOD[i][1], len(ok), len(mine)))
s = ["%d planted bugs, each confirmed to build, to pass the existing tests and to fail its own demonstration; the quick check "
     "of its property (seed 1) catches %d.  `python3 tools/seeded.py [id ...]` repeats this." % (
         len(meta), sum(res.get(k, {}).get("rc") == 1 for k in meta)), "",
     "| change | needs | found by (clause), in run |", "|---|---|---|"]
for k, m in meta.items():
    r = res.get(k)
    s.append("| %s | %s | %s |" % (k, m["needs"].replace("|", "/").replace("\n", " "), "not run" if r is None else (
        "%s (%s), %s" % (m["property"], r["clause"], r["run"]) if r["rc"] == 1 else "missed")))
d = open(V + "/DESIGN.md").read()
for name, rows in (("table", t), ("seeded", s)):
    a = "<!-- %s (tools/mkdesign.py) -->\n" % name
    b = "<!-- /%s -->" % name
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + "\n".join(rows) + "\n" + d[j:]
open(V + "/DESIGN.md", "w").write(d)

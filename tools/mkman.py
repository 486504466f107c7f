"""Regenerate MANIFEST.json from properties.jsonl (ids C..: claimed; N..: not applicable) and sim/levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/sim/levels.json'))
NA = ("a pure function of its arguments: no schedule, clock, fault, interleaving, randomness or history occurs in the "
      "statement, so seeded simulation would only be input generation under another name")
m = {"version": 1, "setup_cmd": "bash bin/setup",
     "checks": [{"property": p["id"], "quick_cmd": "bash bin/check %s" % p["id"],
                 "thorough_cmd": "bash bin/check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": notes[p["id"]]["technique"],
                 "level": "exploration", "level_note": notes[p["id"]]["note"]} for p in props if p["id"][0] == "C"],
     "not_applicable": [{"property": p["id"], "reason": NA} for p in props if p["id"][0] == "N"]}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write("\n")

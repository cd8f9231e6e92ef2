#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and crates.map from one table (run by hand, not by the checks)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, crate='mc', state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note, crate))
exec(open(os.path.join(here, 'tools', 'props.py')).read())
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p, _, _, _ in P: f.write(json.dumps(p) + '\n')
for p, *_ in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hook is needed: the checks use the public API and compile the crates of /repo as they are", "source_commits": []},
     "checks": [], "not_applicable": NA, "notes": NOTES}
for p, t, n, c in P:
    i = p['id']
    m['checks'].append(dict(property=i, quick_cmd=f"bash /verif/check.sh {i}", thorough_cmd=f"bash /verif/check.sh {i} --thorough",
        evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
with open(os.path.join(here, 'crates.map'), 'w') as f:
    for p, _, _, c in P: f.write(f"{p['id']} {c}\n")

import json, sys, os, importlib
sys.path.insert(0, '/verif')
from plan import PLAN
NA = {}
checks = []
for pid, pl in PLAN.items():
    if pid in NA:
        continue
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s quick' % pid, thorough_cmd='python3-vt check.py %s thorough' % pid,
                       technique=pl['technique'], level=pl['level'], level_note=pl['note']))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Deductive units: specs/<pid>.py over the current source, engine pyvc/. Bounded run-time stand-ins: rt/. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
ps = [json.loads(l) for l in open('/verif/properties.jsonl')]
assert {p['id'] for p in ps} == {c['property'] for c in checks} | set(NA)
print(len(checks), 'checks')

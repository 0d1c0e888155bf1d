"""writes MANIFEST.json"""
import json
from pyvc import props
checks = []
for p in props.ALL:
    if p in props.NOT_APPLICABLE:
        continue
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': props.TECHNIQUE.get(p, props.TECH_DEFAULT),
                   'level': props.LEVEL.get(p, 'proof' if props.CONES.get(p) else 'exploration'), 'level_note': props.NOTE.get(p, props.NOTE_DEFAULT)})
m = {'version': 1, 'setup_cmd': 'python3-vt -m pyvc.theory', 'hooks': {'guard': 'none', 'enable': 'no hooks: contracts are sidecar files in /verif/pyvc, /repo is read as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in props.NOT_APPLICABLE.items()],
     'notes': 'See DESIGN.md. Repairs of genuine defects found on the way are the fix: commits of /repo, listed in known-findings.txt.'}
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

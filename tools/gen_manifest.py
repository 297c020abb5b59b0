"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'harness'))
from registry import DRIVERS, SPECS, NOTAPP
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for p in props:
    if p in DRIVERS:
        spec, how, note = SPECS[p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick /opt/venv/bin/python check.py ' + p,
                           thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python check.py ' + p, evidence_file='evidence/%s.json' % p,
                           technique='TLA+ specification (%s) model-checked with TLC; %s' % (spec, how), level='model_checking', level_note=note))
na = [dict(property=p, reason=NOTAPP.get(p, 'no check yet')) for p in props if p not in DRIVERS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

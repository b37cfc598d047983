"""Writes /verif/MANIFEST.json: one check per property registered in analysis/registry.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'analysis'))
import registry
from texts import TECH, NOTE, NA
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        checks.append({'property': p, 'quick_cmd': './check.sh ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough ./check.sh ' + p,
                       'technique': TECH[p], 'level': 'translation_validation' if p in ('C01', 'C02') else 'other', 'level_note': NOTE[p]})
    else: na.append({'property': p, 'reason': NA.get(p, 'static check under construction, not claimed yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the analysis reads the compiler MIR of the unmodified crates. A check exits 2 when the crates do not compile or an anchor is missing.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')

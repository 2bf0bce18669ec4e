#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py (and the reasons below for what is not claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props

NA = {
    'C23': 'Linearizability quantifies over histories under a weak memory model; no sound static argument in reach bounds it. Its structural necessary conditions are claimed separately (C01, C02, C05).',
    'C24': 'Wall-clock delays depend on the scheduler and clock, not on the shape of the code; the structural part (deadline checked on every turn) is C19.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in props.PROPS:
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 checks/run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': props.TECH[i][0], 'level': 'other', 'level_note': props.TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/facts.py std nostd', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check extracts facts (instance-resolved MIR, through a rustc driver) from /repo\'s working tree into build/ and analyses them; nothing of /repo is run. No hooks in /repo are needed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the registered checks and notes.json."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
have = set(subprocess.run(['/verif/bin/verif', 'list'], capture_output=True, text=True).stdout.split())
notes = json.load(open('/verif/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = notes['checks'].get(i, notes['default'])
        checks.append({'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': n['technique'], 'level': 'other', 'level_note': n['level_note']})
    else:
        na.append({'property': i, 'reason': notes['not_applicable'].get(i, 'The check for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: see DESIGN.md. No hooks in /repo.'}, open('/verif/MANIFEST.json', 'w'), indent=1)

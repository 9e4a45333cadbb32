#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
VERIF = check.VERIF
notes = json.load(open(os.path.join(VERIF, 'bin', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    pid = p['id']
    if pid in check.TABLE:
        n = notes[pid]
        m['checks'].append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 bin/check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + pid,
                            'evidence_file': 'evidence/%s.json' % pid, 'technique': n[0], 'level': 'model_checking', 'level_note': n[1]})
    else:
        m['not_applicable'].append({'property': pid, 'reason': 'no check built yet'})
m['notes'] = 'TLA+ checked with TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through the public interface.'
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)

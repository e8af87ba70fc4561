#!/usr/bin/env python3
"Write MANIFEST.json from the checks present and the notes below."
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json'), encoding='utf-8'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i in NOTES:
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': n['technique'], 'level': n.get('level', 'model_checking'), 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'no check has been built yet (see DESIGN.md)')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, decided with TLC; every check replays behaviours TLC generated into the code in /repo. No hooks were added to /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'wt', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not claimed')

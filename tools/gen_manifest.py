#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
notes = json.load(open(V + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    special = os.path.exists(f'{V}/tools/check_{i}.py')
    if not glob.glob(f'{V}/tu/{i}_*.cpp') and not special:
        na.append({'property': i, 'reason': 'no check registered yet'}); continue
    cmd = f'python3 tools/check_{i}.py' if special else f'python3 tools/check.py {i}'
    checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --tier thorough',
                   'technique': notes.get(i, {}).get('technique', 'abstract interpretation of LLVM IR with typestate/ownership monitors (fixpoint over disjunctive abstract states)'),
                   'level': 'other', 'level_note': notes.get(i, {}).get('note', notes['default'])})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

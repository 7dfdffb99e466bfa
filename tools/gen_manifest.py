#!/usr/bin/env python3
"""writes MANIFEST.json: a check per property that has a file in props/"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
tech = {}
for l in open(V + '/tools/techniques.txt'):
    l = l.strip()
    if l and not l.startswith('#'):
        i, t, n = l.split(' | ')
        tech[i] = (t, n)
checks, na = [], []
for i in ids:
    if glob.glob(f'{V}/props/{i}_*.cc') and i in tech:
        checks.append({'property': i, 'quick_cmd': f'VERIF_TIER=quick ./check.sh {i}',
                       'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                       'technique': tech[i][0], 'level': 'exploration', 'level_note': tech[i][1]})
    else:
        na.append({'property': i, 'reason': 'the check is not finished yet; no claim is made'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check is generated-input search (pbt engine in engine/) against an explicit oracle; no hooks in /repo are needed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'unclaimed')

#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    t = c.get('technique') or ('Verus contracts on the extracted functions, all obligations discharged; bounded differential harness for what is not under contract'
        if c['level'] == 'proof' else 'bounded differential check against an independent oracle')
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i}', technique=t,
                       level=c['level'], level_note=c['note'] or '-'))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)

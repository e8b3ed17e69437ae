"""writes MANIFEST.json from properties.jsonl and the table below"""
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(H, 'concrete')) if f[0] == 'c' and f[1:3].isdigit()}
NOTES = json.load(open(os.path.join(H, 'levels.json'))) if os.path.exists(os.path.join(H, 'levels.json')) else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append(dict(property=i, reason='check not built yet'))
        continue
    n = NOTES.get(i, {})
    checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} quick', thorough_cmd=f'python3 run.py {i} thorough',
                       technique=n.get('technique', 'contract-based verification: contracts on the real functions, executed on the real code as labelled bounded stand-in'),
                       level=n.get('level', 'exploration'),
                       level_note=n.get('note', 'Bounded: the contracts are executed on the real functions for enumerated and seeded inputs; oracle is an independent specification.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)

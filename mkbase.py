#!/usr/bin/env python3
"""contracts/discharged.json: the obligations discharged on the current tree, per property (run by hand)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
subprocess.run(['python3-vt', os.path.join(HERE, 'pyvc/prove.py'), 'all', '--jobs', '8', '--out', '/tmp/all_ded.json'], check=True)
d = json.load(open('/tmp/all_ded.json'))
res = {}
for o in d['obligations']:
    if o['status'] == 'discharged':
        for p in o['props']:
            res.setdefault(p, {})[o['id']] = o.get('source', '')
json.dump(dict(sorted(res.items())), open(os.path.join(HERE, 'contracts/discharged.json'), 'w'), indent=0)
for o in d['obligations']:
    if o['status'] != 'discharged':
        print(o['status'], o['id'], o['detail'][:200], o.get('bounded_sizes', ''))
print({p: len(v) for p, v in res.items()}, len(d['obligations']))

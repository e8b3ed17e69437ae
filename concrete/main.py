"""usage: main.py PID --list | PID --clauses a,b --seed N --tier quick --budget S --out F | --replay FILE"""
import importlib
import json
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import harness


def load(pid):
    importlib.import_module(pid.lower())
    return harness.CLAUSES[pid]


def main(a):
    if a[0] == '--replay':
        rec = json.load(open(a[1]))
        for cl in load(rec['property']):
            if cl.name == rec['clause']:
                try:
                    bad = harness.run_case(cl, rec['data'])
                except harness.Known as k:
                    print('KNOWN-FINDING:', k.finding)
                    return 0
                except harness.Skip:
                    bad = None
                if bad:
                    print('REPRODUCED', rec['property'], rec['clause'], json.dumps(rec['data'])[:2000])
                    print(bad['message'])
                    return 1
                print('NOT REPRODUCED')
                return 0
        print('unknown clause')
        return 3
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2])) if a[1] != '--list' else {}
    cls = load(pid)
    if a[1] == '--list':
        print(json.dumps([dict(name=c.name, share=c.share, functions=c.functions) for c in cls]))
        return 0
    want = opt['--clauses'].split(',')
    res = []
    for c in cls:
        if c.name in want:
            res.append(harness.run_clause(c, int(opt['--seed']), opt['--tier'], float(opt['--budget']) * c.share))
    with open(opt['--out'], 'w') as f:
        json.dump(res, f)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

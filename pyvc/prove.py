"""prove.py PID --tier quick|thorough --out FILE: discharge the obligations of a property."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import verify

sys.path.insert(0, verify.CONTRACTS)


def all_obligations():
    out = []
    for fn in sorted(os.listdir(verify.CONTRACTS)):
        if fn.startswith('obl_') and fn.endswith('.py'):
            out.extend(importlib.import_module(fn[:-3]).obligations())
    ids = [o.oid for o in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out


COMMON = ["the functions are read from /repo's working tree on every run (ast) and interpreted under Python semantics by pyvc; dropped: comments, docstrings, annotations, texts of exceptions and warnings and print output",
          "machine integers are unbounded in Python; floats are treated as real numbers",
          "no MemoryError, RecursionError, KeyboardInterrupt or redefinition of builtins and of the classes of /repo at run time"]
ENGINE = ["attributes of an object are changed only by the methods of /repo (no monkey patching); objects have the exact class named in the obligation",
          "hash() respects equality for the builtin types; sorted(), set, dict, re, itertools, math.factorial follow the Python documentation (modelled in pyvc/builtin_lib.py)"]
TRUSTED = ['pyvc (verification-condition generator of /verif, cross-checked by executing every obligation natively under PyPy)', 'z3', 'CPython ast']


def loop_units(pid):
    """functions proved by the loop verifier: (module, contract or None for the lemmas)"""
    import loops
    import sets
    import sums
    out = []
    for fn in sorted(os.listdir(verify.CONTRACTS)):
        if fn.startswith(('loops_', 'sets_', 'sums_')) and fn.endswith('.py'):
            m = importlib.import_module(fn[:-3])
            if pid == 'all' or pid in m.PROPS:
                out.append((fn[:-3], None))
                out += [(fn[:-3], k) for k, c in vars(m).items() if isinstance(c, (loops.Contract, sets.SetContract, sums.SumContract))
                        and c.__dict__.get('owner', fn[:-3]) == fn[:-3]]
    return out


def loop_work(mod, name):
    import loops
    import sets
    import sums
    import warnings
    from values import Unsupported
    warnings.simplefilter('ignore')
    m = importlib.import_module(mod)
    pr = loops.Prover(int(15000 * float(os.environ.get('VERIF_SLOW', '1'))))
    cons = {c.name: c for c in vars(m).values() if isinstance(c, loops.Contract)}
    t0 = time.time()
    base = dict(loop=True, props=m.PROPS, parts={}, function='ghost lemmas' if name is None else vars(m)[name].name, contracts_used=[], inlined=[])
    try:
        if name is None:
            m.lemmas(pr)
        else:
            con = vars(m)[name]
            lv = sets.SetVerifier(con, pr) if isinstance(con, sets.SetContract) else sums.SumVerifier(con, pr) if isinstance(con, sums.SumContract) else loops.LoopVerifier(con, cons, pr)
            import engine
            base['source'] = engine.source_hash({name: lv.fn})
            lv.run()
            if getattr(lv, 'inlined', None):
                base['inlined'] = sorted(lv.inlined)
                base['source'] = engine.source_hash(dict(lv.inlined, **{name: lv.fn}))
    except Unsupported as x:
        return [dict(base, id=f"{base['function']}: loop proof", status='unsupported', detail=str(x), time=0.0, solver_time=0.0)]
    except Exception as x:
        return [dict(base, id=f"{base['function']}: loop proof", status='unsupported', detail=f'engine error {type(x).__name__}: {x}', time=0.0, solver_time=0.0)]
    out, seen = [], {}
    for (n, st, d), (t, _, _) in zip(pr.results, pr.times):
        seen[n] = seen.get(n, 0) + 1
        out.append(dict(base, id=(f'{name}/' if name and mod.startswith(('sets_', 'sums_')) else '') + n + (f' #{seen[n]}' if seen[n] > 1 else ''), status=st, detail=d, time=t, solver_time=t))
    return out


_v = None


def work(oid):
    global _v
    if isinstance(oid, tuple):
        return loop_work(*oid)
    if _v is None:
        _v = verify.Verifier()
        _v.obs = {o.oid: o for o in all_obligations()}
    ob = _v.obs[oid]
    slow = float(os.environ.get('VERIF_SLOW', '1'))
    ob.ms, ob.limit = int(ob.ms * slow), ob.limit * slow
    return _v.check(ob)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--ids')
    ap.add_argument('--slow', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--limit', type=float, default=3000.0)
    a = ap.parse_args()
    t0 = time.time()
    obs = [o for o in all_obligations() if (a.pid in o.props or a.pid == 'all') and (not a.only or a.only in o.oid)]
    ids = set(json.load(open(a.ids))) if a.ids else None
    if ids is not None:
        obs = [o for o in obs if o.oid in ids]
    os.environ['VERIF_SLOW'] = str(a.slow)
    units = [u for u in loop_units(a.pid) if not a.only or a.only in u[0] or a.only in str(u[1])]
    res = []
    if a.jobs == 1 or len(obs) + len(units) <= 1:
        res = [work(o) for o in units + [o.oid for o in obs]]
    else:
        with multiprocessing.Pool(a.jobs) as p:
            it = p.imap_unordered(work, units + [o.oid for o in obs])
            for _ in units + obs:
                try:
                    res.append(it.next(timeout=max(0.1, a.limit - (time.time() - t0))))
                except multiprocessing.TimeoutError:
                    break
            p.terminate()
        done = {r['id'] for r in res if isinstance(r, dict)}
        for o in obs:
            if o.oid not in done:
                res.append({'id': o.oid, 'props': o.props, 'function': o.qual, 'status': 'unknown', 'detail': f'no answer within {a.limit:.0f} s',
                            'parts': {}, 'time': a.limit, 'solver_time': 0.0})
    flat = [r for l in res if isinstance(l, list) for r in l]
    for u in units if len([l for l in res if isinstance(l, list)]) < len(units) else []:
        print('no answer within the time limit:', u)
    order = {o.oid: i for i, o in enumerate(obs)}
    res = sorted([r for r in res if isinstance(r, dict)], key=lambda r: order[r['id']]) + sorted(flat, key=lambda r: r['id'])
    if not a.out:
        for r in res:
            print(f"{r['status']:12} {r['time']:6.2f}s {r['id']}  {r['detail'][:300] if r['status'] != 'discharged' else ''}"
                  f" {'bounded ' + str(r.get('bounded_sizes')) if r.get('bounded_sizes') else ''}{r.get('bounded', '')}")
        n = sum(r['status'] == 'discharged' for r in res)
        print(f'{n}/{len(res)} discharged in {time.time() - t0:.1f} s')
        return
    used = sorted({c for r in res for c in r.get('contracts_used', [])})
    inl = sorted({c for r in res for c in r.get('inlined', [])})
    import z3
    out = {'functions': sorted({r['function'] for r in res} - {'ghost lemmas'}), 'obligations': res, 'solver_time': round(sum(r['solver_time'] for r in res), 2),
           'backend': 'z3 ' + z3.get_version_string(), 'contracts_used': used, 'inlined': inl,
           'assumptions': (COMMON if res else []) + (ENGINE if obs else []) + list(dict.fromkeys(f'{m}: {x}' for m, n in units for x in getattr(importlib.import_module(m), 'ASSUMES', []))) +
                          (['contracts of these functions are assumed where they are called, and are obligations of their own: ' + ', '.join(used)] if used else []),
           'trusted': TRUSTED if res else [], 'notes': []}
    json.dump(out, open(a.out, 'w'), indent=1)


if __name__ == '__main__':
    main()

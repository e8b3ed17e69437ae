#!/usr/bin/env python3
"""usage: run.py <property> [quick|thorough]

Decides one property on the working tree of /repo:
 1. the deductive layer (pyvc) extracts the functions under contract from /repo, generates the proof obligations of
    their contracts and has them discharged by z3;
 2. the concrete layer executes the same contracts (and those of functions beyond the verifier's reach) on the real
    code: it supplies the failing input of a refuted obligation, and is the bounded stand-in where nothing is proved.
Exit 0: held; exit 1 with VIOLATION lines: broken; exit 2: the check itself failed."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv/bin/python'
PYVT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PYVT):
    PYVT = 'python3-vt'
WORKERS = 7
BUDGET = dict(quick=24.0, thorough=420.0)     # seconds for one clause of share 1
DED_LIMIT = dict(quick=240.0, thorough=3000.0)
NATIVE = dict(quick=6.0, thorough=120.0)        # seconds of drawn arguments for the obligations
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)


def pypy(*args):
    return [PYPY, '-W', 'ignore', os.path.join(HERE, 'concrete', 'main.py')] + list(args)


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def replay(path, tries=3):
    """the failing input in a fresh process; True when the real code fails again"""
    for _ in range(tries):
        try:
            r = subprocess.run(pypy('--replay', path), env=ENV, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return True, 'no answer within 300 s'
        if r.returncode == 1 and 'REPRODUCED' in r.stdout:
            return True, r.stdout[-3000:]
    return False, (r.stdout + r.stderr)[-1500:]


def concrete(pid, tier, seed, scratch):
    r = subprocess.run(pypy(pid, '--list'), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('cannot load the contracts of ' + pid + ':\n' + r.stderr[-3000:])
    clauses = json.loads(r.stdout)
    todo = sorted(clauses, key=lambda c: -c['share'])
    running, results, errors = [], {}, []

    def start(c, attempt=0):
        out = os.path.join(scratch, f"{pid}-{c['name']}-{attempt}.json")
        p = subprocess.Popen(pypy(pid, '--clauses', c['name'], '--seed', str(seed), '--tier', tier, '--budget',
                                  str(BUDGET[tier]), '--out', out), env=ENV, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True, start_new_session=True)
        running.append((p, c, out, attempt, time.time()))
    while todo or running:
        while todo and len(running) < WORKERS:
            start(todo.pop(0))
        time.sleep(0.05)
        for job in list(running):
            p, c, out, attempt, t0 = job
            limit = BUDGET[tier] * c['share'] + 240
            if p.poll() is None and time.time() - t0 < limit:
                continue
            running.remove(job)
            if p.poll() is None:
                kill(p)
                errors.append(f"{c['name']}: no answer within {limit:.0f} s")
                continue
            try:
                with open(out) as f:
                    results[c['name']] = json.load(f)[0]
            except (OSError, ValueError, IndexError):
                err = p.stderr.read()[-2000:]
                if attempt == 0:
                    start(c, 1)
                else:
                    errors.append(f"{c['name']}: exit {p.returncode}: {err}")
    return clauses, results, errors


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        return decide(pid, tier, seed, scratch, rdir, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def native(scratch, *args, limit=600):
    """concrete/native.py: the contracts of /verif/contracts executed on the real code"""
    out = os.path.join(scratch, f'native-{time.time():.6f}.json')
    try:
        r = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'concrete', 'native.py')] + list(args) + ['--out', out],
                           env=ENV, capture_output=True, text=True, timeout=limit)
        with open(out) as f:
            return json.load(f), ''
    except (OSError, ValueError):
        return [], 'native execution gave no result: ' + (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return [], 'native execution: time limit'


def deductive(pid, tier, scratch, limit):
    out = os.path.join(scratch, 'ded.json')
    cmd = [PYVT, os.path.join(HERE, 'pyvc', 'prove.py'), pid, '--tier', tier, '--limit', str(limit), '--out', out]
    return subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True), out


def decide(pid, tier, seed, scratch, rdir, t0):
    limit = DED_LIMIT[tier]
    ded_p, ded_out = deductive(pid, tier, scratch, limit)
    clauses, results, errors = concrete(pid, tier, seed, scratch)
    ded = dict(functions=[], obligations=[], assumptions=[], solver_time=0.0, notes=[])
    try:
        ded_log, _ = ded_p.communicate(timeout=max(10, limit + 60 - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        kill(ded_p)
        ded_log = 'stopped: time limit'
    if os.path.exists(ded_out):
        with open(ded_out) as f:
            ded = json.load(f)
    else:
        ded['notes'].append('the deductive layer gave no result: ' + ded_log[-1500:])
    known = load_known()
    listed = {k['id']: k for k in known['findings']}
    lines, violations, notes = [], 0, []
    obs = ded['obligations']
    bad = [o for o in obs if o['status'] == 'refuted']
    with open(os.path.join(HERE, 'contracts', 'discharged.json')) as f:
        base = json.load(f).get(pid, {})
    lost = [o for o in obs if o['status'] not in ('discharged', 'refuted') and (o['id'] in base or o.get('loop'))]

    # the contracts executed on the real code: stand-in for what is undecided, cross-check of what is proved
    nat, why = native(scratch, '--fuzz', pid, '--seed', str(seed), '--budget', str(NATIVE[tier]), limit=NATIVE[tier] + 240) if obs else ([], '')
    if why:
        notes.append(why)
    if lost or bad:
        more, why = native(scratch, '--fuzz', pid, '--seed', str(seed + 1000), '--budget', str(3 * NATIVE[tier]),
                           '--only', '|'.join(o['id'] for o in lost + bad), limit=3 * NATIVE[tier] + 240)
        nat = nat + more
        if why:
            notes.append(why)
    if lost and not any(r['fail'] for r in results.values()):
        notes.append('proofs of the unchanged tree that are lost: ' + ', '.join(o['id'] for o in lost))
        for k in range(1, 3):
            _, again, err = concrete(pid, tier, seed + 1000 * k, scratch)
            for name, r in again.items():
                q = results.get(name)
                if q is None:
                    results[name] = r
                    continue
                for f in ('evaluations', 'distinct', 'skipped'):
                    r[f] += q[f]
                r['known'].update(q['known'])
                results[name] = r
            if any(r['fail'] for r in results.values()):
                break

    # violations with a failing input
    for name, r in sorted(results.items()):
        for k, data in r['known'].items():
            if k in listed and listed[k]['property'] == pid:
                lines.append(f"KNOWN-FINDING: property={pid} {k} {listed[k]['what']}")
            else:
                r['fail'] = r['fail'] or dict(property=pid, clause=name, data=json.loads(data), message='unlisted ' + k)
        if r['fail']:
            path = os.path.join(rdir, f"{pid}-{name}.json")
            rec = dict(r['fail'], functions=r['functions'],
                       how='replay with: /opt/venv/bin/python /verif/concrete/main.py --replay ' + path,
                       failed_obligations=[dict(id=o['id'], status=o['status'], verifier_output=o['detail']) for o in bad + lost])
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            ok, log = replay(path)
            if ok:
                violations += 1
                lines.append(f"{pid} contract '{name}' ({', '.join(r['functions'])}) fails on {json.dumps(rec['data'])[:600]}: {rec['message'][:800]}")
                lines.append(f"VIOLATION property={pid} replay={path}")
            else:
                notes.append(f"clause {name}: a failure did not reproduce: {rec['message'][:300]}")

    # contracts that fail on drawn arguments
    todo = [dict(id=n['id'], model=n['model'], size=None) for n in nat if n.get('fails')]
    # refuted obligations: the verifier's counterexample on the real code
    todo += [dict(id=o['id'], model=o['model'], size=o['size']) for o in bad if o.get('model') is not None]
    shown = []
    if todo:
        mpath = os.path.join(scratch, 'models.json')
        with open(mpath, 'w') as f:
            json.dump(todo, f)
        got, why = native(scratch, '--model', mpath)
        if why:
            notes.append(why)
        for rec, r in zip(todo, got):
            if r['fails'] and rec['id'] not in shown:
                shown.append(rec['id'])
                if len(shown) > 5:
                    continue
                path = os.path.join(rdir, f"{pid}-obligation-{len(shown)}.json")
                with open(path, 'w') as f:
                    json.dump([dict(rec, property=pid, what=r['what'], verifier=ded.get('backend'),
                                    verifier_output=next((o['detail'] for o in obs if o['id'] == rec['id']), ''),
                                    how=f'replay with: /opt/venv/bin/python /verif/concrete/native.py --model {path} --out /dev/stdout')], f, indent=1)
                violations += 1
                lines.append(f"{pid} obligation {rec['id']} fails: {r['what'][:800]}")
                lines.append(f"VIOLATION property={pid} replay={path}")
    # obligations of changed functions that the verifier proved before and no longer accepts (lists of every length tried
    # included): reported although no failing input was found; an obligation the verifier cannot read any more is not
    failed = [o for o in lost if o['status'] == 'unknown' and o.get('source') and o['source'] != base.get(o['id']) and not o.get('bounded_sizes')]
    if failed and not bad and not violations:
        again = os.path.join(scratch, 'again.json')
        names = sorted({o['id'] for o in failed})
        with open(again + '.ids', 'w') as f:
            json.dump(names, f)
        subprocess.run([PYVT, os.path.join(HERE, 'pyvc', 'prove.py'), pid, '--tier', 'thorough', '--ids', again + '.ids', '--slow', '4', '--limit', '150',
                        '--jobs', '8', '--out', again], env=ENV, capture_output=True, timeout=400)
        try:
            with open(again) as f:
                now = {o['id']: o for o in json.load(f)['obligations']}
        except (OSError, ValueError):
            now = {}
        failed = [now[o['id']] for o in failed if o['id'] in now and now[o['id']]['status'] in ('unknown', 'refuted') and not now[o['id']].get('bounded_sizes')]
        bad = failed
    if bad and not violations:
        path = os.path.join(rdir, f"{pid}-obligations.json")
        with open(path, 'w') as f:
            json.dump(dict(property=pid, failed=bad, verifier=ded.get('backend')), f, indent=1)
        violations += 1
        for o in bad[:5]:
            lines.append(f"{pid} obligation {o['id']} is {o['status']}: {o.get('detail', '')[:500]}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")

    write_evidence(pid, tier, seed, clauses, results, ded, nat, violations, errors, notes, time.time() - t0)
    for x in dict.fromkeys(lines):
        print(x)
    n_ok = sum(1 for o in obs if o['status'] == 'discharged')
    print(f"{pid}: {len(ded['functions'])} functions under contract, {n_ok}/{len(obs)} obligations discharged; "
          f"{sum(r['evaluations'] for r in results.values())} contract executions over {len(results)} clauses; "
          f"{sum(n['runs'] for n in nat)} of obligations; {time.time() - t0:.1f} s")
    if violations:
        return 1
    if errors:
        print('CHECK-ERROR', *errors, sep='\n')
        return 2
    return 0


def write_evidence(pid, tier, seed, clauses, results, ded, nat, violations, errors, notes, wall):
    obs = ded['obligations']
    ok = [o for o in obs if o['status'] == 'discharged']
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        man = json.load(f)
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'other')
    cov = dict(
        evaluations=sum(r['evaluations'] for r in results.values()),
        distinct_nontrivial=sum(r['distinct'] for r in results.values()),
        rule="executed contracts: inputs inside the precondition, enumerated from the smallest up and then drawn with "
             "VERIF_SEED; distinct by the JSON form of the input; inputs outside the precondition are not counted",
        samples=[dict(clause=n, input=s) for n, r in sorted(results.items()) for s in r['samples'][:2]],
        bounded_stand_in=[dict(clause=n, functions=r['functions'], evaluations=r['evaluations'],
                               outside_precondition=r['skipped'], generator_exhausted=r['exhausted'], wall_s=r['wall'])
                          for n, r in sorted(results.items())],
        obligations_executed=dict(rule='each obligation on drawn arguments of the real code', runs=sum(n['runs'] for n in nat),
                                  not_executable=[n['id'] for n in nat if not n['native']]),
        functions_under_contract=ded['functions'],
        obligations=sum(1 for o in obs if not (o['status'] == 'unsupported' and o.get('bounded_sizes'))),
        discharged=len(ok),
        bounded_obligations=[o['id'] for o in obs if o['status'] == 'unsupported' and o.get('bounded_sizes')],
        undecided=[dict(id=o['id'], status=o['status'], why=o.get('detail', '')[:300], proved_for_lists_of_length=o.get('bounded_sizes', [])) for o in obs if o['status'] not in ('discharged', 'refuted')],
        refuted=[o['id'] for o in obs if o['status'] == 'refuted'],
        obligation_list=[f"{o['id']} [{o['status']}, {o.get('time', 0):.2f}s]" for o in obs],
        checker_cmd=f"python3-vt pyvc/prove.py {pid} (back end: {ded.get('backend', 'none')})",
        solver_time_s=round(ded.get('solver_time', 0.0), 3),
        trusted_base=ded.get('trusted', []),
        notes=ded.get('notes', []) + notes + errors,
    )
    if level == 'other':
        cov['explanation'] = 'contracts proved where the verifier reaches, executed with the stated bounds elsewhere'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ded.get('assumptions', []),
              wall_s=round(wall, 3), violations=violations)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)

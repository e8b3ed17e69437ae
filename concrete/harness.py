"""Concrete contract layer: executes the contracts against the real code in /repo (PyPy).

A clause is a named contract on public functions: a generator of JSON-serialisable inputs (small and exhaustive
first, then seeded random) and a predicate that raises Fail when the real code breaks the contract on that input.
Every failing input is therefore replayable from its JSON form alone.
"""
import contextlib
import gc
import io
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CLAUSES = {}


class Fail(Exception):
    pass


class Skip(Exception):
    """Input outside the precondition of the clause."""


class Known(Exception):
    """The input shows a defect that is listed in known_findings.json."""
    def __init__(self, finding):
        Exception.__init__(self, finding)
        self.finding = finding


class CaseTimeout(BaseException):
    pass


class Clause:
    def __init__(self, pid, name, gen, fn, functions, share):
        self.pid, self.name, self.gen, self.fn, self.functions, self.share = pid, name, gen, fn, functions, share


def clause(pid, name, gen, functions=(), share=1.0):
    def deco(fn):
        CLAUSES.setdefault(pid, []).append(Clause(pid, name, gen, fn, list(functions), share))
        return fn
    return deco


def check(cond, msg, *args):
    if not cond:
        raise Fail(msg if not args else msg + ': ' + '; '.join(repr(a) for a in args))


def expect(exc, fn, what):
    """fn() must raise one of exc."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
    raise Fail(f"{what}: expected {exc}, but it was accepted and gave {r!r}")


def returns(fn, what):
    """fn() must return normally (its precondition holds)."""
    try:
        return fn()
    except Exception as e:
        raise Fail(f"{what}: raised {type(e).__name__}: {e}")


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_LIMIT = 120


def run_case(cl, data):
    """Return None if the contract held, else a failure record; raises Skip/Known through."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet():
            cl.fn(data)
        return None
    except (Skip, Known):
        raise
    except Fail as e:
        return dict(message=str(e)[:4000])
    except CaseTimeout:
        return dict(message=f"no answer within {CASE_LIMIT} s on this input")
    except RecursionError as e:
        return dict(message='RecursionError ' + str(e))
    except Exception as e:
        return dict(message=f"{type(e).__name__}: {e}"[:3000], traceback=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)


def rounds(cl, seed, tier):
    """the generator of the clause, then again with other seeds, without repetitions, until it gives nothing new"""
    seen, k = set(), 0
    while True:
        rng = random.Random(f"{seed}:{cl.pid}:{cl.name}" + (f":{k}" if k else ''))
        new = False
        for data in cl.gen(rng, tier):
            key = json.dumps(data, sort_keys=True)
            if key not in seen:
                seen.add(key)
                new = True
                yield k, key
        if not new:
            return
        k += 1


def run_clause(cl, seed, tier, budget):
    t0 = time.time()
    stat = dict(clause=cl.name, functions=cl.functions, evaluations=0, skipped=0, distinct=0, samples=[],
                known={}, fail=None, exhausted=True, rounds=0)
    for k, key in rounds(cl, seed, tier):
        if time.time() - t0 > budget and stat['evaluations'] + stat['skipped'] > 0:
            stat['exhausted'] = False
            break
        stat['rounds'] = k + 1
        if stat['evaluations'] % 500 == 499:
            gc.collect()        # files the code under test leaves to the collector
        try:
            bad = run_case(cl, json.loads(key))
        except Skip:
            stat['skipped'] += 1
            continue
        except Known as kn:
            stat['known'].setdefault(kn.finding, key)
            bad = None
        stat['evaluations'] += 1
        n = len(stat['samples'])
        if n < 2 or (n < 4 and stat['evaluations'] % 97 == 0):
            stat['samples'].append(key[:400])
        if bad:
            bad.update(property=cl.pid, clause=cl.name, data=json.loads(key))
            stat['fail'] = bad
            break
    stat['distinct'] = stat['evaluations']
    stat['wall'] = round(time.time() - t0, 3)
    return stat

from physics import *
import contextlib
import multiprocessing
import pickle
import random
try:
    from dsrg_generator.helper.multiprocess_helper import calculate_star
except ImportError:
    calculate_star = None


class SchedulePool:
    """multiprocessing.Pool with the documented semantics, an adversarial completion order and pickled arguments.

    Chunks are finished in an arbitrary order; ordered operations (map, imap, starmap) return in order, as the
    documentation says.  Arguments and results pass through pickle, so nothing is shared with the caller."""
    order = random.Random(0)
    used = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        SchedulePool.used += 1
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    join = terminate = close

    @staticmethod
    def _do(f, args, kw=None):
        return pickle.loads(pickle.dumps(f(*pickle.loads(pickle.dumps(args)), **(kw or {}))))

    def _chunks(self, tasks, chunksize):
        if chunksize is not None and chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        c = chunksize or 1
        tasks = list(tasks)
        ch = [list(range(i, min(i + c, len(tasks)))) for i in range(0, len(tasks), c)]
        self.order.shuffle(ch)
        return tasks, ch

    def _run(self, f, tasks, chunksize, star=False):
        tasks, ch = self._chunks(tasks, chunksize)
        done = []
        for c in ch:
            for i in c:
                done.append((i, self._do(f, tuple(tasks[i]) if star else (tasks[i],))))
        return done

    def imap_unordered(self, f, it, chunksize=1):
        return iter([r for _, r in self._run(f, it, chunksize)])

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it, chunksize))

    def map(self, f, it, chunksize=None):
        return [r for _, r in sorted(self._run(f, it, chunksize), key=lambda x: x[0])]

    def starmap(self, f, it, chunksize=None):
        return [r for _, r in sorted(self._run(f, it, chunksize, True), key=lambda x: x[0])]

    def apply(self, f, args=(), kwds=None):
        return self._do(f, tuple(args), kwds)

    class _Res:
        def __init__(self, v):
            self.v = v

        def get(self, timeout=None):
            return self.v

        def wait(self, timeout=None):
            pass

        def ready(self):
            return True

        successful = ready

    def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
        r = self.apply(f, args, kwds)
        if callback:
            callback(r)
        return self._Res(r)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(f, it, chunksize)
        if callback:
            callback(r)
        return self._Res(r)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(f, it, chunksize)
        if callback:
            callback(r)
        return self._Res(r)


@contextlib.contextmanager
def schedule(seed):
    """every multiprocessing.Pool made by the code is a SchedulePool; 64 cores reported"""
    old, cpu = multiprocessing.Pool, multiprocessing.cpu_count
    mods = [m for m in (SC, PC) if getattr(m, 'Pool', None) is not None]
    mods = [(m, m.Pool) for m in mods]
    SchedulePool.order = random.Random(seed)
    multiprocessing.Pool = SchedulePool
    multiprocessing.cpu_count = lambda: 64
    for m, _ in mods:
        m.Pool = SchedulePool
    try:
        yield
    finally:
        multiprocessing.Pool, multiprocessing.cpu_count = old, cpu
        for m, p in mods:
            m.Pool = p


def gen_sched(rng, tier):
    for ops in FIXED:
        for conn in (False, True):
            for n, b in ((2, 0), (3, 1), (2, 7), (64, 0)):
                yield dict(ops=ops, max_cu=2, lo=0, hi=8, conn=conn, expand=True, n=n, b=b, seed=rng.randrange(10 ** 6))
    for _ in range(400 if tier == 'quick' else 8000):
        k = rng.choice([2, 2, 2, 3])
        ops = rnd_ops(rng, k, rng.choice([1, 2, 2]) if k < 3 else 1, rng.choice(['gphvca', 'ga', 'gpha', 'cva', 'g', 'a']))
        size = sum(len(c) + len(a) for c, a in ops)
        lo = rng.choice([0, 0, 1, 2])
        yield dict(ops=ops, max_cu=rng.randrange(1, 4), lo=lo, hi=rng.choice([lo, lo + 2, size]), conn=rng.random() < .5, expand=rng.random() < .6,
                   n=rng.choice([2, 3, 4, 5, 8, 16, 64]), b=rng.choice([0, 0, 0, 1, 2, 3, 7, 50]), seed=rng.randrange(10 ** 6))


def both(d, batch, n):
    sq = mk_ops(d['ops'])
    out = read_contractions(SC.compute_operator_contractions(sq, d['max_cu'], d['hi'], d['lo'], d['conn'], d['expand'], n, batch))
    check([d_op(o) for o in sq] == [(tuple(c), tuple(a)) for c, a in d['ops']], 'operators modified')
    return normal(out)


@clause('C20', 'contractions-any-schedule', gen_sched, ['compute_operator_contractions_general', 'compute_operator_contractions_connected', 'estimate_batch_size'])
def _(d):
    one = both(d, 1, 1)
    if sum(one.values()) > 3000:
        raise Skip()
    with schedule(d['seed']):
        many = both(d, d['b'], d['n'])
    check(many == one, f"{d['n']} processes, batch {d['b']}: " + diff(many, one))


def gen_real(rng, tier):
    k = 4 if tier == 'quick' else 40
    for ops, conn, n, b in ((FIXED[6], False, 2, 0), (FIXED[6], True, 3, 1), (FIXED[5], True, 2, 0), (FIXED[7], False, 2, 3)):
        yield dict(ops=ops, max_cu=2, lo=0, hi=8, conn=conn, expand=True, n=n, b=b)
    for _ in range(k):
        yield dict(ops=rnd_ops(rng, 2, 2, 'gha', lo=1), max_cu=2, lo=0, hi=8, conn=rng.random() < .5, expand=True, n=rng.choice([2, 3, 4]), b=rng.choice([0, 1, 5]))


@clause('C20', 'contractions-real-processes', gen_real, ['compute_operator_contractions_general', 'compute_operator_contractions_connected'])
def _(d):
    one, many = both(d, 1, 1), both(d, d['b'], d['n'])
    check(many == one, f"{d['n']} processes, batch {d['b']}: " + diff(many, one))


def gen_terms(rng, tier):
    for c in (True, False):
        yield dict(t=[ham(1), amp(1)], max_cu=2, lo=0, hi=6, f=1.0, conn=c, expand=True, herm=True, n=2, seed=1, real=True)
    for _ in range(60 if tier == 'quick' else 2000):
        letters = rng.choice(['gphvca', 'cva', 'ghp', 'hp'])
        t = [rnd_term(rng, 6 * i, letters, rng.choice([1, 1, 2])) for i in range(2)]
        yield dict(t=t, max_cu=2, lo=rng.choice([0, 0, 2]), hi=rng.choice([2, 4, 8]), f=rng.choice([1.0, -.5]), conn=rng.random() < .5,
                   expand=rng.random() < .7, herm=rng.random() < .6, n=rng.choice([2, 3, 4, 7, 64]), seed=rng.randrange(10 ** 6), real=False)


@clause('C20', 'products-and-commutators', gen_terms, ['contract_terms', 'canonicalize_contractions_batch', 'single_commutator', 'linear_commutator', 'calculate_star'])
def _(d):
    raw = product_spec(d['t'], d['max_cu'], d['lo'], d['hi'], d['f'], d['conn'], d['expand'])
    if len(raw) > 150:
        raise Skip()
    mk = lambda: [mk_term(x) for x in d['t']]
    key = lambda ts: [(like_key(t), fr(t.coeff)) for t in ts]
    runs = [('contract_terms', lambda n: PC.contract_terms(mk(), d['max_cu'], d['hi'], d['lo'], d['f'], d['conn'], d['expand'], n, d['herm'])),
            ('single_commutator', lambda n: PC.single_commutator(*mk(), max_cu=d['max_cu'], max_n_open=d['hi'], min_n_open=d['lo'], scale_factor=d['f'], for_commutator=d['conn'], expand_hole=d['expand'], n_process=n, hermitian_tensor=d['herm'])),
            ('linear_commutator', lambda n: PC.linear_commutator(mk()[:1], mk()[1:], d['f'], d['lo'], d['hi'], max_cu=d['max_cu'], n_process=n, for_commutator=d['conn'], hermitian_tensor=d['herm']))]
    for name, f in runs if not d['real'] else runs[:1]:
        one = key(f(1))
        if d['real']:
            many = key(f(d['n']))
        else:
            with schedule(d['seed']):
                many = key(f(d['n']))
        if name == 'linear_commutator' or name == 'single_commutator':
            a, b = sorted(one), sorted(many)
            check(a == b, name + ' depends on the number of processes', [x for x in b if x not in a][:2], [x for x in a if x not in b][:2])
        check(one == many, name + f": {d['n']} processes give a different list", [x for x in many if x not in one][:2], [x for x in one if x not in many][:2])


def gen_batch(rng, tier):
    yield dict(sizes=[10000, 5], n=1, seed=1, f=.5)
    yield dict(sizes=[9999, 1, 1], n=1, seed=2, f=1.0)
    yield dict(sizes=[10001, 2], n=3, seed=3, f=1.0)
    yield dict(sizes=[20000, 1], n=5, seed=3, f=1.0)
    yield dict(sizes=[10000, 10000, 10000, 3], n=1, seed=4, f=1.0)
    yield dict(sizes=[10000, 10000, 10000], n=2, seed=5, f=-.5)
    yield dict(sizes=[6000] * 6, n=3, seed=6, f=1.0)
    for _ in range(2 if tier == 'quick' else 60):
        n = rng.choice([1, 1, 2, 4, 6])
        yield dict(sizes=[rng.choice([1, 7, 300, 5000, 9999, 10001]) for _ in range(rng.randrange(2, 7))], n=n, seed=rng.randrange(10 ** 6), f=rng.choice([1.0, -.25]))


@clause('C20', 'large-batches', gen_batch, ['contract_terms', 'canonicalize_contractions_batch'], share=1.3)
def _(d):
    """no contraction is lost or repeated where contract_terms splits a long stream of contractions into batches"""
    rng = random.Random(d['seed'])
    terms = [mk_term(ham(1)), mk_term(amp(1))]
    pool = [x for b in SC.compute_operator_contractions([t.sq_op for t in terms], 2, 4, 0, False, True) for x in b]
    stream = [[rng.choice(pool) for _ in range(s)] for s in d['sizes']]
    want = {}
    coeff = fr(d['f']) * fr(terms[0].coeff) * fr(terms[1].coeff)
    tens = [y for t in terms for y in d_term(t)[1]]
    keys = {id(x): like_key((1, tens + [d_tensor(y) for y in x[1]], d_op(x[2]))) for x in pool}
    for b in stream:
        for x in b:
            k = keys[id(x)]
            want[k] = want.get(k, 0) + x[0] * coeff
    want = {k: v for k, v in want.items() if v}
    used = []

    def fake(*a, **k):
        used.append(1)
        for b in stream:
            yield list(b)
    if not hasattr(PC, 'compute_operator_contractions') or not hasattr(Term, 'canonicalize_sympy'):
        raise Skip()
    old, canon = PC.compute_operator_contractions, Term.canonicalize_sympy
    PC.compute_operator_contractions = fake
    Term.canonicalize_sympy = lambda self, *a, **k: self
    try:
        with schedule(d['seed']):
            got = PC.contract_terms(terms, 2, 4, 0, d['f'], False, True, d['n'])
    finally:
        PC.compute_operator_contractions, Term.canonicalize_sympy = old, canon
    if not used:
        raise Skip()
    g = as_sum(got)
    check(g == want, 'contractions lost, repeated or changed between batches', [(k, g.get(k), want.get(k)) for k in set(g) | set(want) if g.get(k) != want.get(k)][:2])


def gen_star(rng, tier):
    for a in ([], [1], [1, 2], [3, 1, 2]):
        yield dict(a=a)


def _probe(*a):
    return list(a)


@clause('C20', 'task-wrapper', gen_star, ['calculate_star'])
def _(d):
    if calculate_star is None:
        raise Skip()
    check(calculate_star((_probe, tuple(d['a']))) == d['a'], 'arguments passed to a task')


def gen_est(rng, tier):
    for u in range(0, 7):
        for l in range(0, 7):
            for lo, hi in ((0, u + l), (-3, 4), (2, 6), (-6, -1)):
                for n in (1, 2, 8, 64):
                    yield dict(a=[u, l, hi, lo, n])


@clause('C20', 'batch-size-estimate', gen_est, ['estimate_batch_size'])
def _(d):
    b = SC.estimate_batch_size(*d['a'])
    check(isinstance(b, int) and b >= 1, 'a chunk size must be a positive integer', b)

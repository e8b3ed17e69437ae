from wick import *


def gen(rng, tier):
    for ops in FIXED:
        for m in (1, 2, 3, 4):
            yield dict(ops=ops, max_cu=m)
    for x in itertools.product('gphvca', repeat=2):
        yield dict(ops=[[[x[0] + '0'], ['g0']], [['g1'], [x[1] + '1']]], max_cu=2)
        yield dict(ops=[[['g0'], [x[0] + '0']], [[x[1] + '1'], ['g1']]], max_cu=2)
    for _ in range(700 if tier == 'quick' else 12000):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        yield dict(ops=rnd_ops(rng, n, rng.choice([1, 2, 3, 4]) if n < 4 else 2, rng.choice(['gphvca', 'ga', 'gpha', 'cva'])), max_cu=rng.randrange(-1, 7))


def spec(ops, m):
    return {}


@clause('C06', 'elementary', gen, ['compute_elementary_contractions_pairwise', 'compute_elementary_contractions_cumulant', 'compute_elementary_contractions_half_cumulant', 'compute_elementary_contractions_categorized', 'compute_elementary_contractions_list', 'check_max_cu'])
def _(d):
    ops, m = d['ops'], d['max_cu']
    sq = mk_ops(ops)
    want_m = O.max_cu_allowed(ops, m)
    check(SC.check_max_cu(sq, m) == want_m, 'allowed cumulant rank', SC.check_max_cu(sq, m), want_m)
    try:
        n_est = 1
        want = O.elementary(ops, m)
    except MemoryError:
        raise Skip()
    got = SC.compute_elementary_contractions_categorized(sq, m)

    def nf(k, u, l):
        return k, frozenset(u), frozenset(l)
    wc = Counter((key,) + nf(k, u, l) for key, k, u, l in want)
    gc = Counter()
    for key, ts in got.items():
        for t in ts:
            k, n, u, l = d_tensor(t)
            check(t.indices_type is IndicesSpinOrbital, 'index kind')
            gc[(tuple(key),) + nf(k, u, l)] += 1
    check(gc == wc, 'categorized', diff(gc, wc))
    lst = Counter(nf(d_tensor(t)[0], *d_tensor(t)[2:]) for t in SC.compute_elementary_contractions_list(sq, m))
    check(lst == Counter(nf(k, u, l) for _, k, u, l in want), 'list')
    check([d_op(o) for o in sq] == [(tuple(c), tuple(a)) for c, a in ops], 'operators modified')


def gen_p(rng, tier):
    for ops in FIXED:
        yield dict(ops=ops)
    for _ in range(400 if tier == 'quick' else 5000):
        yield dict(ops=rnd_ops(rng, rng.choice([2, 3, 4]), 3))


@clause('C06', 'pairwise', gen_p, ['compute_elementary_contractions_pairwise'])
def _(d):
    got = SC.compute_elementary_contractions_pairwise(mk_ops(d['ops']))
    gc = Counter((tuple(k),) + dens_of(t) for k, ts in got.items() for t in ts)
    wc = Counter(x for x in O.elementary(d['ops'], 1) if len(x[2]) == 1)
    check(gc == wc, 'pairwise', diff(gc, wc))


def gen_half(rng, tier):
    for s in itertools.product(range(4), repeat=3):
        yield dict(sizes=list(s), m=3)
    for _ in range(150 if tier == 'quick' else 1500):
        yield dict(sizes=[rng.randrange(5) for _ in range(rng.randrange(1, 5))], m=rng.randrange(2, 6))


@clause('C06', 'half-cumulant', gen_half, ['compute_elementary_contractions_half_cumulant'])
def _(d):
    f = getattr(SC, 'compute_elementary_contractions_half_cumulant', None)
    if f is None:
        raise Skip()
    ops = [IndicesSpinOrbital([f"a{10 * k + i}" for i in range(n)]) for k, n in enumerate(d['sizes'])]
    got = f(ops, d['m'])
    allp = [(k, i) for k, n in enumerate(d['sizes']) for i in range(n)]
    for k in range(2, d['m'] + 1):
        g = Counter(tuple(x) for x in got.get(k, []))
        w = Counter(itertools.combinations(allp, k))
        check(g == w, f"choices of {k}", diff(g, w))


def gen_bad(rng, tier):
    yield dict(k=0)


@clause('C06', 'refusals', gen_bad, ['compute_elementary_contractions_categorized'])
def _(d):
    o = mk_op(['g0'], ['g1'])
    expect(TypeError, lambda: SC.compute_elementary_contractions_categorized([o, 'x'], 2), 'not an operator')
    expect(TypeError, lambda: SC.compute_elementary_contractions_categorized([o, o], 2.0), 'rank not an int')
    expect(NotImplementedError, lambda: SC.compute_elementary_contractions_categorized([SQ(['g0'], ['g1'], 'si')], 2), 'not spin-orbital')

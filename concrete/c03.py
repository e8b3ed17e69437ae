from common import *


def gen_lists(rng, tier):
    for kind in KINDS:
        for base in (['g0', 'g1', 'p0', 'a0', 'a10'], ['c0', 'c2', 'c10', 'v0', 'v1']):
            for n in range(6):
                for l in itertools.permutations(base[:n]):
                    yield dict(kind=kind, l=list(l))
        if kind != 'so':
            for l in itertools.permutations(['A0', 'a0', 'v0', 'V0']):
                yield dict(kind=kind, l=list(l))
    for l in itertools.permutations(['g0', 'g1', 'h0', 'v0', 'c0', 'a0']):
        yield dict(kind='so', l=list(l))
    if tier != 'quick':
        for l in itertools.permutations(['g0', 'g1', 'h0', 'v0', 'c0', 'a0', 'a1']):
            yield dict(kind='so', l=list(l))
    for _ in range(1500 if tier == 'quick' else 20000):
        kind = rng.choice(list(KINDS))
        yield dict(kind=kind, l=rnd_labels(rng, rng.randrange(2, 25), letters_of(kind)))


@clause('C03', 'lists', gen_lists, ['IndicesAntisymmetric.canonicalize', 'Indices.canonicalize', 'sort_and_count_inversions', 'merge_and_count_split_inversion'])
def _(d):
    kind, l = d['kind'], d['l']
    x = mk_ind(l, kind)
    y, s = x.canonicalize()
    want, sign = (tuple(l), 1) if kind == 'sa' else O.sort_sign(l)
    check(type(y) is type(x), 'kind of list', type(y))
    check(names(y) == want, 'order', names(y))
    check(s == sign and isinstance(s, int), 'sign', s, sign)
    check(names(x) == tuple(l) and len(x) == len(l), 'input modified', names(x))
    z, s2 = y.canonicalize()
    check(names(z) == want and s2 == 1, 'not idempotent', names(z), s2)


def gen_arrays(rng, tier):
    for n in range(7):
        for l in itertools.permutations(range(n)):
            yield dict(l=list(l))
    for n in range(1, 6):
        for l in itertools.product(range(3), repeat=n):
            yield dict(l=list(l))
    for _ in range(500 if tier == 'quick' else 5000):
        yield dict(l=[rng.randrange(rng.choice([3, 30, 1000])) for _ in range(rng.randrange(60))])


@clause('C03', 'sort-and-count', gen_arrays, ['sort_and_count_inversions', 'merge_and_count_split_inversion'])
def _(d):
    import importlib
    M = importlib.import_module('dsrg_generator.Indices')
    f = getattr(M, 'sort_and_count_inversions', None)
    if f is None:
        raise Skip()
    a = list(d['l'])
    r, n = f(a)
    check(list(r) == sorted(d['l']), 'sorted', r)
    check(n == O.inversions(d['l']), 'inversions', n)
    check(a == d['l'], 'input modified')


def gen_pairs(rng, tier):
    for u in itertools.permutations(['g0', 'g1', 'p0']):
        for l in itertools.permutations(['c1', 'c0', 'a2']):
            yield dict(kind='so', u=list(u), l=list(l), name=None, prio=None)
    for _ in range(1500 if tier == 'quick' else 20000):
        kind = rng.choice(list(KINDS))
        nu = rng.randrange(5)
        nl = nu if rng.random() < .8 else rng.randrange(5)
        yield dict(kind=kind, u=rnd_labels(rng, nu, letters_of(kind), 4), l=rnd_labels(rng, nl, letters_of(kind), 4),
                   name=rng.choice([None, 'W', 'foo']), prio=rng.choice([None, 0, 5, -3]))


@clause('C03', 'pairs-operators-tensors', gen_pairs, ['IndicesPair.canonicalize', 'IndicesPair.canonicalize_indices', 'SecondQuantizedOperator.canonicalize', 'Tensor.canonicalize'])
def _(d):
    kind, u, l = d['kind'], d['u'], d['l']
    if kind == 'sa':
        wu, wl, sign = tuple(u), tuple(l), 1
    else:
        (wu, s1), (wl, s2) = O.sort_sign(u), O.sort_sign(l)
        sign = s1 * s2
    objs = [IndicesPair(list(u), list(l), kind), SQ(list(u), list(l), kind)]
    for k in TCLASS:
        if tensor_ok(k, u, l):
            objs.append(mk_tensor(k, u, l, kind, d['name'], d['prio']))
    for o in objs:
        r, s = o.canonicalize()
        check(type(r) is type(o), 'class', type(o), type(r))
        check(names(r.upper_indices) == wu and names(r.lower_indices) == wl, 'order', type(o).__name__, names(r.upper_indices), names(r.lower_indices))
        check(r.indices_type is KINDS[kind] and type(r.lower_indices) is KINDS[kind], 'index kind')
        check(s == sign, 'sign', type(o).__name__, s, sign)
        if isinstance(o, Tensor):
            check(r.name == o.name and r.priority == o.priority, 'name/priority', r.name, r.priority)
        check(names(o.upper_indices) == tuple(u) and names(o.lower_indices) == tuple(l), 'input modified')

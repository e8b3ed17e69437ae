from common import *
from collections import Counter

ALIASES = {'so': ['so', 'spin-orbital'], 'si': ['si', 'spin-integrated'], 'sa': ['sa', 'spin-adapted'],
           'asymm': ['asymm', 'antisymmetric']}


def gen_lists(rng, tier):
    for kind in KINDS:
        yield dict(kind=kind, l=[])
        for n in range(1, 4):
            for l in itertools.permutations(['g0', 'a1', 'v0', 'c10', 'c2'], n):
                yield dict(kind=kind, l=list(l))
        for l in itertools.permutations(['A0', 'a0', 'V1', 'p1'], 3):
            yield dict(kind=kind, l=list(l))
        for l in itertools.product(['g0', 'A1', 'h2'], repeat=3):
            yield dict(kind=kind, l=list(l))
    for _ in range(1500 if tier == 'quick' else 30000):
        kind = rng.choice(list(KINDS))
        l = rnd_labels(rng, rng.randrange(13), letters_of(kind) if rng.random() < .8 else O.LETTERS)
        r = rng.random()
        if r < .1 and l:
            l.insert(rng.randrange(len(l) + 1), rng.choice(l))
        elif r < .15:
            l.insert(rng.randrange(len(l) + 1), rng.choice(['x0', 'g', '', 'g-1', '0g', 'gg']))
        yield dict(kind=kind, l=l)


def legal(kind, l):
    if any(not (len(s) >= 2 and s[0] in O.LETTERS and s[1:].isdigit()) for s in l):
        return False
    if len({O.key(s) for s in l}) != len(l):
        return False
    return not (kind == 'so' and any(map(O.is_beta, l)))


def snapshot(x):
    return names(x.indices), x.size, {i.name for i in x.indices_set}


@clause('C02', 'construct-and-read', gen_lists, ['Indices.__init__', 'Indices.make_indices', 'IndicesSpinOrbital.__init__', 'IndicesSpinIntegrated.__init__', 'Indices.__iter__', 'Indices.__getitem__', 'Indices.__contains__', 'Indices.__len__', 'Indices.__hash__', 'Indices.clone', 'Indices.count_index_space', 'Indices.latex', 'Indices.ambit'])
def _(d):
    kind, l = d['kind'], d['l']
    cls = KINDS[kind]
    forms = [lambda: cls(list(l)), lambda: cls(tuple(l))]
    for al in ALIASES[kind]:
        forms.append(lambda al=al: Indices.make_indices(list(l), al))
    if all(',' not in s for s in l) and (not l or l != ['']):
        forms += [lambda: cls(','.join(l)), lambda: cls(' , '.join(l))]
    if not legal(kind, l):
        for f in forms:
            expect(ValueError, f, f"{kind} {l}")
        return
    l0 = [f"{s[0]}{int(s[1:])}" for s in l]
    forms.append(lambda: cls([Index(s) for s in l]))
    forms.append(lambda: cls([Index(s) if k % 2 else s for k, s in enumerate(l)]))
    for f in forms:
        x = returns(f, f"{kind} {l}")
        check(type(x) is cls, 'kind', type(x))
        check(names(x) == tuple(l0) == names(x.indices), 'sequence', names(x))
        check(len(x) == x.size == len(l), 'length')
        check({i.name for i in x.indices_set} == set(l0) and len(x.indices_set) == len(l), 'set')
    src = [Index(s) for s in l]
    x = cls(src)
    snap = snapshot(x)
    # nested iteration and iteration during reading
    pairs = [(a.name, b.name) for a in x for b in x]
    check(pairs == [(a, b) for a in l0 for b in l0], 'nested iteration', pairs[:6])
    got = []
    for a in x:
        hash(x), len(x), list(x), str(x), Index('g7') in x
        got.append(a.name)
    check(got == l0, 'iteration disturbed by reading', got)
    check(list(zip(names(x), names(x))) == [(a, a) for a in l0], 'zip of two iterations')
    for k in range(-len(l), len(l)):
        check(x[k].name == l0[k], 'item', k)
    check(names(x[::-1]) == tuple(l0[::-1]) and names(x[1:]) == tuple(l0[1:]), 'slices')
    expect(IndexError, lambda: x[len(l)], 'item beyond the end')
    for s in set(l0) | {'g0', 'G0', 'a1', 'c2', 'v9'}:
        check((Index(s) in x) == (s in l0), 'membership', s)
    check(x.latex() == O.latex_list(l0) and x.latex(True) == '$' + O.latex_list(l0) + '$', 'latex', x.latex())
    check(x.ambit() == ','.join(l0), 'ambit', x.ambit())
    check(str(x) == ', '.join(l0), 'str', str(x))
    cnt = Counter(s[0] for s in l0)
    for spaces in (['c', 'v'], ['a'], [], list('gphvca'), list('GPHVCA'), ['A', 'a', 'g']):
        check(x.count_index_space(spaces) == sum(cnt[s] for s in spaces), 'count_index_space', spaces)
    expect(ValueError, lambda: x.count_index_space(['c', 'x']), 'count of an unknown space')
    y = x.clone()
    check(type(y) is cls and names(y) == tuple(l0) and y == x and hash(y) == hash(x) and y is not x, 'clone')
    nb = sum(map(O.is_beta, l0))
    check(x.n_beta() == nb, 'n_beta')
    if kind == 'si':
        check([i.name for i in x.alpha_indices] == [s for s in l0 if not O.is_beta(s)], 'alpha')
        check([i.name for i in x.beta_indices] == [s for s in l0 if O.is_beta(s)], 'beta')
        check(list(x.spin_count) == [len(l) - nb, nb] and x.n_alpha() == len(l) - nb, 'spin_count')
        check(bool(x.spin_pure) == (nb in (0, len(l))), 'spin_pure')
    else:
        for nm in ('alpha_indices', 'beta_indices', 'spin_count', 'spin_pure'):
            expect(TypeError, lambda: getattr(x, nm), nm)
    check(snapshot(x) == snap, 'reading changed the list')
    check([i.name for i in src] == l0, 'the given list was modified')


def gen_two(rng, tier):
    base = [[], ['g0'], ['a0'], ['g1'], ['g0', 'g1'], ['g1', 'g0'], ['a0', 'g0'], ['g0', 'v0'], ['g0', 'g1', 'g2'], ['c0', 'c1'], ['c0', 'c2'], ['c0', 'c10']]
    for kind in KINDS:
        for a in base:
            for b in base:
                yield dict(ka=kind, a=a, kb=kind, b=b)
    for ka in KINDS:
        for kb in KINDS:
            for a, b in [([], []), (['g0'], ['g0']), (['g0'], ['g1', 'a0']), (['v0', 'c1'], ['c1', 'v0'])]:
                yield dict(ka=ka, a=a, kb=kb, b=b)
    for _ in range(2500 if tier == 'quick' else 40000):
        ka = rng.choice(list(KINDS))
        kb = ka if rng.random() < .75 else rng.choice(list(KINDS))
        a = rnd_labels(rng, rng.randrange(7), letters_of(ka), 3)
        r = rng.random()
        if r < .35:
            b = a[:]
            rng.shuffle(b)
        elif r < .6:
            b = a[:]
            for _ in range(rng.randrange(1, 3)):
                if b:
                    b[rng.randrange(len(b))] = rng.choice(letters_of(kb)) + str(rng.randrange(12))
        else:
            b = rnd_labels(rng, rng.randrange(7), letters_of(kb), 3)
        if kb == 'so':
            b = [s.lower() for s in b]
        if len(set(b)) == len(b) and not (ka == 'so' and any(map(O.is_beta, a))):
            yield dict(ka=ka, a=a, kb=kb, b=b)


@clause('C02', 'two-lists', gen_two, ['Indices.__eq__', 'Indices.__ne__', 'Indices.__lt__', 'Indices.__le__', 'Indices.__gt__', 'Indices.__ge__', 'Indices.__add__', 'Indices.is_permutation', 'Indices.count_permutations', 'Indices.any_overlap'])
def _(d):
    a, b = mk_ind(d['a'], d['ka']), mk_ind(d['b'], d['kb'])
    la, lb = d['a'], d['b']
    sa, sb = snapshot(a), snapshot(b)
    if d['ka'] == d['kb']:
        cmp_all(a, b, list_key(la), list_key(lb), f"{d['ka']} {la} vs {lb}")
        check(a.any_overlap(b) == bool(set(la) & set(lb)), 'any_overlap')
    else:
        for nm, f in [('==', lambda: a == b), ('!=', lambda: a != b), ('<', lambda: a < b), ('<=', lambda: a <= b),
                      ('>', lambda: a > b), ('>=', lambda: a >= b), ('overlap', lambda: a.any_overlap(b))]:
            expect(TypeError, f, f"{d['ka']} {nm} {d['kb']}")
    perm = set(la) == set(lb)
    check(a.is_permutation(b) == perm, 'is_permutation')
    if perm:
        n = returns(lambda: a.count_permutations(b), 'count_permutations')
        check(n == O.inversions([la.index(x) for x in lb]), 'count_permutations', n, la, lb)
    else:
        expect(ValueError, lambda: a.count_permutations(b), 'count_permutations of different labels')
    both = la + lb
    if legal(d['ka'], both):
        c = returns(lambda: a + b, 'concatenation')
        check(type(c) is type(a) and names(c) == tuple(both) and len(c) == len(both), 'concatenation', names(c))
    else:
        expect(ValueError, lambda: a + b, 'concatenation')
    for f in (lambda: a + ['g9'], lambda: a == la, lambda: a < 'g0', lambda: a.is_permutation(lb), lambda: a.any_overlap(None)):
        expect(TypeError, f, 'operation with a non-list')
    check(snapshot(a) == sa and snapshot(b) == sb, 'operands changed')


def gen_misc(rng, tier):
    for k in ('spin', '', 'SO', 'x', 'spinorbital'):
        yield dict(alias=k)


@clause('C02', 'factory', gen_misc, ['Indices.make_indices'])
def _(d):
    expect(KeyError, lambda: Indices.make_indices(['g0'], d['alias']), 'unknown kind')
    for x in (None, 3, {'g0'}, iter(['g0'])):
        expect(TypeError, lambda: IndicesSpinOrbital(x), 'not a sequence')

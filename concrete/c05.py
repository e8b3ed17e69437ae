from common import *
import dsrg_generator.mo_space as MO


def gen_tables(rng, tier):
    yield dict(what='tables')


@clause('C05', 'tables', gen_tables, ['mo_space'])
def _(d):
    check(dict(MO.space_priority) == O.RANK, 'space_priority', dict(MO.space_priority))
    check({k: frozenset(v) for k, v in MO.space_relation.items()} == O.ELEM, 'space_relation')
    check({k: frozenset(v) for k, v in MO.space_relation_so.items()} == {k: v for k, v in O.ELEM.items() if k.islower()}, 'space_relation_so')
    check(dict(MO.space_priority_so) == {k: O.RANK[k] for k in 'gphvca'}, 'space_priority_so')
    check(list(MO.so_space) == list('gphvca') and list(MO.mo_space) == list(O.LETTERS), 'space lists')


def gen_label(rng, tier):
    for n in range(1, 4):
        for f in (str.lower, str.upper):
            for c in itertools.permutations('cav', n):
                yield dict(s=[f(x) for x in c])
    for x in O.LETTERS:
        yield dict(s=[x])
    for s in ([], ['x'], ['a', 'x'], ['c', 'a', 'v', '']):
        yield dict(s=s)


@clause('C05', 'label-of-set', gen_label, ['find_space_label'])
def _(d):
    s = set(d['s'])
    if not s or not s <= set(O.LETTERS):
        expect(ValueError, lambda: MO.find_space_label(s), f"{s}")
        return
    if len(s) == 1:
        want = d['s'][0]
    elif frozenset(s) in O.LABEL:
        want = O.LABEL[frozenset(s)]
    else:
        raise Skip()
    before = set(s)
    check(MO.find_space_label(s) == want, 'label', d['s'], MO.find_space_label(s), want)
    check(s == before, 'the given set was modified')


def gen_pairs(rng, tier):
    for kind in ('so', 'si', 'sa', 'asymm'):
        for a in letters_of(kind):
            for b in letters_of(kind):
                if a.isupper() == b.isupper():
                    for m, n in ((0, 0), (0, 1), (1, 0), (2, 10)):
                        yield dict(kind=kind, u=f"{a}{m}", l=f"{b}{n}")


SUPPORT = {'L': 'ca', 'C': 'av', 'K': 'cav'}


@clause('C05', 'downgrade', gen_pairs, ['Cumulant.downgrade_indices', 'HoleDensity.downgrade_indices', 'Kronecker.downgrade_indices'])
def _(d):
    u, l = d['u'], d['l']
    for k in 'LCK':
        t = mk_tensor(k, [u], [l], d['kind'])
        sup = {x.upper() if O.is_beta(u) else x for x in SUPPORT[k]}
        want = O.ELEM[u[0]] & O.ELEM[l[0]] & sup
        for _ in range(2):
            got = t.downgrade_indices()
            gs = O.ELEM.get(got, frozenset()) if got != '' else frozenset()
            check(got == '' or got in O.ELEM, 'not a space label', got)
            check(gs == want, f"{k}^{u}_{l} restricted to {got!r}", sorted(want))
        check(d_tensor(t) == (k, k, (u,), (l,)), 'tensor modified')
    check({k: frozenset(v) for k, v in MO.space_relation.items()} == O.ELEM, 'space tables modified')


@clause('C05', 'expand-hole', gen_pairs, ['HoleDensity.expand'])
def _(d):
    u, l = d['u'], d['l']
    t = mk_tensor('C', [u], [l], d['kind'])
    got = [d_tensor(x) for x in t.expand()]
    want = [('K', 'K', (u,), (l,))]
    if u[0] not in 'vV' and l[0] not in 'vV':
        want.append(('L', 'L', (u,), (l,)))
    check(sorted(got) == sorted(want), 'expansion', got)
    check(all(x.indices_type is KINDS[d['kind']] for x in t.expand()), 'index kind')
    check(d_tensor(t) == ('C', 'C', (u,), (l,)), 'hole density modified')


def gen_higher(rng, tier):
    for n in (2, 3):
        yield dict(n=n)


@clause('C05', 'not-available', gen_higher, ['Cumulant.downgrade_indices', 'ClusterAmplitude.downgrade_indices', 'HamiltonianTensor.downgrade_indices', 'Tensor.downgrade_indices'])
def _(d):
    u, l = [f"a{i}" for i in range(d['n'])], [f"a{i}" for i in range(5, 5 + d['n'])]
    for k in 'LTHX':
        expect(NotImplementedError, lambda: mk_tensor(k, u, l).downgrade_indices(), k)

"""Obligations of index lists (C02)."""
from verify import *

KINDS = ('Indices', 'IndicesSpinAdapted', 'IndicesAntisymmetric', 'IndicesSpinOrbital', 'IndicesSpinIntegrated')


def obligations():
    O = []
    P = ['C02']

    def add(name, qual, sc, **kw):
        O.append(Obligation(name, kw.pop('props', P), qual, sc, **kw))
    for k in KINDS:
        add(f'{k}.new[index list]', 'Indices.<new>', lambda v, k=k: [v.cls(k), v.idxlist('x', distinct=False)])
        add(f'{k}.new[strings]', 'Indices.<new>', lambda v, k=k: [v.cls(k), v.labels("x")])
        add(f'{k}.new[not a sequence]', 'Indices.<new>', lambda v, k=k: [v.cls(k), Foreign('object')])
        add(f'{k}.new[not an index]', 'Indices.<new>', lambda v, k=k: [v.cls(k), PList(v.e, (Items([Foreign('object')]),))], sizes=())
        add(f'{k}.new[empty text]', 'Indices.<new>', lambda v, k=k: [v.cls(k), ''], sizes=())
        add(f'{k}.new[text]', 'Indices.<new>', lambda v, k=k: [v.cls(k), v.joined("x")], sizes=(1, 2, 3))
        for m in ('__iter__', '__len__', '__repr__', 'clone', 'latex', 'ambit', 'size', 'indices_set', 'n_beta'):
            add(f'{k}.{m}', f'{k}.{m}', lambda v, k=k: [v.indices('x', k, real=True)])
            O[-1].qual = f'Indices.{m}'
        add(f'{k}.__getitem__', 'Indices.__getitem__', lambda v, k=k: [v.indices('x', k, real=True), v.int('i')])
        add(f'{k}.__contains__', 'Indices.__contains__', lambda v, k=k: [v.indices('x', k, real=True), v.idx('i')])
        add(f'{k}.latex[dollar]', 'Indices.latex', lambda v, k=k: [v.indices('x', k, real=True), True])
        for m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            add(f'{k}.__{m}__', f'Indices.__{m}__', lambda v, k=k: [v.indices('x', k, real=True), v.indices('y', k, real=True)])
        add(f'{k}.__eq__[other kind]', 'Indices.__eq__', lambda v, k=k: [v.indices('x', k), v.indices('y', KINDS[KINDS.index(k) - 1])], sizes=())
        add(f'{k}.__lt__[other kind]', 'Indices.__lt__', lambda v, k=k: [v.indices('x', k), v.indices('y', KINDS[KINDS.index(k) - 1])], sizes=())
        add(f'{k}.any_overlap', 'Indices.any_overlap', lambda v, k=k: [v.indices('x', k, real=True), v.indices('y', k, real=True)])
        for k2 in (k, 'IndicesSpinIntegrated', 'IndicesSpinOrbital'):
            if k2 != k or True:
                nm = f'{k}+{k2}'
                if f'{nm}.__add__' in {o.oid for o in O}:
                    continue
                add(f'{nm}.__add__', 'Indices.__add__', lambda v, k=k, k2=k2: [v.indices('x', k, real=True), v.indices('y', k2, real=True)])
                add(f'{nm}.is_permutation', 'Indices.is_permutation', lambda v, k=k, k2=k2: [v.indices('x', k, real=True), v.indices('y', k2, real=True)])
        add(f'{k}.__add__[other]', 'Indices.__add__', lambda v, k=k: [v.indices('x', k), Foreign('object')], sizes=())
        for nm, sp in (('c', ['c']), ('hole', ['h', 'c', 'a']), ('HCA', ['H', 'C', 'A', 'v']), ('bad', ['c', 'z']), ('empty', [])):
            add(f'{k}.count_index_space[{nm}]', 'Indices.count_index_space',
                lambda v, k=k, sp=sp: [v.indices('x', k, real=True), PList(v.e, (Items(sp),) if sp else ())])
    for k in ('Indices', 'IndicesSpinAdapted'):
        add(f'{k}.canonicalize', 'Indices.canonicalize', lambda v, k=k: [v.indices('x', k, real=True)], props=['C02', 'C03'])
    for k in KINDS[2:]:
        add(f'{k}.canonicalize', 'IndicesAntisymmetric.canonicalize', lambda v, k=k: [v.indices('x', k, real=True)], props=['C02', 'C03'])
    for m in ('alpha_indices', 'beta_indices', 'spin_count', 'spin_pure'):
        add(f'IndicesSpinIntegrated.{m}', f'IndicesSpinIntegrated.{m}', lambda v: [v.indices('x', 'IndicesSpinIntegrated', real=True)],
            props=['C02', 'C14'])
        add(f'IndicesSpinOrbital.{m}', f'Indices.{m}', lambda v: [v.indices('x', 'IndicesSpinOrbital', real=True)])

    def hashes(v, x, y):
        e = v.e
        e.assume(e.lib.bexpr(e.truth(e.lib.eq(x, y))))
        yield 'equal lists have equal hashes', v.equiv(e.lib.b_hash(x), e.lib.b_hash(y))
    add('Indices.hash', 'Indices.__hash__', lambda v: [v.indices('x', real=True), v.indices('y', real=True)], run=hashes)
    return O

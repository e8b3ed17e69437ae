"""Obligations of IndicesPair, tensors and operators (C04, C05, parts of C03)."""
from verify import *

KINDS = ('IndicesSpinOrbital', 'IndicesSpinIntegrated', 'IndicesSpinAdapted')
TENSORS = ('Tensor', 'Cumulant', 'HoleDensity', 'Kronecker', 'ClusterAmplitude', 'HamiltonianTensor')
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')


def obligations():
    O = []

    def add(name, qual, sc, props=('C04',), **kw):
        O.append(Obligation(name, list(props), qual, sc, **kw))

    so = KINDS[0]
    for cls in ('IndicesPair', 'SecondQuantizedOperator'):
        q = cls + '.<new>'
        for k in KINDS:
            add(f'{cls}.new[{k}]', q, lambda v, k=k, cls=cls: [v.cls(cls), v.indices('u', k), v.indices('l', k)])
        add(f'{cls}.new[mixed kinds]', q, lambda v, cls=cls: [v.cls(cls), v.indices('u', KINDS[0]), v.indices('l', KINDS[1])])
        add(f'{cls}.new[mixed types]', q, lambda v, cls=cls: [v.cls(cls), v.indices('u', KINDS[0]), v.idxlist('l')])
        for t in ('so', 'si', 'sa', 'spin-orbital', 'asymm', 'nonsense'):
            add(f'{cls}.new[lists, {t}]', q, lambda v, cls=cls, t=t: [v.cls(cls), v.idxlist('u', distinct=False), v.idxlist('l', distinct=False), t],
                sizes=(0, 1, 2))
        for k in KINDS[:2]:
            for m in CMP:
                add(f'{cls}.__{m}__[{k}]', f'IndicesPair.__{m}__', lambda v, k=k, cls=cls: [v.op('x', cls, k), v.op('y', cls, k)], sizes=(0, 1))
        for m in ('eq', 'lt'):
            add(f'{cls}.__{m}__[other kind]', f'IndicesPair.__{m}__', lambda v, cls=cls: [v.op('x', cls, KINDS[0]), v.op('y', cls, KINDS[1])], sizes=(0, 1))
            add(f'{cls}.__{m}__[other object]', f'IndicesPair.__{m}__', lambda v, cls=cls: [v.op('x', cls, KINDS[0]), Foreign('object')], sizes=(0, 1))
        add(f'{cls}.clone[hc]', 'IndicesPair.clone', lambda v, cls=cls: [v.op('x', cls, KINDS[0]), True], sizes=(0, 1))
        add(f'{cls}.clone', 'IndicesPair.clone', lambda v, cls=cls: [v.op('x', cls, KINDS[0])], sizes=(0, 1))
        add(f'{cls}.is_empty', f'{cls}.is_empty', lambda v, cls=cls: [v.op('x', cls, KINDS[0])], sizes=(0, 1))
        add(f'{cls}.ambit', f'{cls}.ambit', lambda v, cls=cls: [v.op('x', cls, KINDS[0]), v.bool('b')], sizes=(0, 1))
        add(f'{cls}.latex', f'{cls}.latex', lambda v, cls=cls: [v.op('x', cls, KINDS[0])], sizes=(0, 1))
        for k in KINDS:
            add(f'{cls}.canonicalize[{k}]', f'{cls}.canonicalize', lambda v, cls=cls, k=k: [v.op('x', cls, k)], props=('C03', 'C04'), sizes=(0, 1, 2))

    add('SecondQuantizedOperator.==[pair]', 'IndicesPair.__eq__', lambda v: [v.op('x', 'SecondQuantizedOperator', so), v.op('y', 'IndicesPair', so)], sizes=(0, 1))
    for m in ('n_upper', 'n_lower', 'size', 'n_body', 'indices_set', 'indices_type', 'diagonal_indices', 'is_spin_conserving'):
        pr = ('C04', 'C13') if m in ('diagonal_indices', 'indices_set') else ('C04',)
        for k in KINDS[:2]:
            add(f'IndicesPair.{m}[{k}]', f'IndicesPair.{m}', lambda v, k=k: [v.op('x', 'IndicesPair', k)], props=pr, sizes=(0, 1, 2))
    add('IndicesPair.indices', 'IndicesPair.indices', lambda v: [v.op('x', 'IndicesPair', so), v.bool('b')], sizes=(0, 1))
    add('IndicesPair.canonicalize_indices', 'IndicesPair.canonicalize_indices', lambda v: [v.op('x', 'IndicesPair', so)], props=('C03',), sizes=(0, 1, 2))
    for m in ('cre_ops', 'ann_ops', 'n_cre', 'n_ann', 'n_ops', 'is_particle_conserving', 'void'):
        add(f'SecondQuantizedOperator.{m}', f'SecondQuantizedOperator.{m}', lambda v: [v.op('x', 'SecondQuantizedOperator', so)], sizes=(0, 1))
    for k in KINDS[:2]:
        add(f'SecondQuantizedOperator.is_possible_excitation[{k}]', 'SecondQuantizedOperator.is_possible_excitation',
            lambda v, k=k: [v.op('x', 'SecondQuantizedOperator', k)], props=('C17',), sizes=(0, 1, 2))
    add('SecondQuantizedOperator.latex[dollar]', 'SecondQuantizedOperator.latex', lambda v: [v.op('x', 'SecondQuantizedOperator', so), True], sizes=(0, 1))

    for t in TENSORS:
        q = t + '.<new>'
        pr = ('C04',)
        for k in KINDS:
            add(f'{t}.new[{k}]', q, lambda v, k=k, t=t: [v.cls(t), v.indices('u', k), v.indices('l', k)], props=pr, sizes=(0, 1, 2))
        add(f'{t}.new[name, priority]', q, lambda v, t=t: ([v.cls(t), v.indices('u', so), v.indices('l', so)],
                                                             {'name': v.text('nm'), 'priority': v.int('pr')}), sizes=(0, 1))
        add(f'{t}.new[name not text]', q, lambda v, t=t: ([v.cls(t), v.indices('u', so), v.indices('l', so)], {'name': v.int('nm')}), sizes=(0, 1))
        add(f'{t}.new[priority not int]', q, lambda v, t=t: ([v.cls(t), v.indices('u', so), v.indices('l', so)], {'priority': v.real('pr')}), sizes=(0, 1))
        add(f'{t}.new[mixed kinds]', q, lambda v, t=t: [v.cls(t), v.indices('u', KINDS[1]), v.indices('l', KINDS[0])], sizes=(0, 1))
        add(f'{t}.new[lists]', q, lambda v, t=t: [v.cls(t), v.idxlist('u'), v.idxlist('l'), 'si'], sizes=(0, 1))
        add(f'{t}.clone', 'Tensor.clone', lambda v, t=t: [v.tensor('x', t, so)], sizes=(0, 1))
        add(f'{t}.from_indices', 'Tensor.from_indices', lambda v, t=t: [v.tensor('x', t, so), v.indices('u', KINDS[1]), v.indices('l', KINDS[1])], sizes=(0, 1))
        add(f'{t}.ambit', f"{t if t == 'ClusterAmplitude' else 'Tensor'}.ambit", lambda v, t=t: [v.tensor('x', t, KINDS[1]), v.bool('b')], sizes=(0, 1))
        for k in KINDS:
            add(f'{t}.canonicalize[{k}]', 'Tensor.canonicalize', lambda v, t=t, k=k: [v.tensor('x', t, k)], props=('C03', 'C04'), sizes=(0, 1))
    for m in CMP:
        for t, t2 in (('Tensor', 'Tensor'), ('Cumulant', 'Tensor'), ('Cumulant', 'HoleDensity')):
            add(f'{t}.__{m}__[{t2}]', f'Tensor.__{m}__', lambda v, t=t, t2=t2: [v.tensor('x', t, so), v.tensor('y', t2, so)], sizes=(0, 1))
    for m in ('eq', 'lt'):
        add(f'Tensor.__{m}__[other kind]', f'Tensor.__{m}__', lambda v: [v.tensor('x', 'Tensor', so), v.tensor('y', 'Tensor', KINDS[1])], sizes=(0, 1))
        add(f'Tensor.__{m}__[pair]', f'Tensor.__{m}__', lambda v: [v.tensor('x', 'Tensor', so), v.op('y', 'IndicesPair', so)], sizes=(0, 1))
    for b in (False, True):
        add(f'Tensor.latex[{b}]', 'Tensor.latex', lambda v, b=b: [v.tensor('x', 'Tensor', so), b], sizes=(0, 1))
    add('Tensor.any_overlapped_indices', 'Tensor.any_overlapped_indices', lambda v: [v.tensor('x', 'Tensor', so), v.tensor('y', 'Tensor', so)], sizes=(0, 1, 2))
    add('ClusterAmplitude.is_all_active', 'ClusterAmplitude.is_all_active', lambda v: [v.tensor('x', 'ClusterAmplitude', KINDS[1])],
        props=('C04', 'C12', 'C17'), sizes=(0, 1, 2))

    def hashes(v, x, y):
        e = v.e
        e.assume(e.lib.bexpr(e.truth(e.lib.eq(x, y))))
        yield 'equal objects have equal hashes', v.equiv(e.lib.b_hash(x), e.lib.b_hash(y))
    add('IndicesPair.hash', 'IndicesPair.__hash__', lambda v: [v.op('x', 'IndicesPair', so), v.op('y', 'IndicesPair', so)], run=hashes, sizes=(0, 1))
    add('Tensor.hash', 'Tensor.__hash__', lambda v: [v.tensor('x', 'Tensor', so), v.tensor('y', 'Tensor', so)], run=hashes, sizes=(0, 1))

    # C05
    for t in ('Cumulant', 'HoleDensity', 'Kronecker'):
        for k in KINDS[:2]:
            add(f'{t}.downgrade_indices[{k}]', f'{t}.downgrade_indices', lambda v, t=t, k=k: [v.tensor('x', t, k)], props=('C05',), sizes=(1, 2))
    for k in KINDS[:2]:
        add(f'HoleDensity.expand[{k}]', 'HoleDensity.expand', lambda v, k=k: [v.tensor('x', 'HoleDensity', k)], props=('C05', 'C08'), sizes=(1,))

    def tables(v):
        e = v.e
        st = e.modules['dsrg_generator.mo_space'].env.st
        d = st['space_relation'].st[0]
        want = {'c': 'c', 'a': 'a', 'v': 'v', 'p': 'av', 'h': 'ca', 'g': 'cav'}
        want.update({a.upper(): b.upper() for a, b in list(want.items())})
        got = {a: ''.join(c for c, bit in zip(LET, e.lib.set_bits(s.st)) if z3.is_true(S(bit))) for a, s in d.items()}
        yield 'each label contains its elementary spaces', {a: set(b) for a, b in got.items()} == {a: set(b) for a, b in want.items()}
        so = st['space_relation_so'].st[0]
        yield 'spin-orbital part', set(so) == set('gphvca') and all(v.equiv(so[c], d[c]) is TRUE or z3.is_true(S(v.equiv(so[c], d[c]))) for c in so)
    add('space_relation', 'find_space_label', lambda v: [], run=tables, props=('C05',), sizes=())

    def find(v, bits):
        e = v.e
        f = v.func('find_space_label')
        for name, want in (('c', 'c'), ('a', 'a'), ('v', 'v'), ('av', 'p'), ('ca', 'h'), ('cav', 'g')):
            for up in (False, True):
                s = [x.upper() if up else x for x in name]
                r = v.outcome(lambda: e.run(f, [e.lib.mkset((Items(s),))]))
                yield f'label of {s}', r == ('ok', want.upper() if up else want)
        yield 'empty set refused', v.outcome(lambda: e.run(f, [e.lib.mkset(())])) == ('raise', 'ValueError')
        yield 'unknown label refused', v.outcome(lambda: e.run(f, [PSet(e, ('segs', (Items(['z']),)))])) == ('raise', 'ValueError')
    add('find_space_label', 'find_space_label', lambda v: [None], run=find, props=('C05',), sizes=())
    return O

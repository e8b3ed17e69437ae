from common import *


def gen(rng, tier):
    small = [[], ['g0'], ['c0'], ['v0'], ['a1'], ['h0'], ['p0']]
    for u in small:
        for l in small:
            yield dict(kind='so', u=u, l=l, name=None, prio=None)
    for u in ['g0', 'G0', 'c1', 'A1']:
        for l in ['g0', 'G0', 'v1', 'V1']:
            for kind in ('si', 'sa', 'asymm'):
                yield dict(kind=kind, u=[u], l=[l], name='B', prio=3)
    for a in 'gphvca':
        for b in 'gphvca':
            yield dict(kind='so', u=[a + '0', b + '1'], l=['g2', 'g3'], name=None, prio=None)
            yield dict(kind='so', u=['g2', 'g3'], l=[a + '0', b + '1'], name=None, prio=None)
    for _ in range(2500 if tier == 'quick' else 30000):
        kind = rng.choice(list(KINDS))
        nu = rng.randrange(4)
        nl = nu if rng.random() < .85 else rng.randrange(4)
        let = letters_of(kind)
        if rng.random() < .3:
            let = rng.choice(['hc', 'pv', 'ha', 'pav', 'ghHpP', 'cvA'])
        u, l = rnd_labels(rng, nu, let, 4), rnd_labels(rng, nl, let, 4)
        if kind == 'so':
            u, l = [s.lower() for s in u], [s.lower() for s in l]
            if len(set(u)) < len(u) or len(set(l)) < len(l):
                continue
        yield dict(kind=kind, u=u, l=l, name=rng.choice([None, 'W', 'foo', '']), prio=rng.choice([None, 0, 7, -2]))


def expect_text(k, name, u, l, lower_first=False):
    first, second = (l, u) if lower_first else (u, l)
    body = f"{name}{len(u)}" if len(u) == len(l) else f"{name}_{len(u)}_{len(l)}"
    return body + ('' if not u and not l else '["' + ','.join(first) + ',' + ','.join(second) + '"]')


@clause('C04', 'construct-copy-render', gen, ['IndicesPair.__init__', 'Tensor.__init__', 'Cumulant.__init__', 'HoleDensity.__init__', 'Kronecker.__init__', 'ClusterAmplitude.__init__', 'HamiltonianTensor.__init__', 'Tensor.make_tensor', 'Tensor.clone', 'Tensor.from_indices', 'IndicesPair.clone', 'SecondQuantizedOperator.clone', 'Tensor.latex', 'Tensor.ambit', 'ClusterAmplitude.ambit', 'IndicesPair.latex', 'IndicesPair.ambit'])
def _(d):
    kind, u, l, name, prio = d['kind'], d['u'], d['l'], d['name'], d['prio']
    IT = KINDS[kind]
    lx = '^' + O.latex_list(u) + '_' + O.latex_list(l)

    def common(o):
        check(names(o.upper_indices) == tuple(u) and names(o.lower_indices) == tuple(l), 'roles', names(o.upper_indices))
        check(o.n_upper == len(u) and o.n_lower == len(l) and o.size == len(u) + len(l), 'sizes')
        if len(u) == len(l):
            check(o.n_body == len(u), 'n_body')
            check(o.is_spin_conserving() == spin_conserving(u, l), 'is_spin_conserving')
        else:
            expect(ValueError, lambda: o.n_body, 'n_body')
            expect(ValueError, lambda: o.is_spin_conserving(), 'is_spin_conserving')
        check({i.name for i in o.indices_set} == set(u) | set(l), 'indices_set')
        check(names(o.indices()) == tuple(u + l) and names(o.indices(False)) == tuple(l + u), 'indices()')
        check(o.indices_type is IT, 'indices_type')
        check(o.is_empty() == (not u and not l), 'is_empty')
        check({i.name for i in o.diagonal_indices()} == set(u) & set(l), 'diagonal_indices')

    for mk in (lambda: IndicesPair(list(u), list(l), kind), lambda: IndicesPair(IT(u), IT(l))):
        o = returns(mk, 'pair')
        common(o)
        check(o.latex() == lx == str(o), 'pair latex', o.latex())
        for hc in (False, True):
            c = o.clone(hc)
            check(type(c) is IndicesPair and c is not o, 'clone class')
            check((names(c.upper_indices), names(c.lower_indices)) == ((tuple(l), tuple(u)) if hc else (tuple(u), tuple(l))), 'clone')
    for mk in (lambda: SQ(list(u), list(l), kind), lambda: SQ(IT(u), IT(l))):
        o = returns(mk, 'operator')
        common(o)
        check(d_op(o) == (tuple(u), tuple(l)) and o.n_cre == len(u) and o.n_ann == len(l) and o.n_ops == len(u) + len(l), 'cre/ann')
        check(o.is_particle_conserving() == (len(u) == len(l)), 'is_particle_conserving')
        check(o.latex() == 'a' + lx == str(o) and o.latex(True) == '$ a' + lx + ' $', 'operator latex', o.latex())
        t = '' if not u and not l else '["' + ','.join(l) + ',' + ','.join(u) + '"]'
        t2 = '' if not u and not l else '["' + ','.join(u) + ',' + ','.join(l) + '"]'
        check(o.ambit() == t == o.ambit(cre_first=False) and o.ambit(True) == t2, 'operator ambit', o.ambit())
        for hc in (False, True):
            c = o.clone(hc)
            check(type(c) is SQ and d_op(c) == ((tuple(l), tuple(u)) if hc else (tuple(u), tuple(l))) and c.indices_type is IT, 'operator clone')
        v = o.void()
        check(type(v) is SQ and v.n_ops == 0 and v.indices_type is IT, 'void')
    check(SQ.make_empty(kind).n_ops == 0 and SQ.make_empty(kind).indices_type is IT, 'make_empty')
    for k, cls in TCLASS.items():
        forms = [lambda: mk_tensor(k, u, l, kind, name, prio)]
        kw = {}
        if name is not None:
            kw['name'] = name
        if prio is not None:
            kw['priority'] = prio
        forms.append(lambda: cls(IT(u), IT(l), **kw))
        if k != 'X' and name is None and prio is None:
            forms.append(lambda: Tensor.make_tensor(TALIAS[k], list(u), list(l), kind))
            forms.append(lambda: Tensor.make_tensor(TALIAS[k], list(u), list(l), kind, *([name] if name else [])))
        for f in forms:
            if not tensor_ok(k, u, l):
                expect(ValueError, f, f"{cls.__name__} {u} {l}")
                continue
            t = returns(f, f"{cls.__name__} {u} {l}")
            check(type(t) is cls, 'class', type(t))
            common(t)
            wn = name if name is not None else DEFAULT_NAME.get(k, 'Tensor')
            wp = prio if prio is not None else DEFAULT_PRIO[k]
            check(t.name == wn and t.priority == wp, 'name/priority', t.name, t.priority)
            check(t.latex() == wn + lx == str(t) and t.latex(True) == '$ ' + wn + lx + ' $', 'tensor latex', t.latex())
            low = False
            if k == 'T':
                low = bool({i[0].lower() for i in u} & set('gpv')) or bool({i[0].lower() for i in l} & set('ghc'))
                check(t.ambit() == expect_text(k, wn, u, l, low), 'amplitude ambit', t.ambit())
                check(t.is_all_active() == all(i[0] in 'aA' for i in u + l), 'is_all_active')
            else:
                check(t.ambit() == expect_text(k, wn, u, l), 'tensor ambit', t.ambit())
                check(t.ambit(False) == expect_text(k, wn, u, l, True), 'tensor ambit lower first', t.ambit(False))
            c = t.clone()
            check(type(c) is cls and c is not t and d_tensor(c) == d_tensor(t) and c.name == wn and c.priority == wp and c.indices_type is IT, 'tensor clone')
            if tensor_ok(k, l, u):
                r = t.from_indices(IT(l), IT(u))
                check(type(r) is cls and d_tensor(r) == (k, wn, tuple(l), tuple(u)) and r.priority == wp and r.indices_type is IT, 'from_indices')
                r = t.from_indices(list(l), list(u), kind)
                check(type(r) is cls and d_tensor(r) == (k, wn, tuple(l), tuple(u)) and r.priority == wp and r.indices_type is IT, 'from_indices with labels')
                check(d_tensor(t) == (k, wn, tuple(u), tuple(l)), 'from_indices changed the tensor')


def gen_cmp(rng, tier):
    for _ in range(3500 if tier == 'quick' else 40000):
        kind = rng.choice(['so', 'so', 'si', 'sa', 'asymm'])
        kind2 = kind if rng.random() < .9 else rng.choice(list(KINDS))
        t = []
        for kd in (kind, kind2):
            k = rng.choice('LTHXXCK')
            n = 1 if k in 'CK' else rng.randrange(3)
            let = rng.choice(['g', 'ga', 'hc', 'pa'])
            t.append([k, rnd_labels(rng, n, let, 2 + n), rnd_labels(rng, n, let, 2 + n), rng.choice([None, 'A', 'B']), rng.choice([None, 0, 1, -1])])
        if rng.random() < .4:
            t[1] = [x if not isinstance(x, list) else list(x) for x in t[0]]
            if rng.random() < .6:
                j = rng.randrange(1, 5)
                if j == 3:
                    t[1][3] = rng.choice(['A', 'B', None])
                elif j == 4:
                    t[1][4] = rng.choice([0, 1, None])
                else:
                    rng.shuffle(t[1][j])
        yield dict(kind=kind, kind2=kind2, a=t[0], b=t[1])


@clause('C04', 'compare', gen_cmp, ['Tensor.__eq__', 'Tensor.__lt__', 'Tensor.__hash__', 'Tensor.comparison_tuple', 'IndicesPair.__eq__', 'IndicesPair.__lt__', 'IndicesPair.__hash__', 'SecondQuantizedOperator._is_valid_operand'])
def _(d):
    obj = []
    for kd, (k, u, l, n, p) in ((d['kind'], d['a']), (d['kind2'], d['b'])):
        if not tensor_ok(k, u, l):
            raise Skip()
        t = mk_tensor(k, u, l, kd, n, p)
        obj.append((t, (p if p is not None else DEFAULT_PRIO[k], n if n is not None else DEFAULT_NAME.get(k, 'Tensor'), len(u) + len(l), list_key(u), list_key(l)),
                    SQ(list(u), list(l), kd), IndicesPair(list(u), list(l), kd), (list_key(u), list_key(l))))
    (t1, k1, o1, p1, q1), (t2, k2, o2, p2, q2) = obj
    if d['kind'] == d['kind2']:
        cmp_all(t1, t2, k1, k2, 'tensors')
        cmp_all(o1, o2, q1, q2, 'operators')
        cmp_all(p1, p2, q1, q2, 'pairs')
        ov = bool(set(d['a'][1]) & set(d['b'][1])) or bool(set(d['a'][2]) & set(d['b'][2]))
        check(t1.any_overlapped_indices(t2) == ov, 'any_overlapped_indices')
    else:
        for x, y in ((t1, t2), (o1, o2), (p1, p2)):
            for f in (lambda: x == y, lambda: x != y, lambda: x < y, lambda: x <= y, lambda: x > y, lambda: x >= y):
                expect(TypeError, f, 'comparison of different index kinds')
        expect(TypeError, lambda: t1.any_overlapped_indices(t2), 'overlap of different index kinds')
    for x in (o1, p1, 3, 'H', None):
        expect(TypeError, lambda: t1 == x, f"tensor == {type(x).__name__}")
        expect(TypeError, lambda: t1 < x, f"tensor < {type(x).__name__}")
    for x in (t1, p1, 3, None):
        expect(TypeError, lambda: o1 == x, f"operator == {type(x).__name__}")
        expect(TypeError, lambda: o1 > x, f"operator > {type(x).__name__}")


def gen_mixed(rng, tier):
    for a in KINDS:
        for b in KINDS:
            yield dict(a=a, b=b)


@clause('C04', 'mixed-kinds', gen_mixed, ['IndicesPair.__init__', 'Tensor.make_tensor'])
def _(d):
    a, b = mk_ind(['g0'], d['a']), mk_ind(['g1'], d['b'])
    for cls in [IndicesPair, SQ] + list(TCLASS.values()):
        if d['a'] != d['b']:
            expect(TypeError, lambda: cls(a, b), f"{cls.__name__} mixing {d['a']} and {d['b']}")
        else:
            returns(lambda: cls(a, b), cls.__name__)
        expect(TypeError, lambda: cls(a, ['g1']), 'list object with plain labels')
    expect(KeyError, lambda: Tensor.make_tensor('nothing', ['g0'], ['g1']), 'unknown tensor kind')
    expect(TypeError, lambda: Tensor(['g0'], ['g1'], name=3), 'name not a string')
    expect(TypeError, lambda: Tensor(['g0'], ['g1'], priority='x'), 'priority not an int')
    for al, k in [('cumulant', 'L'), ('lambda', 'L'), ('L', 'L'), ('hole_density', 'C'), ('eta', 'C'), ('C', 'C'), ('Kronecker', 'K'), ('delta', 'K'), ('K', 'K'), ('cluster_amplitude', 'T'), ('T', 'T'), ('t', 'T'), ('HamiltonianTensor', 'H'), ('Hamiltonian', 'H'), ('H', 'H')]:
        t = Tensor.make_tensor(al, ['a0'], ['a1'])
        check(type(t) is TCLASS[k], 'factory', al, type(t))


def gen_exc(rng, tier):
    for kind in ('so', 'si'):
        for n in range(3):
            for u in itertools.product('gphvca', repeat=n):
                for l in itertools.product('gphvca', repeat=min(n, 1)):
                    yield dict(kind=kind, u=[s + str(k) for k, s in enumerate(u)], l=[s + str(5 + k) for k, s in enumerate(l)])


@clause('C04', 'possible-excitation', gen_exc, ['SecondQuantizedOperator.is_possible_excitation'])
def _(d):
    u, l = d['u'], d['l']
    for f in ((lambda s: s), (lambda s: s.upper())):
        if d['kind'] == 'so' and f('a') == 'A':
            continue
        o = SQ([f(x) for x in u], [f(x) for x in l], d['kind'])
        want = not any(x[0] == 'c' for x in u) and not any(x[0] == 'v' for x in l) and {x[0] for x in u + l} != {'a'}
        check(o.is_possible_excitation() == want, 'is_possible_excitation', u, l)

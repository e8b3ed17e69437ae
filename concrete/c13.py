from physics import *


# ---------------------------------------------------------------- accept / reject
def pattern(rng, letters, kinds='HHXTLKC'):
    """random tensors and operator; mostly paired, then sometimes disturbed"""
    nt = rng.choice([0, 1, 1, 2, 2, 3])
    ts, slots = [], []
    for t in range(nt):
        k = rng.choice(kinds)
        u = l = 1 if k in 'KC' else rng.choice([1, 1, 2])
        if k == 'X':
            u, l = rng.choice([(0, 1), (1, 0), (2, 1), (1, 1), (2, 2), (0, 2)])
        ts.append([k, None, [None] * u, [None] * l])
        slots += [(t, 2, i) for i in range(u)] + [(t, 3, i) for i in range(l)]
    nc, na = rng.choice([(0, 0), (1, 1), (1, 1), (2, 2), (1, 0), (0, 1), (2, 1)])
    op = [[None] * nc, [None] * na]
    slots += [(-1, 0, i) for i in range(nc)] + [(-1, 1, i) for i in range(na)]
    rng.shuffle(slots)
    n = 0
    k = 0

    def put(s, name):
        (op[s[1]] if s[0] < 0 else ts[s[0]][s[1]])[s[2]] = name
    while k < len(slots):
        m = rng.choice([2] * 12 + [1, 3, 4])
        name = rng.choice(letters) + str(rng.choice([n, n, n + 10, 7]))
        n += 1
        for s in slots[k:k + m]:
            put(s, name)
        k += m
    return ts, op


def legal(ts, op, kind):
    for k, n, u, l in ts:
        if len(set(u)) < len(u) or len(set(l)) < len(l) or not tensor_ok(k, u, l):
            return False
        if kind != 'si' and any(i[0].isupper() for i in u + l):
            return False
    return len(set(op[0])) == len(op[0]) and len(set(op[1])) == len(op[1]) and not (kind != 'si' and any(i[0].isupper() for i in op[0] + op[1]))


def gen_accept(rng, tier):
    H = lambda u, l: ['H', None, u, l]
    for ts, op in [([], [[], []]), ([], [['g0'], ['g0']]), ([], [['g0'], []]), ([H(['g0'], ['g0'])], [[], []]),
                   ([H(['g0'], ['g0'])], [['g0'], ['g0']]), ([H(['g0'], ['g1'])], [['g1'], ['g0']]), ([H(['g0'], ['g1'])], [['g1'], ['g2']]),
                   ([H(['g0'], ['g1'])], [[], []]), ([H(['g0'], ['g1']), H(['g1'], ['g0'])], [[], []]), ([H(['g0'], ['g1'])] * 2, [[], []]),
                   ([H(['g0'], ['g0']), H(['g0'], ['g1'])], [['g1'], []]), ([H(['g0'], ['g0']), H(['g0'], ['g1'])], [['g1'], ['g0']]),
                   ([H(['g0'], ['g0']), H(['g0'], ['g0'])], [['g0'], ['g0']]), ([H(['g0', 'h3'], ['g0', 'h4'])], [['h4'], ['h3']]),
                   ([H(['g0'], ['g1'])] * 4, [[], []]), ([H(['g0'], ['g1'])] * 3, [['g1'], ['g0']])]:
        for kind in ('so', 'sa', 'si'):
            yield dict(ts=ts, op=op, kind=kind, c=.5)
    n = 0
    while n < (6000 if tier == 'quick' else 60000):
        kind = rng.choice(['so', 'so', 'si', 'sa'])
        ts, op = pattern(rng, letters_of(kind) if kind == 'si' else 'gphvca')
        if not legal(ts, op, kind):
            continue
        n += 1
        yield dict(ts=ts, op=op, kind=kind, c=rng.choice([1.0, -.25, 0.0, 3, 1 / 3]))


@clause('C13', 'accept', gen_accept, ['Term.__init__'], share=1.5)
def _(d):
    kind = d['kind']
    ts = [mk_tensor(k, u, l, kind, n) for k, n, u, l in d['ts']]
    op = mk_op(*d['op'], kind)
    before = [d_tensor(t) for t in ts], d_op(op), list(map(id, ts))
    cnt, diag = Counter(), set()
    for u, l in [x[2:] for x in d['ts']] + [d['op']]:
        cnt.update(u)
        cnt.update(l)
        diag |= set(u) & set(l)
    ok = all(n == 2 for i, n in cnt.items() if i not in diag) and all(cnt[i] % 2 == 0 for i in diag)
    if not ok:
        expect(ValueError, lambda: Term(ts, op, d['c']), 'unpaired indices')
        check(([d_tensor(t) for t in ts], d_op(op), list(map(id, ts))) == before, 'inputs modified')
        return
    t = returns(lambda: Term(ts, op, d['c']), 'a properly paired term')
    check(([d_tensor(x) for x in ts], d_op(op), list(map(id, ts))) == before, 'inputs modified')
    check(t.coeff == float(d['c']) and isinstance(t.coeff, float), 'coefficient', t.coeff)
    check(d_op(t.sq_op) == before[1], 'operator', d_op(t.sq_op))
    got = [d_tensor(x) for x in t.list_of_tensors]
    check(sorted(got) == sorted(before[0]) and t.n_tensors == len(ts), 'tensors', got)
    key = lambda x: (DEFAULT_PRIO[x[0]], x[1], len(x[2]) + len(x[3]), list_key(x[2]), list_key(x[3]))
    check([key(x) for x in got] == sorted(map(key, got)), 'tensors are not sorted', got)
    check({i.name for i in t.indices_set} == set(cnt), 'index set', t.indices_set)
    check({i.name: n for i, n in t.diagonal_indices.items()} == {i: cnt[i] for i in diag}, 'diagonal indices', t.diagonal_indices)
    want = {s: max([int(i[1:]) + 1 for i in cnt if i[0] == s], default=0) for s in O.LETTERS}
    check(dict(t.next_index_number) == want, 'next index numbers', t.next_index_number)
    if len(d['op'][0]) == len(d['op'][1]):
        check(t.n_body == len(d['op'][0]), 'body')
    check(t.is_void() == (abs(d['c']) < 1e-15), 'is_void')
    v = t.void()
    check(d_term(v) == (0.0, [], ((), ())) and v.is_void() and v.sq_op.indices_type is KINDS[kind], 'void', d_term(v))
    t2 = Term(ts, op, d['c'])
    t2.void_self()
    check(t2.is_void() and d_term(t2)[1:] == ([], ((), ())) and len(t2.indices_set) == 0, 'void_self')
    # copies
    for flip in (False, True):
        for hc in (False, True):
            if hc and kind != 'so' and False:
                continue
            c = Term.from_term(t, flip, hc)
            o = d_op(t.sq_op)
            check(d_term(c) == ((-1 if flip else 1) * t.coeff, got, (o[1], o[0]) if hc else o), 'from_term', flip, hc, d_term(c))
            c.coeff = 77
            check(t.coeff == float(d['c']) and c.coeff == 77.0, 'coefficients are shared')


def gen_types(rng, tier):
    for what in ('coeff-str', 'coeff-none', 'coeff-list', 'op', 'tensor', 'kinds', 'cmp', 'setter'):
        for kind in ('so', 'si', 'sa'):
            yield dict(what=what, kind=kind)


@clause('C13', 'types', gen_types, ['Term.__init__', 'Term.coeff', 'Term._is_valid_operand', 'Term.make_empty'], share=.2)
def _(d):
    k = d['kind']
    H, op = mk_tensor('H', ['g0'], ['g1'], k), mk_op(['g1'], ['g0'], k)
    w = d['what']
    bad = (ValueError, TypeError)
    if w == 'coeff-str':
        expect(bad, lambda: Term([H], op, 'one'), 'coefficient')
        check(Term([H], op, '0.5').coeff == .5, 'numeric text')
    elif w == 'coeff-none':
        expect(bad, lambda: Term([H], op, None), 'coefficient')
    elif w == 'coeff-list':
        expect(bad, lambda: Term([H], op, [1.0]), 'coefficient')
    elif w == 'op':
        for o in (None, 'g1', IndicesPair(['g1'], ['g0'], k), H):
            expect(bad, lambda: Term([H], o), 'operator')
    elif w == 'tensor':
        for o in (None, 'g1', IndicesPair(['g0'], ['g1'], k), op):
            expect(bad, lambda: Term([o], op), 'tensor')
            expect(bad, lambda: Term([H, o], op), 'tensor')
    elif w == 'kinds':
        for k2 in ('so', 'si', 'sa'):
            if k2 != k:
                expect(bad, lambda: Term([mk_tensor('H', ['g0'], ['g1'], k2)], op), 'mixed kinds')
                expect(bad, lambda: Term([mk_tensor('H', ['g0'], ['h1'], k), mk_tensor('H', ['h1'], ['g1'], k2)], op), 'mixed kinds')
        e = Term.make_empty(k)
        check(d_term(e) == (0.0, [], ((), ())) and e.sq_op.indices_type is KINDS[k], 'make_empty')
    elif w == 'setter':
        t = Term([H], op)
        check(t.coeff == 1.0, 'default coefficient')
        t.coeff = 2
        check(t.coeff == 2.0 and isinstance(t.coeff, float), 'setter')
        expect(bad, lambda: setattr(t, 'coeff', 'x'), 'setter')
    else:
        t = Term([H], op)
        for f in (lambda: t == 1, lambda: t != 'a', lambda: t < None, lambda: t <= H, lambda: t > op, lambda: t >= 1.0, lambda: t.almost_equal(3)):
            expect(TypeError, f, 'comparison with a non-term')


# ---------------------------------------------------------------- comparison
def gen_cmp(rng, tier):
    pool = []
    while len(pool) < (36 if tier == 'quick' else 130):
        ts, op = pattern(rng, 'gha', 'HHT')
        if not legal(ts, op, 'so'):
            continue
        try:
            Term([mk_tensor(k, u, l) for k, n, u, l in ts], mk_op(*op))
        except ValueError:
            continue
        pool.append([ts, op])
        if rng.random() < .5:
            pool.append([list(reversed(ts)), op])
    co = [1.0, -1.0, .5, 0.0, -.5, 1.0 + 1e-12]
    for a in pool:
        for b in pool:
            yield dict(a=a, b=b, ca=rng.choice(co), cb=rng.choice(co))
        for x in co:
            for y in co:
                yield dict(a=a, b=a, ca=x, cb=y)


@clause('C13', 'compare', gen_cmp, ['Term.comparison_tuple', 'Term.comparison_tuple_weak', 'Term.__eq__', 'Term.almost_equal'])
def _(d):
    out = []
    for x, c in ((d['a'], d['ca']), (d['b'], d['cb'])):
        t = Term([mk_tensor(k, u, l) for k, n, u, l in x[0]], mk_op(*x[1]), c)
        ts = sorted((DEFAULT_PRIO[k], k, len(u) + len(l), list_key(u), list_key(l)) for k, n, u, l in x[0])
        w = [list_key(x[1][0]), list_key(x[1][1])], ts
        out.append((t, w, (w[0], len(ts), ts, abs(c), c)))
    (t1, w1, k1), (t2, w2, k2) = out
    a, b = d['ca'], d['cb']
    close = abs(a - b) <= max(1e-9 * max(abs(a), abs(b)), 1e-15)
    check((t1 == t2) == (close and w1 == w2) and (t1 != t2) == (not (close and w1 == w2)), 'equality', k1, k2)
    check(t1.almost_equal(t2) == (w1 == w2), 'almost_equal', k1, k2)
    check((t1.hash_term() == t2.hash_term()) == (w1 == w2), 'key of like terms', t1.hash_term(), t2.hash_term())
    check((t1 < t2) == (k1 < k2), '<', k1, k2)
    check((t1 <= t2) == (k1 <= k2), '<=', k1, k2)
    check((t1 > t2) == (k1 > k2), '>', k1, k2)
    check((t1 >= t2) == (k1 >= k2), '>=', k1, k2)

from physics import *


# ---------------------------------------------------------------- random connected terms
def connect(rng, letters, tensors, n_cre, n_ann):
    """tensors: [(kind, name, n_upper, n_lower)]. Pair all slots at random such that the preconditions of
    simplify hold: densities are not joined to each other and no index is diagonal."""
    slots = []
    for t, (k, n, u, l) in enumerate(tensors):
        slots += [(t, 'u', i, k in 'KLC') for i in range(u)] + [(t, 'l', i, k in 'KLC') for i in range(l)]
    slots += [(-1, 'u', i, False) for i in range(n_cre)] + [(-1, 'l', i, False) for i in range(n_ann)]
    if len(slots) % 2:
        return None
    for _ in range(40):
        rng.shuffle(slots)
        pairs = [(slots[i], slots[i + 1]) for i in range(0, len(slots), 2)]
        if any(a[0] == b[0] or (a[3] and b[3]) for a, b in pairs):
            continue
        # a one-body density joins two different tensors or operators
        ends = {}
        for a, b in pairs:
            for x, y in ((a, b), (b, a)):
                if x[3] and tensors[x[0]][2] == 1:
                    ends.setdefault(x[0], []).append(y[0])
        if any(e[0] == e[1] for e in ends.values()):
            continue
        # a density may touch the operator with one end only
        touch = Counter(x[0] for a, b in pairs for x, y in ((a, b), (b, a)) if y[0] == -1)
        if any(tensors[t][0] in 'KLC' and c > 1 for t, c in touch.items()):
            continue
        break
    else:
        return None
    count = {}
    lab = {}
    for a, b in pairs:
        s = rng.choice(letters)
        n = count.get(s, rng.randrange(3))
        count[s] = n + rng.choice([1, 1, 2])
        lab[a[:3]] = lab[b[:3]] = s + str(n)
    out = []
    for t, (k, n, u, l) in enumerate(tensors):
        out.append((k, n, [lab[(t, 'u', i)] for i in range(u)], [lab[(t, 'l', i)] for i in range(l)]))
    for k, n, u, l in out:
        if k in 'KC' or (k == 'L' and len(u) == 1):
            need = {'K': 'cav', 'C': 'cav', 'L': 'ca'}[k]
            if not O.ELEM[u[0][0]] & O.ELEM[l[0][0]] & set(need):
                return None
        if k == 'L' and len(u) > 1 and any(i[0] in 'cv' for i in u + l):
            return None
        if k == 'T' and (not amp_ok(u, l) or any(i[0] == 'g' for i in u + l)):
            return None
    op = [[lab[(-1, 'u', i)] for i in range(n_cre)], [lab[(-1, 'l', i)] for i in range(n_ann)]]
    return [rng.choice([1.0, -.5, .25, 1 / 3, 2.0]), out, op]


def add_spin(rng, term):
    c, ts, op = term
    idx = sorted({i for k, n, u, l in ts for i in u + l} | set(op[0]) | set(op[1]))
    for _ in range(60):
        m = {i: i.upper() if rng.random() < .5 else i for i in idx}
        if rng.random() < .5:       # number alpha and beta labels independently, so that namesakes meet
            n = {}
            for i in idx:
                s = m[i][0]
                m[i] = s + str(n.get(s, 0))
                n[s] = n.get(s, 0) + 1
        f = lambda l: [m[i] for i in l]
        t2 = [[k, n, f(u), f(l)] for k, n, u, l in ts]
        if all(spin_conserving(u, l) for k, n, u, l in t2):
            return [c, t2, [f(op[0]), f(op[1])]]
    return None


SHAPES = ['', 'K', 'L', 'L', 'KL', 'LL', '2', '2L', 'C', 'KK', 'KC']


def rnd_connected(rng, big=False):
    letters = rng.choice(['gphvca', 'gphvca', 'hpa', 'cv', 'a', 'hp', 'cva', 'g', 'ha', 'pa'])
    heavy = [('H', 'H', r, r) for r in [rng.choice([1, 1, 2, 2, 3] if big else [1, 1, 2])]]
    for _ in range(rng.choice([0, 1, 1, 2] if not big else [1, 2, 2, 3])):
        r = rng.choice([1, 1, 2])
        k = rng.choice('TTH')
        heavy.append((k, k if rng.random() < .8 else {'T': 'S', 'H': 'V'}[k], r, r))
    dens = [('L', 'L', 2, 2) if x == '2' else (x, x, 1, 1) for x in rng.choice(SHAPES)]
    n = rng.choice([0, 0, 1, 1, 2])
    t = connect(rng, letters, heavy + dens, n, n)
    if t is None:
        return None
    t[1].sort(key=lambda x: rng.random())
    return t


def n_index(t):
    return len({i for k, n, u, l in t[1] for i in list(u) + list(l)} | set(t[2][0]) | set(t[2][1]))


HAND = [
    [1.0, [['H', 'H', ['g0'], ['g1']], ['K', 'K', ['g1'], ['h0']], ['T', 'T', ['h0'], ['p0']]], [['p0'], ['g0']]],
    [1.0, [['H', 'H', ['p0'], ['h0']], ['K', 'K', ['h0'], ['p1']], ['T', 'T', ['h1'], ['p1']]], [['p0'], ['h1']]],
    [1.0, [['H', 'H', ['v0', 'v1'], ['c0', 'c1']], ['T', 'T', ['c0'], ['v0']], ['T', 'T', ['c1'], ['v1']]], [[], []]],
    [1.0, [['H', 'H', ['a0', 'a1'], ['c0', 'c1']], ['L', 'L', ['a2', 'a3'], ['a0', 'a1']], ['T', 'T', ['c0', 'c1'], ['a2', 'a3']]], [[], []]],
    [1.0, [['H', 'H', ['g0'], ['g1']], ['L', 'L', ['g1'], ['h0']], ['T', 'T', ['h0'], ['p0']], ['K', 'K', ['p0'], ['g0']]], [[], []]],
    [1.0, [['T', 'T', ['c0'], ['v0']], ['T', 'T', ['c1'], ['v1']], ['T', 'T', ['v0', 'v1'], ['c0', 'c1']]], [[], []]],
    [-.5, [['T', 'T', ['h0', 'h1'], ['p0', 'p1']], ['L', 'L', ['h0'], ['h2']], ['L', 'L', ['h1'], ['h3']], ['H', 'H', ['p0', 'p1'], ['h2', 'h3']]], [[], []]],
    [1.0, [['H', 'H', ['g3', 'g2'], ['g1', 'g0']]], [['g1', 'g0'], ['g3', 'g2']]],
    [1.0, [['T', 'T', ['h0'], ['p0']], ['K', 'K', ['h0'], ['p1']], ['T', 'T', ['h1'], ['p1']], ['K', 'K', ['h1'], ['p0']]], [[], []]],
    [1.0, [['H', 'H', ['g0', 'g1'], ['g2', 'g3']], ['T', 'T', ['h0', 'h1'], ['p0', 'p1']], ['K', 'K', ['p0'], ['g0']], ['L', 'L', ['g2'], ['h0']]], [['g3', 'p1'], ['g1', 'h1']]],
]


def gen_value(rng, tier):
    for t in HAND:
        for h in (True, False):
            yield dict(t=t, kind='so', herm=h, core=True, act=True, seed=5)
    n = 0
    while n < (700 if tier == 'quick' else 12000):
        t = rnd_connected(rng)
        kind = rng.choice(['so', 'so', 'so', 'si', 'sa'])
        if t is not None and kind == 'si':
            t = add_spin(rng, t)
        if t is None or not t[1] or all(x[0] == 'K' for x in t[1]):
            continue
        n += 1
        yield dict(t=t, kind=kind, herm=rng.random() < .6, core=rng.random() < .7, act=rng.random() < .8, seed=rng.randrange(10 ** 6))


def norm_sa(v):
    out = {}
    for (u, l), x in v.items():
        k = tuple(sorted(zip(u, l)))
        out[k] = (out.get(k, 0) + x) % O.PRIME
    return {k: x for k, x in out.items() if x}


def value(ts, d, m):
    v = O.evaluate_sum(ts, m, d['kind'] != 'sa')
    return norm_sa(v) if d['kind'] == 'sa' else v


def sizes(d):
    n = n_index(d['t'])
    return dict(c=1, a=2, v=1) if n <= 7 else dict(c=1, a=1, v=1)


def cost(t, n):
    c = 1
    for i in {i for k, nm, u, l in t[1] for i in list(u) + list(l)} | set(t[2][0]) | set(t[2][1]):
        c *= sum(n[x.lower()] for x in O.ELEM[i[0]])
    return c


def norm_t(t):
    return t[0], [(k, n, tuple(u), tuple(l)) for k, n, u, l in t[1]], (tuple(t[2][0]), tuple(t[2][1]))


@clause('C12', 'value', gen_value, ['Term.canonicalize_sympy', 'Term.canonicalize_simple', 'Term.simplify', 'Term._downgrade_cumulant_indices', 'Term._remove_kronecker_delta', 'Term._minimal_indices', 'Term._relabel_indices', 'IndicesPair.asym_bsgs', 'IndicesPair.sym_bsgs'], share=2.0)
def _(d):
    n = sizes(d)
    if d['kind'] == 'si' or cost(d['t'], n) > 20000:
        n = dict(c=1, a=2, v=1) if cost(d['t'], dict(c=1, a=2, v=1)) <= 20000 else dict(c=1, a=1, v=1)
    if cost(d['t'], n) > 60000:
        raise Skip()
    t = norm_t(d['t'])
    m = O.Model(d['seed'], n, d['herm'], adapted=d['kind'] == 'sa')
    want = value([t], d, m)
    for how in ('sympy', 'simple', 'simplify'):
        term = mk_term(t, d['kind'])
        if how == 'sympy':
            r = returns(lambda: term.canonicalize_sympy(d['core'], d['act'], d['herm']), 'canonicalize')
            r2 = returns(lambda: mk_term(t, d['kind']).canonicalize(d['core'], d['act'], d['herm']), 'canonicalize')
            check(d_term(r) == d_term(r2), 'canonicalize and canonicalize_sympy differ', d_term(r), d_term(r2))
            canonical_shape(r, d)
        elif how == 'simple':
            r = returns(lambda: term.canonicalize_simple(d['core'], d['act']), 'canonicalize_simple')
            canonical_shape(r, d)
        else:
            returns(lambda: term.simplify(d['core'], d['act']), 'simplify')
            r = term
        check(r.sq_op.indices_type is KINDS[d['kind']] and all(x.indices_type is KINDS[d['kind']] for x in r.list_of_tensors), 'index kind changed')
        got = value([d_term(r)], d, m)
        check(got == want, f"{how} changes the value", t, d_term(r))
        if d['act'] and not r.is_void():
            for k, nm, u, l in d_term(r)[1]:
                check(k != 'T' or not all(i[0] in 'aA' for i in u + l), 'all-active amplitude left', d_term(r))


def canonical_shape(r, d):
    c, ts, op = d_term(r)
    if r.is_void():
        check(ts == [] and op == ((), ()), 'void term with content', d_term(r))
        return
    check(not any(k == 'K' for k, n, u, l in ts), 'a Kronecker delta is left', ts)
    used = {}
    for i in {i for k, n, u, l in ts for i in u + l} | set(op[0]) | set(op[1]):
        used.setdefault(i[0], set()).add(int(i[1:]))
    for s, x in used.items():
        check(x == set(range(len(x))), 'index numbers are not the lowest', s, sorted(x))
    if d.get('core', True):
        for k, n, u, l in ts:
            if k == 'L' and len(u) == 1:
                check(not ('c' in (u[0][0].lower(), l[0][0].lower())), 'core cumulant left', ts)
    for k, n, u, l in ts:
        if k == 'L':
            sp = {i[0].lower() for i in u + l}
            check(sp == {'a'} if len(u) > 1 else sp <= {'h', 'a', 'c'}, 'cumulant not restricted', k, u, l)


# ---------------------------------------------------------------- canonicity
def scramble(rng, t, kind, herm):
    """an equal term: rename, permute antisymmetric lists with sign, swap Hermitian tensors, reorder tensors"""
    c, ts, (cr, an) = t
    idx = sorted({i for k, n, u, l in ts for i in u + l} | set(cr) | set(an))
    m = {}
    for s in {i[0] for i in idx}:
        old = [i for i in idx if i[0] == s]
        new = rng.sample(range(len(old) + 3), len(old))
        m.update({i: s + str(x) for i, x in zip(old, new)})
    sign = 1
    out = []

    def perm(l):
        p = list(range(len(l)))
        rng.shuffle(p)
        return [l[x] for x in p], O.parity(p)
    for k, n, u, l in ts:
        u, l = [m[i] for i in u], [m[i] for i in l]
        if kind == 'sa':
            p = list(range(len(u)))
            rng.shuffle(p)
            u, l = [u[x] for x in p], [l[x] for x in p]
        else:
            u, s1 = perm(u)
            l, s2 = perm(l)
            sign *= s1 * s2
        if herm and rng.random() < .5:
            u, l = l, u
        out.append((k, n, u, l))
    cr, an = [m[i] for i in cr], [m[i] for i in an]
    if kind != 'sa':
        cr, s1 = perm(cr)
        an, s2 = perm(an)
        sign *= s1 * s2
    rng.shuffle(out)
    return (c * sign, out, (cr, an))


def gen_canon(rng, tier):
    for t in HAND:
        for h in (True, False):
            for s in range(3):
                yield dict(t=t, kind='so', herm=h, seed=s)
    n = 0
    while n < (450 if tier == 'quick' else 9000):
        t = rnd_connected(rng, rng.random() < .4)
        kind = rng.choice(['so', 'so', 'so', 'si', 'sa'])
        if t is not None and kind == 'si':
            t = add_spin(rng, t)
        if t is None or n_index(t) > 12 or all(x[0] == 'K' for x in t[1]):
            continue
        n += 1
        yield dict(t=t, kind=kind, herm=rng.random() < .6, seed=rng.randrange(10 ** 6))


@clause('C12', 'canonical', gen_canon, ['Term.canonicalize_sympy', 'Term.simplify', 'IndicesPair.base_strong_generating_set', 'SecondQuantizedOperator.base_strong_generating_set'], share=2.0)
def _(d):
    t = norm_t(d['t'])
    ref = mk_term(t, d['kind']).canonicalize(hermitian_tensor=d['herm'])
    r0 = d_term(ref)
    rng = random.Random(d['seed'])
    for _ in range(2):
        s = scramble(rng, t, d['kind'], d['herm'])
        r = mk_term(s, d['kind']).canonicalize(hermitian_tensor=d['herm'])
        check(d_term(r) == r0, 'equal terms have different canonical forms', s, d_term(r), r0)
    if not ref.is_void():
        again = d_term(mk_term(r0, d['kind']).canonicalize(hermitian_tensor=d['herm']))
        check(again == r0, 'canonicalizing a canonical term changes it', r0, again)
        back = mk_term((r0[0], r0[1][::-1], r0[2]), d['kind'])
        check(d_term(back.canonicalize(hermitian_tensor=d['herm'])) == r0, 'order of tensors matters')


# ---------------------------------------------------------------- exact equivalence by exhaustive search
def brute(t, herm):
    """(minimal form, sign) over all relabelings and symmetries; None when the term equals minus itself"""
    c, ts, (cr, an) = t
    idx = sorted({i for k, n, u, l in ts for i in u + l} | set(cr) | set(an))
    groups = {}
    for i in idx:
        groups.setdefault(i[0], []).append(i)
    best, signs = None, set()
    for ps in itertools.product(*(itertools.permutations(range(len(g))) for g in groups.values())):
        m = {}
        for (s, g), p in zip(groups.items(), ps):
            m.update({i: (s, x) for i, x in zip(g, p)})
        sign = 1
        out = []
        for k, n, u, l in ts:
            u, l = [m[i] for i in u], [m[i] for i in l]
            sign *= O.parity(u) * O.parity(l)
            u, l = tuple(sorted(u)), tuple(sorted(l))
            if herm and l < u:
                u, l = l, u
            out.append((k, n, u, l))
        c1, a1 = [m[i] for i in cr], [m[i] for i in an]
        sign *= O.parity(c1) * O.parity(a1)
        f = (tuple(sorted(out)), tuple(sorted(c1)), tuple(sorted(a1)))
        if best is None or f < best:
            best, signs = f, {sign}
        elif f == best:
            signs.add(sign)
    return (best, None) if len(signs) == 2 else (best, signs.pop())


def gen_brute(rng, tier):
    n = 0
    while n < (150 if tier == 'quick' else 4000):
        letters = rng.choice(['cv', 'cv', 'cva', 'c', 'v', 'hp'])
        heavy = [(k, k, r, r) for k, r in ((rng.choice('HHT'), rng.choice([1, 2, 2])) for _ in range(rng.choice([2, 2, 3])))]
        o = rng.choice([0, 0, 1, 2])
        t = connect(rng, letters, heavy, o, o)
        if t is None:
            continue
        w = 1
        for x in Counter(i[0] for i in {i for k, nm, u, l in t[1] for i in u + l} | set(t[2][0]) | set(t[2][1])).values():
            for y in range(2, x + 1):
                w *= y
        if w > 800 or any(k == 'T' and not amp_ok(l, u) for k, nm, u, l in t[1]):
            continue
        n += 1
        yield dict(t=t, herm=rng.random() < .7)


@clause('C12', 'vanishing', gen_brute, ['Term.canonicalize_sympy'])
def _(d):
    """the canonical form of a term without densities is in the same class with the right sign, and is empty
    exactly when the term equals minus itself"""
    t = norm_t(d['t'])
    f, s = brute(t, d['herm'])
    r = mk_term(t).canonicalize_sympy(remove_active_amplitudes=False, hermitian_tensor=d['herm'])
    if s is None:
        check(r.is_void(), 'a term equal to minus itself is kept', t, d_term(r))
        return
    check(not r.is_void(), 'a non-vanishing term was dropped', t)
    f2, s2 = brute(d_term(r), d['herm'])
    check(f2 == f and s2 is not None, 'canonical form is another term', t, d_term(r))
    check(abs(r.coeff * s2 - t[0] * s) < 1e-12, 'sign of the canonical form', t, d_term(r))


def gen_diag(rng, tier):
    yield dict(t=[.5, [['H', 'H', ['g0'], ['g0']]], [['g0'], ['g0']]], seed=3)
    yield dict(t=[.5, [['H', 'H', ['c3'], ['c3']]], [['c3'], ['c3']]], seed=3)
    # diagonal tensors as make_one_body_diagonal produces them: elementary spaces
    for x in 'cva':
        H = ['H', 'H', [x + '7'], [x + '7']]
        for y in 'hca':
            for k in 'KL':
                if O.ELEM[x] & O.ELEM[y] & (set('cav') if k == 'K' else set('ca')):
                    # the operator of H meets an amplitude with one or both ends
                    yield dict(t=[1.0, [H, [k, k, [x + '7'], [y + '1']], ['T', 'T', [y + '1'], ['p2']]], [['p2'], [x + '7']]], seed=1)
                    for z in 'pva':
                        for k2 in 'KL':
                            if O.ELEM[x] & O.ELEM[z] & (set('cav') if k2 == 'K' else set('ca')) and O.ELEM[x] & O.ELEM[y] & O.ELEM[z] & (set('ca') if 'L' in (k, k2) else set('cav')):
                                yield dict(t=[1.0, [H, [k, k, [x + '7'], [y + '1']], [k2, k2, [z + '2'], [x + '7']], ['T', 'T', [y + '1'], [z + '2']]], [[], []]], seed=2)


@clause('C12', 'diagonal', gen_diag, ['Term.canonicalize_simple', 'Term.simplify'])
def _(d):
    t = norm_t(d['t'])
    try:
        term = mk_term(t)
    except ValueError:
        raise Skip()
    expect(NotImplementedError, lambda: mk_term(t).canonicalize(), 'diagonal indices')
    m = O.Model(d['seed'], dict(c=2, a=2, v=2), True)
    r = term.canonicalize_simple()
    check(O.evaluate_sum([d_term(r)], m) == O.evaluate_sum([t], m), 'value changed', t, d_term(r))

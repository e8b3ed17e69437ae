from math import factorial
from physics import *
from dsrg_generator.Term import diagonal_fock_operator, dyall_hamiltonian, fink_hamiltonian
import c12
harness.CLAUSES.pop('C12', None)


# ---------------------------------------------------------------- factories
def gen_fac(rng, tier):
    for k in range(1, 6):
        for start in (0, 1, 7):
            for kind in ('so', 'si', 'sa'):
                yield dict(k=k, start=start, kind=kind, exc=None)
                for exc in (True, False):
                    for hp in ('hp', 'cv', 'av', 'ca', 'HP'):
                        if hp == 'HP' and kind != 'si':
                            continue
                        yield dict(k=k, start=start, kind=kind, exc=exc, hp=hp, name=rng.choice(['T', 'S', 'A']), f=rng.choice([1.0, -1.0, .5]))


@clause('C17', 'factories', gen_fac, ['hamiltonian_operator', 'cluster_operator'], share=.4)
def _(d):
    k, s, kind = d['k'], d['start'], d['kind']
    if d['exc'] is None:
        t = hamiltonian_operator(k, s, kind)
        c, ts, op = d_term(t)
        u, l = tuple(f"g{s + k + i}" for i in range(k)), tuple(f"g{s + i}" for i in range(k))
        check(ts == [('H', 'H', u, l)] and op == (l, u), 'Hamiltonian', ts, op)
        check(fr(c) == Fraction(1, factorial(k) ** 2), 'coefficient', c)
        if s == 0 and kind == 'so':
            check(d_term(hamiltonian_operator(k)) == (c, ts, op), 'defaults')
    else:
        h, p = d['hp']
        t = cluster_operator(k, start=s, excitation=d['exc'], name=d['name'], scale_factor=d['f'], hole_label=h, particle_label=p, indices_type=kind)
        c, ts, op = d_term(t)
        hs, ps = tuple(f"{h}{s + i}" for i in range(k)), tuple(f"{p}{s + i}" for i in range(k))
        check(ts == [('T', d['name'], hs, ps)], 'amplitude', ts)
        check(op == ((ps, hs) if d['exc'] else (hs, ps)), 'operator', op)
        check(fr(c) == fr(d['f']) / factorial(k) ** 2, 'coefficient', c)
        if s == 0 and kind == 'so' and d['exc']:
            x = d_term(cluster_operator(k))
            hs, ps = tuple(f"h{i}" for i in range(k)), tuple(f"p{i}" for i in range(k))
            check(fr(x[0]) == Fraction(1, factorial(k) ** 2) and x[1:] == ([('T', 'T', hs, ps)], (ps, hs)), 'defaults', x)
    check(t.sq_op.indices_type is KINDS[kind], 'index kind')


# ---------------------------------------------------------------- expansion
def replace(t, m):
    c, ts, op = t
    f = lambda l: tuple(m[i] for i in l)
    return c, [(k, n, f(u), f(l)) for k, n, u, l in ts], (f(op[0]), f(op[1]))


def indices_of(t):
    return sorted({i for k, n, u, l in t[1] for i in tuple(u) + tuple(l)} | set(t[2][0]) | set(t[2][1]), key=O.key)


def assigned(t, spaces):
    """open indices (creators then annihilators) restricted to the given spaces, everything renumbered"""
    n, m = {}, {}
    for i, s in list(zip(tuple(t[2][0]) + tuple(t[2][1]), spaces)) + [(i, i[0]) for i in indices_of(t)]:
        if i not in m:
            m[i] = s + str(n.get(s, 0))
            n[s] = n.get(s, 0) + 1
    return replace(t, m)


def key_exact(d, kind):
    """exact class of a term under renaming of its indices: canonical labelling by order of first use with the operator
    fixed; tensors that are interchangeable are tried in all orders"""
    c, ts, op = d
    best = None
    for p in itertools.permutations(range(len(ts))):
        n, m = {}, {}
        for i in tuple(op[0]) + tuple(op[1]) + tuple(x for k in p for x in tuple(ts[k][2]) + tuple(ts[k][3])):
            if i not in m:
                s = i[0]
                m[i] = (s, n.get(s, 0))
                n[s] = n.get(s, 0) + 1
        f = lambda l: tuple(m[i] for i in l)
        x = (tuple((ts[k][0], ts[k][1], f(ts[k][2]), f(ts[k][3])) for k in p), f(op[0]), f(op[1]))
        best = x if best is None or x < best else best
    return round(c, 12), best


def gen_ddca(rng, tier):
    for k in (1, 2):
        t = ham(k)
        for mc in range(2 * k + 1):
            for mv in range(2 * k + 1):
                for sr in (False, True):
                    yield dict(t=t, kind='so', mc=mc, mv=mv, sr=sr, start=0)
        for sr in (False, True):
            yield dict(t=t, kind='so', mc=None, mv=None, sr=sr, start=3)
            yield dict(t=amp(k), kind='so', mc=None, mv=None, sr=sr, start=0)
            yield dict(t=amp(k), kind='so', mc=1, mv=1, sr=sr, start=2)
    n = 0
    while n < (120 if tier == 'quick' else 2000):
        t = c12.rnd_connected(rng)
        if t is None or not t[1] or len(t[1]) > 4 or any(x[0] in 'KLC' for x in t[1]):
            continue
        kind = 'so'
        if rng.random() < .3:
            t, kind = c12.add_spin(rng, t), 'si'
            if t is None:
                continue
        n += 1
        lim = rng.random() < .6
        yield dict(t=t, kind=kind, mc=rng.randrange(4) if lim else None, mv=rng.randrange(4) if lim else None, sr=rng.random() < .4, start=rng.choice([0, 0, 4]))


@clause('C17', 'expansion', gen_ddca, ['Term.make_ddca', 'Term.expand_composite_indices'])
def _(d):
    term = mk_term(d['t'], d['kind'])
    t = d_term(term)
    op = tuple(t[2][0]) + tuple(t[2][1])
    want = []
    for sp in itertools.product(*[sorted(O.ELEM[i[0]]) for i in op]):
        low = [s.lower() for s in sp]
        if d['mc'] is not None and (low.count('c') > d['mc'] or low.count('v') > d['mv']):
            continue
        if d['sr'] and 'a' in low:
            continue
        x = assigned(t, sp)
        if any(k == 'T' and not amp_ok(u, l) for k, n, u, l in x[1]):
            raise Skip()
        want.append(x)
    got = list(term.expand_composite_indices(d['sr'], d['start']) if d['mc'] is None else term.make_ddca(d['mc'], d['mv'], d['sr'], d['start']))
    f = lambda l: Counter(key_exact(x, d['kind']) for x in l)
    check(f(map(d_term, got)) == f(want), 'expansion', len(got), len(want), got[:2])
    check(all(x.sq_op.indices_type is KINDS[d['kind']] for x in got), 'index kind')
    for x in got:
        used = {}
        for i in indices_of(d_term(x)):
            used.setdefault(i[0], []).append(int(i[1:]))
        check(all(sorted(v) == list(range(d['start'], d['start'] + len(v))) for v in used.values()), 'numbering', d['start'], used)
    check(d_term(term) == t, 'modified')


def gen_model(rng, tier):
    for w in ('fock', 'dyall', 'fink'):
        for sr in (False, True):
            yield dict(w=w, sr=sr)


@clause('C17', 'model-hamiltonians', gen_model, ['diagonal_fock_operator', 'dyall_hamiltonian', 'fink_hamiltonian', 'Term.make_one_body_diagonal'], share=.2)
def _(d):
    sr = d['sr'] and d['w'] != 'dyall'
    one = [(1.0, [('H', 'H', (s + '1',), (s + '0',))], ((s + '0',), (s + '1',))) for s in ('cv' if sr else 'cav')]
    want = list(one)
    if d['w'] == 'fock':
        got = diagonal_fock_operator(d['sr'])
    elif d['w'] == 'dyall':
        got = dyall_hamiltonian()
        want.append((.25, [('H', 'H', ('a2', 'a3'), ('a0', 'a1'))], (('a0', 'a1'), ('a2', 'a3'))))
    else:
        got = fink_hamiltonian(d['sr'])
        for sp in itertools.product('cv' if sr else 'cav', repeat=4):
            if sorted(sp[:2]) == sorted(sp[2:]):
                want.append(assigned(ham(2), sp))
    check(isinstance(got, list), 'a list')
    f = lambda l: Counter((round(x[0], 12), like_key(mk_term((1.0,) + tuple(x[1:])).canonicalize())) for x in l)
    g = [d_term(x) for x in got]
    check(f(g) == f(want), d['w'], g)
    w = as_sum([mk_term(x).canonicalize() for x in want])
    check(as_sum([mk_term(x).canonicalize() for x in g]) == w, d['w'] + ' as a sum', g)


def gen_diag(rng, tier):
    for x in 'gphvca':
        for y in 'gphvca':
            for sr in (False, True):
                yield dict(t=[.5, [['H', 'H', [y + '5'], [x + '6']]], [[x + '6'], [y + '5']]], kind='so', sr=sr)
                yield dict(t=[.5, [['H', 'H', [y.upper() + '5'], [x.upper() + '6']]], [[x.upper() + '6'], [y.upper() + '5']]], kind='si', sr=sr)
                yield dict(t=[.5, [['H', 'H', [y + '5', 'h1'], [x + '6', 'h2']], ['T', 'T', ['h2'], ['h1']]], [[x + '6'], [y + '5']]], kind='so', sr=sr)
    yield dict(t=[.25, [['H', 'H', ['g0', 'g1'], ['g2', 'g3']]], [['g2', 'g3'], ['g0', 'g1']]], kind='so', sr=False)


@clause('C17', 'diagonal', gen_diag, ['Term.make_one_body_diagonal'], share=.4)
def _(d):
    term = mk_term(d['t'], d['kind'])
    t = d_term(term)
    if len(t[2][0]) != 1:
        expect(ValueError, lambda: list(term.make_one_body_diagonal(d['sr'])), 'two-body operator')
        return
    ov = O.ELEM[t[2][0][0][0]] & O.ELEM[t[2][1][0][0]]
    want = [mk_term(assigned(t, (s, s)), d['kind']).canonicalize() for s in sorted(ov) if not (d['sr'] and s in 'aA')]
    got = list(term.make_one_body_diagonal(d['sr']))
    f = lambda l: sorted(map(repr, map(d_term, l)))
    check(f(got) == f(want), 'diagonal part', got, want)


# ---------------------------------------------------------------- excitation
def gen_exc(rng, tier):
    for x in 'gphvca':
        for y in 'gphvca':
            for sr in (False, True):
                yield dict(t=[.5, [['H', 'H', [y + '5'], [x + '6']]], [[x + '6'], [y + '5']]], kind='so', sr=sr)
                yield dict(t=[.5, [['H', 'H', [y.upper() + '5'], [x.upper() + '6']]], [[x.upper() + '6'], [y.upper() + '5']]], kind='si', sr=sr)
    n = 0
    while n < (300 if tier == 'quick' else 5000):
        t = c12.rnd_connected(rng)
        if t is None or not t[2][0] or any(x[0] in 'KLC' for x in t[1]):
            continue
        kind = 'so'
        if rng.random() < .3:
            t, kind = c12.add_spin(rng, t), 'si'
            if t is None:
                continue
        n += 1
        yield dict(t=t, kind=kind, sr=rng.random() < .5)


@clause('C17', 'excitation', gen_exc, ['Term.make_excitation', 'SecondQuantizedOperator.is_possible_excitation'])
def _(d):
    term = mk_term(d['t'], d['kind'])
    t = d_term(term)
    low = lambda l: [i[0].lower() for i in l]
    cre, ann = t[2]
    poss = 'c' not in low(cre) and 'v' not in low(ann) and set(low(cre) + low(ann)) != {'a'}
    check(term.is_possible_excitation() == poss and term.sq_op.is_possible_excitation() == poss, 'possible excitation', t[2])
    sp = []
    for l, want in ((cre, 'v' if d['sr'] else 'av'), (ann, 'c' if d['sr'] else 'ca')):
        for i in l:
            s = frozenset(x for x in O.ELEM[i[0].lower()] if x in want)
            lab = O.LABEL.get(s)
            sp.append(lab if lab is None or not O.is_beta(i) else lab.upper())
    got = term.make_excitation(d['sr'])
    check(d_term(term) == t, 'modified')
    if not poss or None in sp:
        check(got.is_void() and d_term(got)[1:] == ([], ((), ())), 'an impossible excitation', t, d_term(got))
        return
    if set(x.lower() for x in sp) == {'a'}:
        raise Skip()
    x = assigned(t, sp)
    if any(k == 'T' and not amp_ok(u, l) for k, n, u, l in x[1]):
        raise Skip()
    want = mk_term(x, d['kind']).canonicalize()
    check(d_term(got) == d_term(want), 'excitation', t, d_term(got), d_term(want))


# ---------------------------------------------------------------- gradients
def gen_grad(rng, tier):
    n = 0
    while n < (150 if tier == 'quick' else 2500):
        letters = rng.choice(['hp', 'cv', 'hpa', 'cva'])
        heavy = [('H', 'H', r, r) for r in [rng.choice([1, 2])]] + [('T', rng.choice('TTS'), r, r) for r in (rng.choice([1, 1, 2]) for _ in range(rng.choice([1, 2, 2, 3])))]
        dens = [('L', 'L', 1, 1)] * rng.choice([0, 0, 0, 1])
        o = 0 if rng.random() < .9 else 1
        t = c12.connect(rng, letters, heavy + dens, o, o)
        if t is None:
            continue
        n += 1
        yield dict(t=t)


@clause('C17', 'gradient', gen_grad, ['Term.gradient_t'])
def _(d):
    term = mk_term(d['t'])
    c, ts, op = t = d_term(term)
    if op[0] or op[1]:
        expect(NotImplementedError, lambda: list(term.gradient_t()), 'open term')
        return
    want = []
    for k, x in enumerate(ts):
        if x[0] == 'T':
            rest = ts[:k] + ts[k + 1:]
            # a density may have both ends on the removed amplitude: outside the domain of canonicalize
            for y in rest:
                if y[0] == 'L' and len((set(y[2]) | set(y[3])) & (set(x[2]) | set(x[3]))) > 1:
                    raise Skip()
            want.append(mk_term((c, rest, (x[3], x[2]))).canonicalize())
    got = list(term.gradient_t())
    check(sorted(map(repr, map(d_term, got))) == sorted(map(repr, map(d_term, want))), 'gradient', t, got)
    check(d_term(term) == t, 'modified')

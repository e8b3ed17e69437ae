from physics import *


DEFAULTS = {'contract_terms': (3, 6, 0, 1.0, False, True, 1, True), 'single_commutator': (3, 6, 0, 1.0, True, True, 1, True),
            'linear_commutator': (3, 1, True, True), 'linear_commutator_amp': (1, True, 3, True, True, True),
            'recursive_single_commutator': (True, True, 1, True), 'bch_cc_rsc': (True, True, False, False, 1, True),
            'nested_commutator_cc': (3, 6, 0, True, True, False, False, 1, True)}


def run(name, *args):
    """call with the trailing arguments that equal their defaults left out"""
    args = list(args)
    for x in reversed(DEFAULTS[name]):
        if args[-1] != x or isinstance(args[-1], bool) != isinstance(x, bool):
            break
        args.pop()
    return getattr(PC, name)(*args)



def same(got, want, what):
    g = as_sum(got)
    if g != want:
        bad = [(k, g.get(k), want.get(k)) for k in set(g) | set(want) if g.get(k) != want.get(k)]
        raise Fail(f"{what}: {len(bad)} terms differ, e.g. {bad[:2]} (term, got, expected)")
    keys = [like_key(t) for t in got]
    check(len(set(keys)) == len(keys), what + ': like terms not combined')


def gen_prod(rng, tier):
    for lst in ([ham(1), amp(1)], [amp(1), ham(1)], [amp(1, exc=False), ham(1)], [ham(1), amp(2)], [amp(1, exc=False), ham(1), amp(1, 1)]):
        for e in (True, False):
            for conn in (False, True):
                for herm in (True, False):
                    yield dict(t=lst, max_cu=2, lo=0, hi=6, f=1.0, conn=conn, expand=e, herm=herm)
    for _ in range(250 if tier == 'quick' else 4000):
        n = rng.choice([1, 2, 2, 2, 3])
        letters = rng.choice(['gphvca', 'cva', 'ca', 'ghp', 'hp'])
        t = [rnd_term(rng, 6 * i, letters, 2 if n < 3 else 1) for i in range(n)]
        if rng.random() < .15:
            t.insert(rng.randrange(len(t) + 1), (2.0, [('H', 'H', ('v90',), ('v91',)), ('H', 'H', ('v91',), ('v90',))], ((), ())))
        size = sum(len(x[2][0]) * 2 for x in t)
        lo = rng.choice([0, 0, 0, 2])
        yield dict(t=t, max_cu=rng.choice([1, 2, 3]), lo=lo, hi=rng.choice([lo, lo + 2, size]), f=rng.choice([1.0, -1.0, .5, 1 / 6]), conn=rng.random() < .4, expand=rng.random() < .7, herm=rng.random() < .7)


@clause('C11', 'product', gen_prod, ['contract_terms', 'canonicalize_contractions_batch'], share=1.2)
def _(d):
    raw = product_spec(d['t'], d['max_cu'], d['lo'], d['hi'], d['f'], d['conn'], d['expand'])
    if len(raw) > 700:
        raise Skip()
    terms = [mk_term(x) for x in d['t']]
    before = [d_term(x) for x in terms]
    got = run('contract_terms', terms, d['max_cu'], d['hi'], d['lo'], d['f'], d['conn'], d['expand'], 1, d['herm'])
    check([d_term(x) for x in terms] == before, 'the given terms were modified')
    if sum(1 for t in d['t'] if t[2][0] or t[2][1]) < 2:
        want = as_sum([mk_term((float(raw[0][0]),) + raw[0][1:])])
    else:
        want = canon_sum([(float(c), t, o) for c, t, o in raw], d['herm'])
    same(got, want, 'product')


def gen_val(rng, tier):
    for _ in range(60 if tier == 'quick' else 1500):
        letters = rng.choice(['gphvca', 'cva', 'ca', 'ghp', 'hp'])
        t = [rnd_term(rng, 6 * i, letters, rng.choice([1, 1, 2])) for i in range(2)]
        yield dict(t=t, seed=rng.randrange(10 ** 6), herm=rng.random() < .6, expand=rng.random() < .7)


@clause('C11', 'product-value', gen_val, ['contract_terms', 'Term.canonicalize_sympy'], share=1.0)
def _(d):
    """the simplified product evaluates to the product, on random exact tensors"""
    size = sum(len(x[2][0]) * 2 for x in d['t'])
    raw = product_spec(d['t'], 2, 0, size, 1.0, False, d['expand'])
    if len(raw) > 60:
        raise Skip()
    m = O.Model(d['seed'], dict(c=1, a=2, v=1), d['herm'])
    got = run('contract_terms', [mk_term(x) for x in d['t']], 2, size, 0, 1.0, False, d['expand'], 1, d['herm'])
    check(O.evaluate_sum([d_term(t) for t in got], m) == O.evaluate_sum(raw, m), 'value of the product')


def comm_spec(l, r, max_cu, lo, hi, f, conn, expand, herm):
    if conn and not (any(l[2]) and any(r[2])):
        return {}
    out = {}
    for s, a, b in ((1, l, r), (-1, r, l)):
        for k, v in canon_or_raw([a, b], max_cu, lo, hi, s * f, conn, expand, herm).items():
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def canon_or_raw(ts, max_cu, lo, hi, f, conn, expand, herm):
    raw = product_spec(ts, max_cu, lo, hi, f, conn, expand)
    if len(raw) > 500:
        raise Skip()
    if sum(1 for t in ts if t[2][0] or t[2][1]) < 2:
        return as_sum([mk_term((float(raw[0][0]),) + raw[0][1:])])
    return canon_sum([(float(c), t, o) for c, t, o in raw], herm)


def add(a, b, f=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
    return {k: v for k, v in out.items() if v}


def gen_comm(rng, tier):
    yield dict(l=[ham(1)], r=[amp(1)], max_cu=2, lo=0, hi=6, f=1.0, conn=True, expand=True, herm=True)
    s = (2.0, [('H', 'H', ('v90',), ('v91',)), ('H', 'H', ('v91',), ('v90',))], ((), ()))
    for conn in (True, False):
        yield dict(l=[s], r=[amp(1)], max_cu=2, lo=0, hi=6, f=1.0, conn=conn, expand=True, herm=True)
        yield dict(l=[ham(1)], r=[s], max_cu=2, lo=0, hi=6, f=1.0, conn=conn, expand=True, herm=True)
    for _ in range(160 if tier == 'quick' else 3000):
        letters = rng.choice(['gphvca', 'cva', 'ca', 'ghp', 'hp'])
        one = rng.random() < .5
        mk = lambda st: rnd_term(rng, st, letters, 2 if one else 1)
        yield dict(l=[mk(0) for _ in range(1 if one else rng.randrange(1, 3))], r=[mk(8) for _ in range(1 if one else rng.randrange(1, 3))],
                   max_cu=rng.choice([1, 2, 3]), lo=rng.choice([0, 0, 2]), hi=rng.choice([0, 2, 4, 6, 8]), f=rng.choice([1.0, -.5, .25]),
                   conn=rng.random() < .6, expand=rng.random() < .7, herm=rng.random() < .6)


@clause('C11', 'commutator', gen_comm, ['single_commutator', 'linear_commutator'])
def _(d):
    a = (d['max_cu'], d['lo'], d['hi'], d['f'], d['conn'])
    L, R = [mk_term(x) for x in d['l']], [mk_term(x) for x in d['r']]
    before = [d_term(x) for x in L + R]
    want = comm_spec(d['l'][0], d['r'][0], *a, d['expand'], d['herm'])
    got = run('single_commutator', L[0], R[0], d['max_cu'], d['hi'], d['lo'], d['f'], d['conn'], d['expand'], 1, d['herm'])
    same(got, want, 'commutator')
    tot = {}
    for l in d['l']:
        for r in d['r']:
            tot = add(tot, comm_spec(l, r, *a, True, d['herm']))
    got = run('linear_commutator', L, R, d['f'], d['lo'], d['hi'], d['max_cu'], 1, d['conn'], d['herm'])
    same(got, tot, 'linear commutator')
    check([d_term(x) for x in L + R] == before, 'the given terms were modified')


def gen_amp(rng, tier):
    for sr in (True, False):
        for un in (True, False):
            for herm in (True, False):
                for conn in (True, False):
                    yield dict(l=[own_term('H', 'H', ['c0' if sr else 'h0'], ['v0' if sr else 'p0'])], levels=[1], lo=0, hi=4, start=3, un=un, max_cu=1, conn=conn, sr=sr, herm=herm, f=.5)
    for _ in range(25 if tier == 'quick' else 600):
        sr = rng.random() < .5
        yield dict(l=[rnd_term(rng, 0, 'cv' if sr else 'hpa', 1)], levels=rng.choice([[1], [1, 2], [2]]), lo=rng.choice([0, 2]), hi=rng.choice([2, 4, 6]), start=rng.randrange(3, 9),
                   un=rng.random() < .6, max_cu=rng.choice([1, 2]), conn=rng.random() < .7, sr=sr, herm=rng.random() < .6, f=rng.choice([1.0, -.5]))


@clause('C11', 'amplitude-commutator', gen_amp, ['linear_commutator_amp', 'cluster_operators', 'linear_commutator'])
def _(d):
    h, p = ('c', 'v') if d['sr'] else ('h', 'p')
    amps = [amp(k, d['start'], True, h, p) for k in d['levels']]
    if d['un']:
        amps += [amp(k, d['start'], False, h, p, scale=-1.0) for k in d['levels']]
    got = [d_term(t) for t in PC.cluster_operators(d['levels'], d['start'], d['un'], d['sr'])]
    check(sorted(map(repr, got)) == sorted(map(repr, amps)), 'cluster operators', got, amps)
    want = {}
    for l in d['l']:
        for r in amps:
            want = add(want, comm_spec(l, r, d['max_cu'], d['lo'], d['hi'], d['f'], d['conn'], True, d['herm']))
    got = run('linear_commutator_amp', [mk_term(x) for x in d['l']], d['levels'], d['f'], d['lo'], d['hi'], d['start'], 1, d['un'], d['max_cu'], d['conn'], d['sr'], d['herm'])
    same(got, want, 'commutator with cluster operators')


def gen_rec(rng, tier):
    yield dict(t=[own_term('H', 'H', ['h0'], ['p0']), own_term('H', 'V', ['p10'], ['h10']), own_term('H', 'W', ['p20'], ['h20'])], cu=[1, 2], op=[[0, 4], [0, 2]], conn=True, expand=True, herm=False)
    for _ in range(60 if tier == 'quick' else 1500):
        n = rng.choice([2, 3, 3])
        letters = rng.choice(['cva', 'ca', 'hp', 'cv', 'gphvca'])
        yield dict(t=[rnd_term(rng, 10 * i, letters, 1 if i else 2) for i in range(n)], cu=[rng.randrange(1, 4) for _ in range(n - 1)], op=[[rng.choice([0, 0, 2]), rng.choice([2, 4, 6])] for _ in range(n - 1)],
                   conn=rng.random() < .6, expand=rng.random() < .8, herm=rng.random() < .6)


@clause('C11', 'nested', gen_rec, ['recursive_single_commutator'])
def _(d):
    n = len(d['t'])
    ops = [tuple(x) for x in d['op']]
    out = run('recursive_single_commutator', [mk_term(x) for x in d['t']], d['cu'], ops, d['conn'], d['expand'], 1, d['herm'])
    left = {like_key(d['t'][0]): fr(d['t'][0][0])}
    check(sorted(out) == list(range(1, n)), 'levels', sorted(out))
    for i in range(1, n):
        want = {}
        for (ts, op), c in left.items():
            want = add(want, comm_spec((c, list(ts), op), d['t'][i], d['cu'][i - 1], *ops[i - 1], 1, d['conn'], d['expand'], d['herm']))
        same(out[i], want, f"nested commutator, level {i}")
        left = want
        if len(left) > 40:
            break


def gen_rec_bad(rng, tier):
    yield dict(x=0)


@clause('C11', 'nested-arguments', gen_rec_bad, ['recursive_single_commutator', 'contract_terms'])
def _(d):
    a, b, c = [mk_term(own_term('H', n, [h], [p])) for n, h, p in (('H', 'h0', 'p0'), ('V', 'p10', 'h10'), ('W', 'p20', 'h20'))]
    f = PC.recursive_single_commutator
    expect(ValueError, lambda: f([a], 2, (0, 2)), 'one term')
    expect(ValueError, lambda: f([a, b, c], [2], (0, 2)), 'cumulant levels')
    expect(ValueError, lambda: f([a, b, c], [2, 1.5], (0, 2)), 'cumulant levels not integers')
    expect(ValueError, lambda: f([a, b, c], 2, [(0, 2)]), 'open limits')
    expect(ValueError, lambda: f([a, b, c], 2, [(0, 2), (0,)]), 'open limit of length 1')
    expect(ValueError, lambda: f([a, b, c], 2, [(0, 2), (0, 1.5)]), 'open limit not an integer')
    x = f([a, b, c], 2, (0, 4))
    y = f([a, b, c], [2, 2], [(0, 4), (0, 4)])
    check({k: [d_term(t) for t in v] for k, v in x.items()} == {k: [d_term(t) for t in v] for k, v in y.items()}, 'one limit for all levels')
    expect(ValueError, lambda: PC.contract_terms([]), 'no terms')
    expect(TypeError, lambda: PC.contract_terms([a, 1]), 'not a term')


# ---------------------------------------------------------------- BCH against matrices in Fock space
MO = {('c', 0): 0, ('c', 1): 1, ('v', 0): 2, ('v', 1): 3}


def matrix_of(terms, m, f):
    out = {}
    for (cre, ann), v in O.evaluate_sum(terms, m).items():
        f.matrix([MO[o] for o in cre], [MO[o] for o in ann], v, out)
    return out


def gen_bch(rng, tier):
    for lv in (1, 2):
        for un in (False, True):
            yield dict(level=lv, un=un, clusters=[1], fn='rsc', seed=1)
            yield dict(level=lv, un=un, clusters=[1], fn='nested', seed=2)
    yield dict(level=2, un=False, clusters=[1, 2], fn='rsc', seed=3)
    yield dict(level=1, un=False, clusters=[1, 2], fn='nested', seed=4)
    yield dict(level=2, un=False, clusters=[2], fn='nested', seed=5)
    yield dict(level=1, un=True, clusters=[1, 2], fn='rsc', seed=6)
    yield dict(level=3, un=False, clusters=[1], fn='rsc', seed=8)
    if tier != 'quick':
        yield dict(level=2, un=True, clusters=[1, 2], fn='rsc', seed=7)
        yield dict(level=4, un=False, clusters=[1], fn='rsc', seed=9)
        yield dict(level=3, un=True, clusters=[1], fn='rsc', seed=10)


@clause('C11', 'bch', gen_bch, ['bch_cc_rsc', 'nested_commutator_cc', 'sympy_nested_commutator_recursive'], share=2.0)
def _(d):
    """1/n! [...[H, A], ..., A] as matrices over the Fock space of two core and two virtual spin orbitals; H is
    replaced by its single-reference part"""
    n, un = d['level'], d['un']
    if d['fn'] == 'rsc':
        got = run('bch_cc_rsc', n, d['clusters'], 1, (0, 12), True, True, True, un, 1, True)
        check(sorted(got) == list(range(n + 1)), 'levels', sorted(got))
    else:
        r = run('nested_commutator_cc', n, d['clusters'], 1, 12, 0, True, True, True, un, 1, True)
        # composite labels of H: only their core and virtual parts exist without active orbitals
        got = {n: r}
    m = O.Model(d['seed'], dict(c=2, a=0, v=2), True)
    f = O.Fock({0, 1}, 4)
    h = matrix_of([ham(1), ham(2)], m, f)
    a = matrix_of([amp(k, 0, True, 'c', 'v') for k in d['clusters']] + ([amp(k, 0, False, 'c', 'v', scale=-1.0) for k in d['clusters']] if un else []), m, f)
    cur = h
    for lv in range(0, n + 1):
        if lv:
            inv = O.frac_mod(Fraction(1, lv))
            x = O.mat_add(O.mat_mul(cur, a), O.mat_mul(a, cur), -1)
            cur = {k: v * inv % O.PRIME for k, v in x.items()}
        if lv in got:
            g = matrix_of([d_term(t) for t in got[lv]], m, f)
            check(g == cur, f"BCH term of level {lv} differs from 1/{lv}! times the nested commutator")


def gen_bchlim(rng, tier):
    for sr in (True, False):
        for un in (True, False):
            yield dict(sr=sr, un=un, clusters=[1], cu=[1], op=[[0, 2]], conn=True, expand=True, herm=True)
    yield dict(sr=False, un=False, clusters=[1], cu=[2], op=[[2, 4]], conn=True, expand=True, herm=False)
    yield dict(sr=True, un=False, clusters=[1], cu=[1, 1], op=[[0, 4], [0, 2]], conn=True, expand=True, herm=True)
    if tier != 'quick':
        yield dict(sr=True, un=False, clusters=[1], cu=[1], op=[[0, 4]], conn=False, expand=False, herm=True)
        yield dict(sr=True, un=False, clusters=[1, 2], cu=[1, 1], op=[[2, 4], [0, 2]], conn=True, expand=True, herm=False)


@clause('C11', 'bch-limits', gen_bchlim, ['bch_cc_rsc'], share=2.0)
def _(d):
    """every level of the BCH expansion uses the limits and options given for it"""
    n = len(d['cu'])
    h, p = ('c', 'v') if d['sr'] else ('h', 'p')
    ops = [tuple(x) for x in d['op']]
    got = run('bch_cc_rsc', n, d['clusters'], d['cu'], ops, d['conn'], d['expand'], d['sr'], d['un'], 1, d['herm'])
    left = as_sum([t for k in (1, 2) for t in hamiltonian_operator(k).expand_composite_indices(d['sr'])])
    check(as_sum(got[0]) == left, 'level 0')
    for lv in range(1, n + 1):
        want = {}
        amps = [amp(k, 40, True, h, p) for k in d['clusters']] + ([amp(k, 40, False, h, p, scale=-1.0) for k in d['clusters']] if d['un'] else [])
        for (ts, op), c in left.items():
            for r in amps:
                want = add(want, comm_spec((c, list(ts), op), r, d['cu'][lv - 1], *ops[lv - 1], Fraction(1, lv), d['conn'], d['expand'], d['herm']))
        same(got[lv], want, f"BCH level {lv}")
        left = want


@clause('C11', 'bch-arguments', gen_rec_bad, ['bch_cc_rsc', 'nested_commutator_cc'])
def _(d):
    f = PC.bch_cc_rsc
    expect(ValueError, lambda: f(1.5, [1], 1, (0, 2)), 'level')
    expect(ValueError, lambda: f(1, [1.5], 1, (0, 2)), 'cluster levels not integers')
    expect(ValueError, lambda: f(2, [1], [1], (0, 2)), 'cumulant levels')
    expect(ValueError, lambda: f(2, [1], 1, [(0, 2)]), 'open limits')
    expect(ValueError, lambda: PC.nested_commutator_cc(1.5, [1]), 'level')
    expect(ValueError, lambda: PC.nested_commutator_cc(1, 1), 'cluster levels')
    expect(ValueError, lambda: PC.nested_commutator_cc(1, [1.5]), 'cluster levels not integers')
    t = lambda l: sorted(repr(d_term(x)) for x in l)
    check(t(PC.nested_commutator_cc(1, [1], max_n_open=2)) == t(PC.nested_commutator_cc(1, [1], 3, 2, 0, True, True, False, False, 1, True)), 'options left out (nested)')
    x, y = f(1, [1], 2, (0, 2)), f(1, [1], 2, (0, 2), True, True, False, False, 1, True)
    check({k: t(v) for k, v in x.items()} == {k: t(v) for k, v in y.items()}, 'options left out (bch)')

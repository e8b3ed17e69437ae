from physics import *

ATOMS = [
    (1.0, [('H', 'H', ('g0',), ('g1',))], (('g1',), ('g0',))),
    (1.0, [('H', 'H', ('g1',), ('g0',))], (('g0',), ('g1',))),
    (1.0, [('T', 'T', ('h0',), ('p0',))], (('p0',), ('h0',))),
    (1.0, [('T', 'T', ('h0', 'h1'), ('p0', 'p1'))], (('p0', 'p1'), ('h0', 'h1'))),
    (1.0, [('T', 'T', ('h0', 'h1'), ('p0', 'p1'))], (('p1', 'p0'), ('h0', 'h1'))),
    (1.0, [('T', 'S', ('h0', 'h1'), ('p0', 'p1'))], (('p0', 'p1'), ('h0', 'h1'))),
    (1.0, [('H', 'H', ('v0',), ('c0',)), ('T', 'T', ('c0',), ('v0',))], ((), ())),
    (1.0, [('H', 'H', ('v0',), ('c1',)), ('T', 'T', ('c1',), ('v0',))], ((), ())),
    (1.0, [('H', 'H', ('v0',), ('c11',)), ('T', 'T', ('c11',), ('v0',))], ((), ())),
    (1.0, [('T', 'T', ('c0',), ('v0',)), ('H', 'H', ('v0', 'v1'), ('c0', 'c1'))], (('c1',), ('v1',))),
    (1.0, [('T', 'T', ('c0',), ('v0',)), ('H', 'H', ('v0', 'v1'), ('c0', 'c1'))], (('c1',), ('v1',))),
    (1.0, [('L', 'L', ('a0',), ('a1',)), ('H', 'H', ('a1',), ('a0',))], ((), ())),
    (1.0, [], ((), ())),
]
COEFFS = [1.0, -1.0, .5, -.5, .25, 1e-14, 2e-15, -1e-15, 5e-16, 1e-16, 3.0, 1 / 3, -1 / 3, 0.0, 1e9]


def gen(rng, tier):
    n = len(ATOMS)
    for a in range(n):
        for b in range(n):
            for c in ([1.0, -1.0], [1.0, 1.0], [.5, .25]):
                yield dict(t=[[a, c[0]], [b, c[1]]])
    for a in (0, 3):
        for c in itertools.product(COEFFS, repeat=2):
            yield dict(t=[[a, c[0]], [a, c[1]]])
    yield dict(t=[])
    for _ in range(1500 if tier == 'quick' else 30000):
        k = rng.randrange(1, 12)
        pool = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
        cs = COEFFS if rng.random() < .3 else [1.0, -1.0, .5, -.5, .25]
        yield dict(t=[[rng.choice(pool), rng.choice(cs)] for _ in range(k)])


@clause('C10', 'sum', gen, ['combine_terms', 'Term.hash_term', 'Term.is_void', 'Term.from_term'])
def _(d):
    raw = [(c,) + ATOMS[a][1:] for a, c in d['t']]
    terms = [mk_term(x) for x in raw]
    ids = [id(t) for t in terms]
    before = [d_term(t) for t in terms]
    out = PC.combine_terms(terms)
    check(isinstance(out, list), 'not a list')
    check([d_term(t) for t in terms] == before and [id(t) for t in terms] == ids, 'input terms modified')
    tot = {}
    for x in raw:
        tot.setdefault(like_key(x), []).append(x[0])
    got = {}
    for t in out:
        k = like_key(t)
        check(k not in got, 'two like terms in the result', k)
        got[k] = t.coeff
    for k, cs in tot.items():
        exact = sum(map(Fraction, cs))
        tol = sum(map(abs, cs)) * 1e-15 * len(cs)
        if abs(abs(exact) - Fraction(1e-15)) <= tol:
            continue
        if abs(exact) < Fraction(1e-15):
            check(k not in got, 'a negligible term was kept', k, got.get(k))
        else:
            check(k in got, 'a term was lost', k, float(exact))
            check(abs(Fraction(got[k]) - exact) <= tol, 'wrong sum', k, got[k], float(exact))
    check(set(got) <= set(tot), 'a term that was not given', set(got) - set(tot))
    for a, b in zip(out, out[1:]):
        check(not b < a, 'result not sorted', d_term(a), d_term(b))
    again = PC.combine_terms(terms)
    check([d_term(t) for t in again] == [d_term(t) for t in out], 'a second call gives another result')
    for t in out:
        t.coeff = 77.0
    check([d_term(t) for t in terms] == before, 'changing the result changes the input')
    sh = terms[:]
    random.Random(len(sh)).shuffle(sh)
    r = {like_key(t): t.coeff for t in PC.combine_terms(sh)}
    for k in set(r) | set(got):
        tol = sum(map(abs, tot[k])) * 4e-15
        check(abs(r.get(k, 0.) - got.get(k, 0.)) <= tol + 1e-15, 'order of the list matters', k)


def gen_bad(rng, tier):
    for k in ('tuple', 'none', 'term', 'gen', 'set'):
        yield dict(k=k)


@clause('C10', 'not-a-list', gen_bad, ['combine_terms'])
def _(d):
    t = mk_term(ATOMS[0])
    bad = dict(tuple=(t,), none=None, term=t, gen=iter([t]), set={1})[d['k']]
    expect(ValueError, lambda: PC.combine_terms(bad), d['k'])

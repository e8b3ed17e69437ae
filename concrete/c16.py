from physics import *
import importlib
SC = None
try:
    SC = importlib.import_module('SpaceCounter').SpaceCounter
except ImportError:
    pass
from dsrg_generator.mo_space import MOSpaceCounter as MC
import c12
harness.CLAUSES.pop('C12', None)


def parse(cnt):
    v = c = a = 0
    for k, n in cnt.items():
        k = k.lower()
        if k in 'ch':
            c += n
        elif k == 'a':
            a += n
        else:
            v += n
    return [v, c, a]


def raw(cnt):
    out = {}
    for k, n in cnt.items():
        out[k.lower()] = out.get(k.lower(), 0) + n
    return out


def rnd_cnt(rng):
    return {k: rng.randrange(5) for k in rng.sample('gphvcaGPHVCA', rng.randrange(6))}


def gen_mc(rng, tier):
    for x in 'gphvcaGPHVCA':
        for y in 'gphvcaGPHVCA':
            yield dict(a={x: 2, y: 1} if x != y else {x: 1}, b={y: 2})
    for _ in range(3000 if tier == 'quick' else 40000):
        yield dict(a=rnd_cnt(rng), b=rnd_cnt(rng))


@clause('C16', 'space-count', gen_mc, ['MOSpaceCounter.__init__', 'MOSpaceCounter.__lt__', 'MOSpaceCounter.__eq__', 'MOSpaceCounter.__repr__'])
def _(d):
    a, b = dict(d['a']), dict(d['b'])
    x, y = MC(a), MC(b)
    check((a, b) == (d['a'], d['b']), 'the given counter was modified')
    for o, cnt in ((x, a), (y, b)):
        check(list(o.parsed_counter) == parse(cnt), 'parsed counter', o.parsed_counter, cnt)
        check(o.overall_scaling == sum(cnt.values()), 'overall scaling', o.overall_scaling)
        check(dict(o.raw_counter) == raw(cnt), 'raw counter', o.raw_counter)
        check(sorted(repr(o).split()) == sorted(f"{k}^{n}" for k, n in raw(cnt).items()), 'repr', repr(o))
    ka, kb = (sum(a.values()), parse(a)), (sum(b.values()), parse(b))
    check((x == y) == (raw(a) == raw(b)) and (x != y) == (raw(a) != raw(b)), '==', a, b)
    check((x < y) == (ka < kb) and (x > y) == (ka > kb), '<', a, b)
    check((x <= y) == (ka <= kb) and (x >= y) == (ka >= kb), '<=', a, b)
    expect(ValueError, lambda: MC({'x': 1}), 'unknown space')
    expect(TypeError, lambda: x < 3, 'comparison')
    expect(TypeError, lambda: x == 'a', 'comparison')


def cnt_key(o):
    return o.overall_scaling, list(o.parsed_counter)


def spec_cost(s1, s2):
    return Counter(i[0].lower() for i in s1 | s2), Counter(i[0].lower() for i in s1 ^ s2)


def gen_pairs(rng, tier):
    for _ in range(800 if tier == 'quick' else 8000):
        pool = rnd_labels(rng, 8, 'gphvcaGPHVCA')
        yield dict(a=rng.sample(pool, rng.randrange(7)), b=rng.sample(pool, rng.randrange(7)))


@clause('C16', 'pair-cost', gen_pairs, ['Term._contraction_cost'])
def _(d):
    f = getattr(Term, '_contraction_cost', None)
    if f is None:
        raise Skip()
    a, b = {Index(i) for i in d['a']}, {Index(i) for i in d['b']}
    try:
        r = f(set(a), set(b))
    except TypeError:
        raise Skip()       # an internal helper with another signature
    comp, stor = spec_cost(set(d['a']), set(d['b']))
    check(dict(r[0].raw_counter) == dict(comp) and dict(r[1].raw_counter) == dict(stor), 'cost', r[:2], comp, stor)
    check({i.name for i in r[2]} == set(d['a']) ^ set(d['b']), 'open indices', r[2])


def spec_paths(left, comp, stor):
    """all sequences of pairwise contractions: (largest compute key, largest storage key)"""
    if len(left) == 1:
        yield comp, stor, left[0][1]
        return
    for i in range(len(left)):
        for j in range(i + 1, len(left)):
            c, s = spec_cost(left[i][0], left[j][0])
            kc, ks = (sum(c.values()), parse(c)), (sum(s.values()), parse(s))
            rest = [left[k] for k in range(len(left)) if k not in (i, j)]
            yield from spec_paths(rest + [(left[i][0] ^ left[j][0], (left[i][1], left[j][1]))], max(comp, kc), max(stor, ks))


def gen_paths(rng, tier):
    n = 0
    while n < (150 if tier == 'quick' else 2500):
        t = c12.rnd_connected(rng, rng.random() < .5)
        if t is None or not t[1] or len(t[1]) > 5:
            continue
        if rng.random() < .4:
            t = c12.add_spin(rng, t)
            if t is None:
                continue
            kind = 'si'
        else:
            kind = 'so'
        n += 1
        yield dict(t=t, kind=kind)


def leaves(p):
    if isinstance(p, Tensor):
        yield p
    elif p is not None:
        for x in p:
            yield from leaves(x)


@clause('C16', 'paths', gen_paths, ['Term.contraction_paths', 'Term._contraction_path', 'Term.optimal_contraction_cost'], share=1.3)
def _(d):
    t = mk_term(d['t'], d['kind'])
    ts = [d_tensor(x) for x in t.list_of_tensors]
    sets = [set(u) | set(l) for k, n, u, l in ts]
    oc, os_ = t.optimal_contraction_cost()
    if len(ts) == 1:
        c = Counter(i[0].lower() for i in sets[0])
        for o in (oc, os_):
            check(dict(o[0].raw_counter) == dict(c), 'cost of a single tensor', o)
        got = list(t.contraction_paths())
        check(len(got) == 1 and all(dict(x.raw_counter) == dict(c) for x in got[0][:2]), 'paths of a single tensor', got)
        return
    want = list(spec_paths([(s, k) for k, s in enumerate(sets)], (0, [0, 0, 0]), (0, [0, 0, 0])))
    got = list(t.contraction_paths())
    f = lambda l: Counter((x[0], tuple(x[1]), y[0], tuple(y[1])) for x, y in l)
    check(f((cnt_key(x[0]), cnt_key(x[1])) for x in got) == f(x[:2] for x in want), 'costs of the contraction paths', len(got), len(want))
    check(cnt_key(oc[0]) == min(x[0] for x in want), 'optimal compute cost', oc[0], min(x[0] for x in want))
    check(cnt_key(os_[0]) == min(x[1] for x in want), 'optimal storage cost', os_[0])
    if len(ts) <= 3:
        for p in got:
            check(Counter(map(str, leaves(p[2])))[str(t.list_of_tensors[0])] >= 1, 'path', p[2])
    # the reported path attains the reported cost
    for which, o in ((0, oc), (1, os_)):
        check(any(cnt_key(p[which]) == cnt_key(o[0]) and p[2] == o[1] for p in got), 'path of the optimum', o)


def gen_sc(rng, tier):
    for _ in range(600 if tier == 'quick' else 6000):
        kind = rng.choice(['so', 'so', 'si', 'sa'])
        pool = rnd_labels(rng, 8, letters_of(kind) if kind == 'si' else 'gphvca')
        l = lambda: rng.sample(pool, rng.randrange(5))
        yield dict(kind=kind, a=[l(), l()], b=[l(), l()], c=[l(), l()], op=rng.random() < .3)


@clause('C16', 'shared-space', gen_sc, ['SpaceCounter.__init__', 'SpaceCounter.__lt__', 'SpaceCounter.transpose'])
def _(d):
    if SC is None:
        raise Skip()
    k = d['kind']
    A, C = mk_tensor('X', *d['a'], k, 'A'), mk_tensor('X', *d['c'], k, 'C')
    B = mk_op(*d['b'], k) if d['op'] else mk_tensor('X', *d['b'], k, 'B')
    x, y = SC(A, B), SC(A, C)
    letters = 'gphvca' if k == 'so' else O.LETTERS

    def spec(p, q):
        up = set(p[0]) & set(q[1])
        lo = set(p[1]) & set(q[0])
        return [sum(1 for i in up if i[0] == s) for s in letters], [sum(1 for i in lo if i[0] == s) for s in letters]
    sx, sy = spec(d['a'], d['b']), spec(d['a'], d['c'])
    for o, s in ((x, sx), (y, sy)):
        check((list(o.upper), list(o.lower)) == s, 'counts', o, s)
        check((o.n_upper, o.n_lower, o.size) == (sum(s[0]), sum(s[1]), sum(s[0]) + sum(s[1])), 'totals', o)
        t = o.transpose()
        check((list(t.upper), list(t.lower), t.n_upper, t.n_lower) == (s[1], s[0], sum(s[1]), sum(s[0])) and (list(o.upper), list(o.lower)) == s, 'transpose', t)
    kx, ky = (sum(sx[0]) + sum(sx[1]),) + sx, (sum(sy[0]) + sum(sy[1]),) + sy
    check((x == y) == (sx == sy) and (x != y) == (sx != sy) and (x < y) == (kx < ky) and (x <= y) == (kx <= ky) and (x > y) == (kx > ky) and (x >= y) == (kx >= ky), 'comparison', x, y)
    expect((TypeError, ValueError), lambda: SC(A, mk_tensor('X', ['g0'], ['g1'], 'si' if k != 'si' else 'so')), 'mixed kinds')
    expect(TypeError, lambda: SC(A, 3), 'no tensor')
    expect(TypeError, lambda: x < 3, 'comparison')

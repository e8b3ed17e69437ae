from c07 import *
import harness
harness.CLAUSES.pop('C07', None)


def gen(rng, tier):
    for ops in FIXED:
        n = ops_size(ops)
        for m in (1, 2, 3):
            for lo in range(0, n + 1, 1):
                yield dict(ops=ops, max_cu=m, lo=lo, hi=min(n, lo + 2), expand=False)
            yield dict(ops=ops, max_cu=m, lo=0, hi=n, expand=True)
    t = [[['h0'], ['p0']], [['g0'], ['g1']], [['p1'], ['h1']], [['p2'], ['h2']]]
    yield dict(ops=t, max_cu=1, lo=0, hi=6, expand=False)
    for _ in range(900 if tier == 'quick' else 15000):
        k = rng.choice([1, 2, 2, 2, 3, 3, 3, 4])
        ops = rnd_ops(rng, k, rng.choice([1, 2, 2, 3]) if k < 3 else rng.choice([1, 1, 2]), rng.choice(['gphvca', 'ga', 'gpha', 'cva', 'g', 'a']))
        lo, hi = bounds(rng, ops_size(ops))
        yield dict(ops=ops, max_cu=rng.randrange(0, 5), lo=lo, hi=hi, expand=rng.random() < .5)


@clause('C09', 'connected', gen, ['compute_operator_contractions_connected', 'contracted_operator_backtrack_macro', '_prune_available_contracted_operator', 'compute_operator_contractions'])
def _(d):
    n = len(d['ops'])
    args = d['ops'], d['max_cu'], d['lo'], d['hi'], d['expand']
    want = spec_contractions(*args, lambda c: O.connected_with_pair(n, c))
    if len(want) > 6000:
        raise Skip()
    sq = mk_ops(d['ops'])
    g = normal(read_contractions(SC.compute_operator_contractions(sq, d['max_cu'], d['hi'], d['lo'], True, d['expand'])))
    w = normal(want)
    check([d_op(o) for o in sq] == [(tuple(c), tuple(a)) for c, a in d['ops']], 'operators modified')
    if g == w:
        return
    if n >= 4:
        w2 = normal(spec_contractions(*args, lambda c: O.connected_with_pair(n, c) and O.prefix_connected(n, c)))
        if g == w2:
            raise Known('F-CONNECTED')
    raise Fail('connected contractions: ' + diff(g, w))


def gen_red(rng, tier):
    for ops in FIXED:
        if len(ops) == 2:
            for m in (1, 2, 3):
                yield dict(ops=ops, max_cu=m)
    for _ in range(200 if tier == 'quick' else 3000):
        ops = rnd_ops(rng, 2, 2, rng.choice(['gphvca', 'ga', 'gpha', 'g', 'a']), lo=1, balanced=1.)
        yield dict(ops=ops, max_cu=rng.randrange(1, 4))


@clause('C09', 'commutator-unchanged', gen_red, ['compute_operator_contractions', 'compute_operator_contractions_connected'])
def _(d):
    """AB - BA is the same with all contractions and with the connected ones (number-conserving operators)"""
    n = ops_size(d['ops'])
    out = []
    for flag in (False, True):
        tot = Counter()
        for s, ops in ((1, d['ops']), (-1, d['ops'][::-1])):
            for sign, dens, cre, ann in read_contractions(SC.compute_operator_contractions(mk_ops(ops), d['max_cu'], n, 0, flag, True)):
                k, v = O.norm_contraction(sign, dens, cre, ann)
                tot[k] += s * v
            if sum(1 for _ in tot) > 8000:
                raise Skip()
        out.append({k: v for k, v in tot.items() if v})
    check(out[0] == out[1], 'commutator changes', [(k, out[0].get(k), out[1].get(k)) for k in set(out[0]) ^ set(out[1])][:3])


def gen_empty(rng, tier):
    yield dict(ops=[[['c0'], ['c1']], [['v0'], ['v1']]], max_cu=2)
    yield dict(ops=[[['c0'], ['v1']]], max_cu=2)
    yield dict(ops=[[['v0'], ['c1']], [['v2'], ['c3']]], max_cu=3)


@clause('C09', 'nothing-to-contract', gen_empty, ['compute_operator_contractions_connected'])
def _(d):
    check(read_contractions(SC.compute_operator_contractions(mk_ops(d['ops']), d['max_cu'], 8, 0, True)) == [], 'nothing can be contracted')

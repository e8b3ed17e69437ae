from wick import *


def ops_size(ops):
    return sum(len(c) + len(a) for c, a in ops)


def bounds(rng, n):
    """requested (min, max) numbers of open operators"""
    r = rng.random()
    if r < .35:
        return 0, n
    if r < .5:
        return 0, 6
    lo = rng.randrange(0, n + 1)
    return (lo, rng.randrange(lo, n + 2)) if r < .9 else (lo, rng.randrange(0, n + 1))


def gen(rng, tier):
    for ops in FIXED:
        n = ops_size(ops)
        for m in (1, 2, 3):
            for lo in range(0, n + 1):
                for hi in sorted({lo, min(lo + 2, n), n, n + 1}):
                    yield dict(ops=ops, max_cu=m, lo=lo, hi=hi)
    for _ in range(1200 if tier == 'quick' else 20000):
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        ops = rnd_ops(rng, k, rng.choice([1, 2, 2, 3]) if k < 3 else rng.choice([1, 1, 2]), rng.choice(['gphvca', 'ga', 'gpha', 'cva', 'g', 'a']))
        lo, hi = bounds(rng, ops_size(ops))
        yield dict(ops=ops, max_cu=rng.randrange(0, 5), lo=lo, hi=hi)


def sets_of(cons):
    c = Counter()
    for sign, dens, cre, ann in cons:
        (d, cr, an), _ = O.norm_contraction(1, dens, cre, ann)
        c[(d, cr, an)] += 1
    return c


@clause('C07', 'general', gen, ['compute_operator_contractions_general', 'composite_contractions_backtrack', 'compute_compatible_elementary_contractions_list', 'compute_operator_contractions'])
def _(d):
    ops = d['ops']
    want = sets_of(spec_contractions(ops, d['max_cu'], d['lo'], d['hi'], False))
    if sum(want.values()) > 6000:
        raise Skip()
    sq = mk_ops(ops)
    got = sets_of(read_contractions(SC.compute_operator_contractions(sq, d['max_cu'], d['hi'], d['lo'], False, False)))
    check(got == want, 'contractions', diff(got, want))
    check([d_op(o) for o in sq] == [(tuple(c), tuple(a)) for c, a in ops], 'operators modified')


def gen_cat(rng, tier):
    for ops in FIXED:
        for m in (1, 2, 3):
            yield dict(ops=ops, max_cu=m, pick=0, seed=0)
    for _ in range(500 if tier == 'quick' else 8000):
        k = rng.choice([2, 2, 3, 3, 4])
        ops = rnd_ops(rng, k, rng.choice([1, 2, 3]) if k < 3 else rng.choice([1, 1, 2]), rng.choice(['gphvca', 'ga', 'gpha', 'g', 'a']))
        yield dict(ops=ops, max_cu=rng.randrange(1, 4), pick=rng.randrange(1, 5), seed=rng.randrange(10 ** 6))


def build(d):
    cat = {}
    for key, k, u, l in O.elementary(d['ops'], d['max_cu']):
        cat.setdefault(key, []).append((k, u, l))
    if not cat or sum(map(len, cat.values())) > 160:
        raise Skip()
    rng = random.Random(d['seed'])
    seq = sorted(cat, key=lambda x: (len(x), x), reverse=True)
    if d['seed'] % 3 == 1:
        rng.shuffle(seq)
    real = {c: [mk_tensor(k, u, l) for k, u, l in cat[c]] for c in cat}
    return rng, cat, seq, real


@clause('C07', 'codes', gen_cat, ['ElementaryContractionCategorized.encode', 'ElementaryContractionCategorized.decode', 'ElementaryContractionCategorized.find_category', 'ElementaryContractionCategorized.category_range', 'ElementaryContractionCategorized.size'])
def _(d):
    rng, cat, seq, real = build(d)
    e = SC.ElementaryContractionCategorized(real, seq)
    codes = []
    for c in seq:
        r = list(e.category_range(c))
        check(len(r) == len(real[c]), 'size of a category range', c, r)
        for s, t in enumerate(real[c]):
            code = e.encode(c, s)
            check(r[s] == code, 'category range disagrees with encode', c, s, r[s], code)
            check(e.decode(code) is t or d_tensor(e.decode(code)) == d_tensor(t), 'decode(encode)', c, s)
            check(e.find_category(code) == c, 'find_category(encode)', c, s, e.find_category(code))
            codes.append(code)
    check(len(set(codes)) == len(codes), 'two contractions share a code', sorted(codes))
    check(e.size() == len(codes), 'size', e.size(), len(codes))
    check(list(e.categories) == list(seq) and e.ele_con == real, 'attributes')
    check(SC.ElementaryContractionCategorized({}, []).size() == 0, 'size of an empty object')


@clause('C07', 'selections', gen_cat, ['ElementaryContractionCategorized.composite_contractions', 'ElementaryContractionCategorized.composite_contractions_backtrack', 'ElementaryContractionCategorized.compatible_elementary_contractions'])
def _(d):
    rng, cat, seq, real = build(d)
    e = SC.ElementaryContractionCategorized(real, seq)
    flat = {e.encode(c, s): (c, set(('u', x) for x in u) | set(('l', x) for x in l))
            for c in seq for s, (k, u, l) in enumerate(cat[c])}
    comp = e.compatible_elementary_contractions()
    for i in flat:
        w = {j for j in flat if not flat[i][1] & flat[j][1]}
        check(set(comp.get(i, ())) == w, 'compatible contractions of', i, sorted(comp.get(i, ())), sorted(w))
    target = Counter(rng.choice(seq) for _ in range(d['pick'])) if d['pick'] else Counter(seq[:1])
    cats = sorted(target)
    opts = []
    n = 1
    for c in cats:
        codes = [i for i in flat if flat[i][0] == c]
        o = list(itertools.combinations(codes, target[c]))
        n *= max(1, len(o))
        opts.append(o)
    if n > 6000:
        raise Skip()
    want = Counter()
    for p in itertools.product(*opts):
        sel = [i for x in p for i in x]
        if all(not flat[a][1] & flat[b][1] for a, b in itertools.combinations(sel, 2)):
            want[frozenset(sel)] += 1
    for arg in (comp, None):
        t = Counter(target)
        got = Counter()
        for x in (e.composite_contractions(t) if arg is None else e.composite_contractions(t, arg)):
            check(len(set(x)) == len(list(x)), 'a contraction chosen twice', list(x))
            got[frozenset(x)] += 1
        check(got == want, f"selections for {dict(target)}", diff(got, want))
        check(t == target, 'the target was changed', t, target)
        if arg is not None:
            check(all(set(comp.get(i, ())) == {j for j in flat if not flat[i][1] & flat[j][1]} for i in flat), 'compatibility table changed')


def gen_list(rng, tier):
    for ops in FIXED:
        yield dict(ops=ops, max_cu=2)
    for _ in range(150 if tier == 'quick' else 1500):
        yield dict(ops=rnd_ops(rng, 3, 2, 'ga'), max_cu=2)


@clause('C07', 'compatible-list', gen_list, ['compute_compatible_elementary_contractions_list'])
def _(d):
    ele = O.elementary(d['ops'], d['max_cu'])
    if len(ele) > 300:
        raise Skip()
    got = SC.compute_compatible_elementary_contractions_list([mk_tensor(k, u, l) for _, k, u, l in ele])
    for i, (_, _, u, l) in enumerate(ele):
        w = {j for j, (_, _, u2, l2) in enumerate(ele) if j != i and not set(u) & set(u2) and not set(l) & set(l2)}
        check(set(got.get(i, ())) - {i} == w, 'compatible contractions of', ele[i], sorted(w))

from c07 import *
import harness
harness.CLAUSES.pop('C07', None)


def gen(rng, tier):
    for ops in FIXED:
        for m in (1, 2, 3):
            for e in (True, False):
                yield dict(ops=ops, max_cu=m, lo=0, hi=ops_size(ops), expand=e)
    for _ in range(900 if tier == 'quick' else 15000):
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        ops = rnd_ops(rng, k, rng.choice([1, 2, 2, 3]) if k < 3 else rng.choice([1, 1, 2]), rng.choice(['gphvca', 'ga', 'gpha', 'cva', 'g', 'a']))
        lo, hi = bounds(rng, ops_size(ops))
        yield dict(ops=ops, max_cu=rng.randrange(0, 5), lo=lo, hi=hi, expand=rng.random() < .6)


def signs(got, want, what):
    g, w = normal(got), normal(want)
    # judge only what was produced: completeness is C07 / C09
    wk = {}
    for (k, s), n in w.items():
        wk.setdefault(k, Counter())[s] += n
    for (k, s), n in g.items():
        if k not in wk:
            raise Fail(f"{what}: produced {k} with sign {s}, which is not in the expansion")
        if not wk[k][s]:
            raise Fail(f"{what}: sign {s} instead of {dict(wk[k])} for {k}")
    return g, w


@clause('C08', 'general', gen, ['compute_operator_contractions_general', 'process_composite_contractions', 'generate_base_order_map', 'expand_hole_densities', 'HoleDensity.expand'])
def _(d):
    want = spec_contractions(d['ops'], d['max_cu'], d['lo'], d['hi'], d['expand'])
    if len(want) > 6000:
        raise Skip()
    got = read_contractions(SC.compute_operator_contractions(mk_ops(d['ops']), d['max_cu'], d['hi'], d['lo'], False, d['expand']))
    g, w = signs(got, want, 'general contraction')
    check(g == w, 'general contraction', diff(g, w))
    for sign, dens, cre, ann in got:
        check(list(cre) == sorted(cre, key=O.key) and list(ann) == sorted(ann, key=O.key), 'remaining operator not ascending', cre, ann)


@clause('C08', 'connected', gen, ['compute_operator_contractions_connected', 'process_composite_categorized', 'generate_base_order_map', 'expand_hole_densities'])
def _(d):
    n = len(d['ops'])
    want = spec_contractions(d['ops'], d['max_cu'], d['lo'], d['hi'], d['expand'], lambda c: O.connected_with_pair(n, c))
    if len(want) > 6000:
        raise Skip()
    got = read_contractions(SC.compute_operator_contractions(mk_ops(d['ops']), d['max_cu'], d['hi'], d['lo'], True, d['expand']))
    signs(got, want, 'connected contraction')
    for sign, dens, cre, ann in got:
        check(list(cre) == sorted(cre, key=O.key) and list(ann) == sorted(ann, key=O.key), 'remaining operator not ascending', cre, ann)


def gen_exp(rng, tier):
    for r in range(0, 4):
        for spaces in itertools.product('gvac', repeat=r):
            yield dict(c=[[s + str(i), rng.choice('gvac') + str(i + 10)] for i, s in enumerate(spaces)], extra=r % 3)
    for _ in range(200):
        yield dict(c=[[rng.choice('gphvca') + str(i), rng.choice('gphvca') + str(i + 10)] for i in range(rng.randrange(5))], extra=rng.randrange(3))


@clause('C08', 'hole-expansion', gen_exp, ['expand_hole_densities'])
def _(d):
    ts = [('C', (u,), (l,)) for u, l in d['c']]
    ts += [('L', ('a20', 'a21'), ('a22', 'a23')), ('L', ('g30',), ('g31',))][:d['extra']]
    random.Random(str(d)).shuffle(ts)
    tensors = [mk_tensor(*t) for t in ts]
    got = Counter((s, tuple(sorted(dens_of(t) for t in x))) for s, x in SC.expand_hole_densities(tensors))
    want = Counter((s, tuple(sorted(x))) for s, x in O.expand_holes(1, ts))
    check(got == want, 'expansion', diff(got, want))
    check([dens_of(t) for t in tensors] == ts, 'list of tensors changed')


# ground truth: the operators as matrices on the Fock space of one determinant
def gen_fock(rng, tier):
    for _ in range(150 if tier == 'quick' else 1200):
        k = rng.choice([2, 2, 2, 3])
        ops = []
        n = [0]
        for _ in range(k):
            r = rng.choice([1, 1, 2]) if k == 2 else 1
            nc, na = r, r
            if rng.random() < .2:
                nc = rng.randrange(0, 3)
            c, a = [], []
            for lst, m in ((c, nc), (a, na)):
                for _ in range(m):
                    lst.append(rng.choice('gphvca') + str(n[0]))
                    n[0] += 1
            ops.append([c, a])
        if n[0] == 0:
            continue
        # orbitals: 0, 1 core; 2 active occupied; 3 active empty; 4, 5 virtual
        where = dict(c=[0, 1], v=[4, 5], a=[2, 3], h=[0, 1, 2, 3], p=[2, 3, 4, 5], g=[0, 1, 2, 3, 4, 5])
        orb = {i: rng.choice(where[i[0]]) for c, a in ops for i in c + a}
        yield dict(ops=ops, orb=orb)


@clause('C08', 'fock-space', gen_fock, ['compute_operator_contractions_general', 'process_composite_contractions'])
def _(d):
    """With one determinant as the reference (one-body cumulant = occupation, no higher cumulants) the sum of all
    contractions on given orbitals is the matrix product of the operators."""
    ops, orb = d['ops'], d['orb']
    occ = {0, 1, 2}
    f = O.Fock(occ, 6)
    prod = None
    for c, a in ops:
        m = f.matrix([orb[i] for i in c], [orb[i] for i in a])
        prod = m if prod is None else O.mat_mul(prod, m)
    got = {}
    for sign, dens, cre, ann in read_contractions(SC.compute_operator_contractions(mk_ops(ops), 1, ops_size(ops), 0, False, False)):
        v = sign
        for k, u, l in dens:
            same = orb[u[0]] == orb[l[0]]
            o = orb[u[0]] in occ
            v *= int(same and (o if k == 'L' else not o))
        if v:
            f.matrix([orb[i] for i in cre], [orb[i] for i in ann], v, got)
    check(got == prod, 'matrix of the contracted operators differs from the product of the matrices', sorted(got.items())[:5], sorted(prod.items())[:5])

from physics import *


def up(i):
    return i[0].upper() + i[1:]


def spin_assign(l, n_beta=None):
    return [tuple(up(i) if s else i for i, s in zip(l, ss)) for ss in itertools.product((0, 1), repeat=len(l)) if n_beta is None or sum(ss) == n_beta]


# ---------------------------------------------------------------- spin cases
def gen_lists(rng, tier):
    for n in range(0, 6 if tier == 'quick' else 8):
        for _ in range(6):
            l = rnd_labels(rng, n)
            yield dict(l=l, nb=None)
            for k in range(n + 1):
                yield dict(l=l, nb=k)


@clause('C14', 'list-cases', gen_lists, ['IndicesSpinOrbital.generate_spin_cases'], share=.4)
def _(d):
    ind = mk_ind(d['l'])
    got = list(ind.generate_spin_cases() if d['nb'] is None else ind.generate_spin_cases(d['nb']))
    check(all(type(x) is IndicesSpinIntegrated for x in got), 'kind')
    check(sorted(map(names, got)) == sorted(spin_assign(d['l'], d['nb'])), 'spin cases', list(map(names, got)))
    check(names(ind) == tuple(d['l']), 'modified')
    if d['nb'] is not None:
        expect(ValueError, lambda: list(ind.generate_spin_cases(len(d['l']) + 1)), 'too many betas')
        expect(TypeError, lambda: list(ind.generate_spin_cases('1')), 'no number')
    expect(TypeError, lambda: list(mk_ind(d['l'], 'si').generate_spin_cases()), 'spin-integrated list')


def gen_pairs(rng, tier):
    for _ in range(150 if tier == 'quick' else 2500):
        n = rng.choice([0, 1, 1, 2, 2, 3])
        m = n if rng.random() < .8 else rng.choice([0, 1, 2, 3])
        k = rng.choice('PPSSXHTLCK')
        if k in 'CK':
            n = m = 1
        u, l = rnd_labels(rng, n), rnd_labels(rng, m)
        if k in 'HTLCK' and not tensor_ok(k, u, l):
            continue
        yield dict(k=k, u=u, l=l, cons=rng.random() < .6)


@clause('C14', 'pair-cases', gen_pairs, ['IndicesPair.generate_spin_cases', 'IndicesPair.generate_spin_cases_indices', 'Tensor.generate_spin_cases', 'SecondQuantizedOperator.generate_spin_cases'])
def _(d):
    u, l, k = d['u'], d['l'], d['k']
    name, prio = None, None
    if k == 'P':
        o = IndicesPair(u, l, 'so')
    elif k == 'S':
        o = mk_op(u, l)
    else:
        name, prio = 'Q7', 5
        o = mk_tensor(k, u, l, 'so', name, prio)
    if d['cons'] and len(u) != len(l):
        expect(ValueError, lambda: list(o.generate_spin_cases(True)), 'cannot conserve')
        return
    if not d['cons'] and k in 'HTLCK':
        raise Skip()          # their constructors refuse spin-non-conserving indices
    got = list(o.generate_spin_cases(d['cons']) if not d['cons'] else o.generate_spin_cases())
    want = [(a, b) for a in spin_assign(u) for b in spin_assign(l) if not d['cons'] or sum(map(O.is_beta, a)) == sum(map(O.is_beta, b))]
    check(all(type(x) is type(o) and x.indices_type is IndicesSpinIntegrated for x in got), 'kind', got)
    check(sorted((names(x.upper_indices), names(x.lower_indices)) for x in got) == sorted(want), 'cases', got)
    if name:
        check(all(x.name == name and x.priority == prio for x in got), 'name or priority lost')
    check((names(o.upper_indices), names(o.lower_indices)) == (tuple(u), tuple(l)), 'modified')
    si = {'P': lambda: IndicesPair(u, l, 'si'), 'S': lambda: mk_op(u, l, 'si')}.get(k)
    if si:
        expect(TypeError, lambda: list(si().generate_spin_cases()), 'spin-integrated input')


def gen_term(rng, tier):
    import c12
    n = 0
    while n < (60 if tier == 'quick' else 1500):
        t = c12.rnd_connected(rng)
        if t is None or c12.n_index(t) > 6 or all(x[0] == 'K' for x in t[1]) or not t[1]:
            continue
        n += 1
        yield dict(t=t)


@clause('C14', 'term-cases', gen_term, ['Term.generate_spin_cases_naive'], share=1.2)
def _(d):
    c, ts, op = d['t']
    idx = sorted({i for k, n, u, l in ts for i in u + l} | set(op[0]) | set(op[1]))
    raw = []
    for ss in itertools.product((0, 1), repeat=len(idx)):
        m = {i: up(i) if s else i for i, s in zip(idx, ss)}
        f = lambda l: [m[i] for i in l]
        t2 = [(k, n, f(u), f(l)) for k, n, u, l in ts]
        o2 = (f(op[0]), f(op[1]))
        if all(spin_conserving(u, l) for k, n, u, l in t2) and spin_conserving(*o2):
            raw.append((c, t2, o2))
    want = Counter(repr(d_term(mk_term(x, 'si').canonicalize())) for x in raw)
    term = mk_term((c, ts, op))
    before = d_term(term)
    got = list(term.generate_spin_cases_naive())
    check(all(x.sq_op.indices_type is IndicesSpinIntegrated for x in got), 'kind')
    check(Counter(repr(d_term(x)) for x in got) == want, 'spin cases of a term', sorted(Counter(repr(d_term(x)) for x in got).items())[:3], sorted(want.items())[:3])
    check(d_term(term) == before, 'modified')
    expect(TypeError, lambda: list(mk_term(raw[0], 'si').generate_spin_cases_naive()), 'spin-integrated term')


# ---------------------------------------------------------------- singlet adaptation
def adapt(u, l, rep, alpha_major):
    """[(sign, upper, lower)] by definition"""
    su, s1 = O.sort_sign(u)
    sl, s2 = O.sort_sign(l)

    def split(x):
        al, be = [i for i in x if not O.is_beta(i)], [i for i in x if O.is_beta(i)]
        swap = len(be) > len(al) if alpha_major else len(al) > len(be)
        return (be, al) if swap else (al, be)
    m1, m2 = split(su)
    n1, n2 = split(sl)
    out = []
    for a in itertools.permutations(range(len(n1))):
        for b in itertools.permutations(range(len(n2))):
            out.append((s1 * s2 * O.parity(a) * O.parity(b), tuple(rep[i] for i in m1 + m2), tuple([rep[n1[x]] for x in a] + [rep[n2[x]] for x in b])))
    return out


def si_pair(rng, n):
    for _ in range(200):
        u, l = rnd_labels(rng, n, 'gphvcaGPHVCA'), rnd_labels(rng, n, 'gphvcaGPHVCA')
        if spin_conserving(u, l) and not set(u) & set(l):
            return u, l


def rep_map(idx):
    nxt = {s: max([int(i[1:]) + 1 for i in idx if i[0] == s], default=0) for s in 'gphvca'}
    rep = {}
    for i in idx:
        if O.is_beta(i):
            s = i[0].lower()
            rep[i] = s + str(nxt[s])
            nxt[s] += 1
        else:
            rep[i] = i
    return rep


def gen_adapt(rng, tier):
    for _ in range(250 if tier == 'quick' else 3000):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4])
        p = si_pair(rng, n)
        if p:
            yield dict(u=p[0], l=p[1], k=rng.choice('PSX'), major=rng.random() < .5)
    yield dict(u=['g0', 'G1'], l=['g1', 'g2'], k='P', major=True)
    yield dict(u=[], l=[], k='S', major=True)


@clause('C14', 'adapt-pair', gen_adapt, ['IndicesPair.generate_singlet_adaptation'])
def _(d):
    u, l = d['u'], d['l']
    o = IndicesPair(u, l, 'si') if d['k'] == 'P' else mk_op(u, l, 'si') if d['k'] == 'S' else mk_tensor('X', u, l, 'si', 'X')
    rep = rep_map(u + l)
    r = {Index(k): Index(v) for k, v in rep.items()}
    if not spin_conserving(u, l):
        expect(ValueError, lambda: list(o.generate_singlet_adaptation(r)), 'unequal betas')
        return
    got = [(s, names(a), names(b)) for s, a, b in (o.generate_singlet_adaptation(r) if d['major'] else o.generate_singlet_adaptation(r, False))]
    check(Counter(got) == Counter(adapt(u, l, rep, d['major'])), 'singlet adaptation', got)
    check((names(o.upper_indices), names(o.lower_indices)) == (tuple(u), tuple(l)), 'modified')


def groups(ops, ts):
    """open-index partition by definition"""
    if len(ops) <= 1:
        return [list(ops)]
    out = {}
    for i in sorted(ops, key=O.key):
        for t, (k, n, u, l) in enumerate(ts):
            if i in u or i in l:
                out.setdefault((t, i[0]), []).append(i)
    return list(out.values())


def multinomial(g):
    from math import factorial
    n = factorial(sum(map(len, g)))
    for x in g:
        n //= factorial(len(x))
    return n


def arrangements(ops, part, same_spin):
    """every distinct distribution of positions over groups, the order inside a group kept"""
    part = [x for x in part if x]
    lab = [k for k, x in enumerate(part) for _ in x]
    out = []
    for p in set(itertools.permutations(lab)):
        nxt = [0] * len(part)
        l = []
        for k in p:
            l.append(part[k][nxt[k]])
            nxt[k] += 1
        if same_spin and [O.is_beta(i) for i in l] != [O.is_beta(i) for i in ops]:
            continue
        pos = {i: x for x, i in enumerate(ops)}
        out.append((O.parity([pos[i] for i in l]), tuple(l)))
    return out


def gen_tadapt(rng, tier):
    import c12
    H = lambda u, l: ['H', 'H', u, l]
    T = lambda u, l: ['T', 'T', u, l]
    for major in (True, False):
        yield dict(t=[1.0, [H(['g0', 'G0'], ['g1', 'G1'])], [['g1', 'G1'], ['g0', 'G0']]], major=major)
        yield dict(t=[.5, [H(['g0', 'G0'], ['g1', 'G2'])], [['g1', 'G2'], ['g0', 'G0']]], major=major)
        yield dict(t=[-1.0, [H(['G0'], ['G1'])], [['G1'], ['G0']]], major=major)
        yield dict(t=[1.0, [H(['v0', 'V0'], ['v1', 'V1']), T(['c0', 'C0'], ['v0', 'V0'])], [['v1', 'V1'], ['c0', 'C0']]], major=major)
        yield dict(t=[1.0, [H(['v0'], ['v1']), T(['c0', 'C0'], ['v0', 'V0'])], [['v1', 'V0'], ['c0', 'C0']]], major=major)
    n = 0
    while n < (80 if tier == 'quick' else 1500):
        t = c12.rnd_connected(rng)
        if t is None or c12.n_index(t) > 8 or any(x[0] == 'K' for x in t[1]) or not t[1]:
            continue
        t = c12.add_spin(rng, t)
        if t is None or not spin_conserving(*t[2]):
            continue
        n += 1
        yield dict(t=t, major=rng.random() < .5)


@clause('C14', 'adapt-term', gen_tadapt, ['Term.generate_singlet_adaptation', 'SecondQuantizedOperator.permute_indices'], share=1.2)
def _(d):
    c, ts, op = d['t']
    term = mk_term((c, ts, op), 'si')
    ts = [d_tensor(x) for x in term.list_of_tensors]
    pc, pa = groups(op[0], ts), groups(op[1], ts)
    n = multinomial(pc) * multinomial(pa)
    idx = sorted({i for k, nm, u, l in ts for i in u + l} | set(op[0]) | set(op[1]))
    rep = rep_map(idx)
    want, k = [], 0
    for s1, cr in arrangements(op[0], pc, True):
        for s2, an in arrangements(op[1], pa, True):
            for pick in itertools.product(*[adapt(u, l, rep, d['major']) for u, l in [(cr, an)] + [x[2:] for x in ts]]):
                s = s1 * s2
                for x in pick:
                    s *= x[0]
                k += 1
                if k > 400:
                    raise Skip()
                want.append((s * c / n, [(t[0], t[1]) + x[1:] for t, x in zip(ts, pick[1:])], pick[0][1:]))
    before = d_term(term)
    got = list(term.generate_singlet_adaptation() if d['major'] else term.generate_singlet_adaptation(False))
    check(all(x.sq_op.indices_type is IndicesSpinAdapted for x in got), 'kind')
    w = Counter(repr(d_term(mk_term(x, 'sa').canonicalize())) for x in want)
    g = Counter(repr(d_term(x)) for x in got)
    if g != w:       # the choice of new labels may differ; the sum of the terms may not
        m = O.Model(11, dict(c=1, a=2, v=1), True, adapted=True)
        import c12
        check(len(got) == len(want), 'number of terms', len(got), len(want))
        if c12.cost([c, want[0][1], want[0][2]], dict(c=1, a=2, v=1)) * len(want) > 60000:
            raise Skip()
        v1 = c12.norm_sa(O.evaluate_sum([d_term(x) for x in got], m, False))
        v2 = c12.norm_sa(O.evaluate_sum(want, m, False))
        check(v1 == v2, 'singlet adaptation of a term', sorted(g.items())[:3], sorted(w.items())[:3])
    check(d_term(term) == before, 'modified')
    expect(TypeError, lambda: list(mk_term((1.0, [('H', 'H', ['g0'], ['g1'])], (['g1'], ['g0']))).generate_singlet_adaptation()), 'spin-orbital term')

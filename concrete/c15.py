import re
from math import factorial
from physics import *
from c14 import groups, multinomial, arrangements
import c12
harness.CLAUSES.pop('C14', None)
harness.CLAUSES.pop('C12', None)


# ---------------------------------------------------------------- lists
def gen_list(rng, tier):
    for _ in range(500 if tier == 'quick' else 6000):
        n = rng.choice([0, 1, 2, 3, 3, 4, 4, 5])
        kind = rng.choice(['so', 'so', 'si', 'si', 'sa', 'asymm'])
        l = rnd_labels(rng, n, letters_of(kind) if kind in ('si',) else 'gphvca')
        pool = list(l)
        rng.shuffle(pool)
        part = []
        while pool:
            k = rng.randrange(1, len(pool) + 1)
            part.append(pool[:k])
            pool = pool[k:]
        yield dict(l=l, part=part or [[]], kind=kind)


def mk_list(l, kind):
    return IndicesAntisymmetric(list(l)) if kind == 'asymm' else mk_ind(l, kind)


@clause('C15', 'list-permutations', gen_list, ['Indices.n_multiset_permutation', 'IndicesAntisymmetric.exist_permute_format', 'IndicesAntisymmetric.latex_permute_format', 'IndicesAntisymmetric.ambit_permute_format', 'Indices._is_valid_partition'])
def _(d):
    l, kind = d['l'], d['kind']
    ind = mk_list(l, kind)
    part = [[Index(i) for i in g] for g in d['part']]
    anti = kind != 'sa'
    n = multinomial(d['part']) if anti else 1
    check(ind.exist_permute_format(part) == (anti and len(d['part']) > 1), 'exist_permute_format', d['part'])
    check(ind.n_multiset_permutation(part) == n, 'count', ind.n_multiset_permutation(part), n)
    k, s = ind.latex_permute_format(part)
    want = '' if n == 1 else '{\\cal P} ( ' + ' / '.join(' '.join(map(O.latex_index, g)) for g in d['part']) + ' )'
    check((k, s) == (n, want), 'latex', k, s, n, want)
    got = [(sg, tuple(x.split(',')) if x else ()) for sg, x in ind.ambit_permute_format(part)]
    exp = arrangements(l, d['part'], kind == 'si') if anti else [(1, tuple(l))]
    check(sorted(got) == sorted(exp), 'arrangements', sorted(got), sorted(exp))
    check(names(ind) == tuple(l), 'modified')
    if l:
        expect(ValueError, lambda: ind.n_multiset_permutation([[Index('g77')]]), 'foreign index')
        expect(TypeError, lambda: ind.exist_permute_format([['g0']]), 'no Index')


# ---------------------------------------------------------------- terms
def gen_terms(rng, tier):
    H = lambda u, l: ['H', 'H', u, l]
    T = lambda u, l: ['T', 'T', u, l]
    hand = [
        [1.0, [H(['g0'], ['g1'])], [['g1'], ['g0']]],
        [.25, [H(['g0', 'g1'], ['g2', 'g3'])], [['g2', 'g3'], ['g0', 'g1']]],
        [.5, [H(['h0', 'p0'], ['h1', 'p1'])], [['h1', 'p1'], ['h0', 'p0']]],
        [1.0, [H(['c0'], ['v0']), T(['c1'], ['v1'])], [['v0', 'v1'], ['c0', 'c1']]],
        [1.0, [H(['c0'], ['v0']), T(['c1', 'c2'], ['v1', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]],
        [1 / 3, [H(['c0', 'v9'], ['v0', 'v1']), T(['c1', 'c2'], ['v9', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]],
        [-.5, [H(['g0'], ['g1']), H(['g1'], ['g0'])], [[], []]],
    ]
    X = lambda n, u, l: ['X', n, u, l]
    hand += [
        [1.0, [X('R', ['p0', 'p1'], ['h0'])], [['h0'], ['p0', 'p1']]],
        [-.5, [X('R', ['v0', 'v1'], ['c0']), X('S', ['c1'], ['a0', 'v2'])], [['c0', 'v2', 'a0'], ['v0', 'v1', 'c1']]],
        [.5, [X('R', ['v0', 'v1', 'v2'], ['c0', 'v3']), H(['v3'], ['c1'])], [['c0', 'c1'], ['v0', 'v1', 'v2']]],
        [.25, [X('R', ['c0', 'c1', 'c2'], ['v0'])], [['v0'], ['c0', 'c1', 'c2']]],
    ]
    for t in hand:
        yield dict(t=t, kind='so', seed=1)
    for _ in range(60 if tier == 'quick' else 600):        # different numbers of creators and annihilators
        letters = rng.choice(['cv', 'hp', 'cva', 'g'])
        heavy = [('X', 'R', rng.randrange(1, 4), rng.randrange(1, 3))] + rng.choice([[], [('H', 'H', 1, 1)], [('X', 'S', rng.randrange(1, 3), rng.randrange(1, 3))]])
        nu, nl = sum(h[2] for h in heavy), sum(h[3] for h in heavy)
        k = rng.randrange(0, min(nu, nl))
        t = c12.connect(rng, letters, heavy, nl - k, nu - k)
        if t is not None and t[1] and t[2][0] and t[2][1]:
            yield dict(t=t, kind='so', seed=rng.randrange(10 ** 6))
    n = 0
    while n < (500 if tier == 'quick' else 8000):
        if rng.random() < .4:
            t = c12.rnd_connected(rng)
        else:
            letters = rng.choice(['cv', 'hp', 'gphvca', 'cva', 'g'])
            heavy = [(rng.choice('HHT'), 'A', r, r) for r in [rng.choice([1, 2, 2])]] + [(rng.choice('HTT'), 'B', r, r) for r in rng.choice([[1], [2], [1, 1], [1, 2]])]
            o = rng.choice([1, 2, 2, 3, 3])
            t = c12.connect(rng, letters, heavy, o, o)
        kind = rng.choice(['so', 'so', 'si'])
        if t is not None and kind == 'si':
            t = c12.add_spin(rng, t)
        if t is None or not t[1]:
            continue
        n += 1
        yield dict(t=t, kind=kind, seed=rng.randrange(10 ** 6))


def order(term):
    return d_term(term)[1]


@clause('C15', 'partition', gen_terms, ['Term.perm_partition_open', 'Term._perm_part_atomic'])
def _(d):
    term = mk_term(d['t'], d['kind'])
    ts = order(term)
    pc, pa = term.perm_partition_open()
    for got, ops in ((pc, d['t'][2][0]), (pa, d['t'][2][1])):
        g = [[i.name for i in x] for x in got]
        w = groups(ops, ts)
        check(sorted(map(sorted, g)) == sorted(map(sorted, w)), 'partition', ops, ts, g)
        check(sorted(i for x in g for i in x) == sorted(ops), 'partition is not a partition of the open indices', g, ops)
        check(all([O.key(i) for i in x] == sorted(O.key(i) for i in x) for x in g), 'group not ascending', g)


COEFF = re.compile(r'^-?\d+(/\d+)?$')


@clause('C15', 'latex', gen_terms, ['Term.latex', 'Term.format_coeff', 'SecondQuantizedOperator.latex_permute_format', 'SecondQuantizedOperator.latex'])
def _(d):
    term = mk_term(d['t'], d['kind'])
    c, ts, op = d_term(term)
    pc, pa = groups(op[0], ts), groups(op[1], ts)
    tens = ' '.join(f"{n}^{O.latex_list(u)}_{O.latex_list(l)}" for k, n, u, l in ts)
    body = f"a^{O.latex_list(op[0])}_{O.latex_list(op[1])}" if op[0] or op[1] else ''
    for dollar in (False, True):
        for perm in (True, False):
            for delim in (False, True):
                for back in (False, True):
                    s = term.latex(dollar, perm, delim, back)
                    if dollar:
                        check(s[0] == '$' and s[-1] == '$', 'dollar', s)
                        s = s[1:-1]
                    if back:
                        check(s.endswith(' \\\\'), 'backslash', s)
                        s = s[:-3]
                    n, ps = 1, []
                    if perm and body:
                        n = multinomial(pc) * multinomial(pa)
                        # the order of groups is free: read them back
                    head, rest = s.split(' ', 1)
                    check(COEFF.match(head), 'coefficient', s)
                    if delim:
                        check(rest.startswith('& '), 'delimiter', s)
                        rest = rest[2:]
                    cals = re.findall(r'\{\\cal P\} \( (.*?) \)', rest)
                    rest = re.sub(r'\{\\cal P\} \( .*? \) ?', '', rest).strip()
                    check(Fraction(head) * n == fr(c), 'coefficient times count', head, n, c)
                    want = []
                    if perm and body:
                        for p in (pc, pa):
                            if multinomial(p) > 1:
                                want.append(sorted(' '.join(map(O.latex_index, g)) for g in p))
                    check([sorted(x.split(' / ')) for x in cals] == want, 'permutations', cals, want)
                    if body or not perm:
                        tail = body or f"a^{O.latex_list(())}_{O.latex_list(())}"
                        check(rest in ((tens + ' ' + tail).strip(), tens if not body else None), 'tensors and operator', rest, tens, body)
                    else:
                        check(rest == tens, 'tensors', rest, tens)
    r = repr(term)
    check(r == term.latex(permute_format=False) and str(term) == r, 'repr')


# ---------------------------------------------------------------- ambit
STMT = re.compile(r'^(\w+)(?:\["([^"]*)"\])? (\+|-)= (.*);$')
FACT = re.compile(r'^(\w+)\["([^"]*)"\]$')


def parse_coeff(s):
    m = re.match(r'^\((-?\d+)\.0 / (\d+)\.0\)$', s)
    if m:
        return Fraction(int(m.group(1)), int(m.group(2)))
    m = re.match(r'^(-?\d+)\.0$', s)
    check(m, 'ambit coefficient', s)
    return Fraction(int(m.group(1)))


def run_ambit(text, env=None):
    """interpret ambit statements; env: name -> list of (coeff, factors, lhs indices); temp rebuilt by build"""
    env = {} if env is None else env
    for line in text.split('\n'):
        line = line.strip()
        if not line or line.startswith('//'):
            continue
        m = re.match(r'^(?:ambit::BlockedTensor |BlockedTensor |auto )?temp = ambit::BlockedTensor::build\(ambit::CoreTensor, "temp", \{"(\w*)"\}\);$', line)
        if m:
            env['temp'] = [('spaces', m.group(1))]
            continue
        for stmt in [x + ';' for x in line.split(';') if x.strip()]:
            m = STMT.match(stmt.strip())
            check(m, 'unknown ambit statement', line)
            lhs, li, sign, rhs = m.groups()
            s = 1 if sign == '+' else -1
            li = tuple(li.split(',')) if li else ()
            fs = rhs.split(' * ')
            if len(fs) == 1 and fs[0].startswith('temp['):
                ti = tuple(FACT.match(fs[0]).group(2).split(','))
                check('temp' in env, 'temp used before it is declared', line)
                for e in env['temp'][1:]:
                    ren = dict(zip(e[2], ti))
                    check(e[2] == ti, 'temp read with other indices than written', e[2], ti)
                    env.setdefault(lhs, []).append((s * e[0], e[1], li))
                continue
            c = parse_coeff(fs[0])
            fac = []
            for f in fs[1:]:
                g = FACT.match(f)
                check(g, 'factor', f)
                fac.append((g.group(1), tuple(g.group(2).split(','))))
            if lhs == 'temp':
                check('temp' in env, 'temp used before it is declared', line)
                check(''.join(i[0] for i in li) == env['temp'][0][1], 'temp spaces', li, env['temp'][0])
            env.setdefault(lhs, []).append((s * c, fac, li))
    return env


def ambit_name(k, n, u, l):
    return f"{n}{len(u)}" if len(u) == len(l) else f"{n}_{len(u)}_{len(l)}"


def ambit_index(k, u, l):
    if k == 'T' and (any('v' in O.ELEM[i[0].lower()] for i in u) or any('c' in O.ELEM[i[0].lower()] for i in l)):
        return tuple(l) + tuple(u)       # amplitudes are stored hole indices first
    return tuple(u) + tuple(l)


def check_terms(entries, ts, op, coeff, kind, seed, what):
    """the accumulated target equals nc! na! (per spin) times the antisymmetrized term"""
    nm = sorted((ambit_name(*t), ambit_index(t[0], t[2], t[3])) for t in ts)
    acc = []
    for c, fac, li in entries:
        check(sorted(fac) == nm, what + ': factors', fac, nm)
        an, cr = li[:len(op[1])], li[len(op[1]):]
        check(sorted(an) == sorted(op[1]) and sorted(cr) == sorted(op[0]), what + ': target indices', li, op)
        check([O.is_beta(i) for i in an] == [O.is_beta(i) for i in op[1]] and [O.is_beta(i) for i in cr] == [O.is_beta(i) for i in op[0]], what + ': spin pattern', li)
        pos = {i: x for x, i in enumerate(op[1])}
        s = O.parity([pos[i] for i in an])
        pos = {i: x for x, i in enumerate(op[0])}
        s *= O.parity([pos[i] for i in cr])
        acc.append((c * s, an, cr))
    f = 1
    for l in op:
        b = sum(map(O.is_beta, l))
        f *= factorial(b) * factorial(len(l) - b)
    check(sum(x[0] for x in acc) == fr(coeff) * f, what + ': total weight', acc, coeff, f)
    check(len({x[1:] for x in acc}) == len(acc), what + ': an arrangement appears twice', acc)
    check(len({x[0] for x in acc}) <= 1, what + ': arrangements with different weights', acc)


@clause('C15', 'ambit', gen_terms, ['Term.ambit', 'Term.format_coeff', 'Tensor.ambit', 'ClusterAmplitude.ambit', 'SecondQuantizedOperator.ambit_permute_format', 'SecondQuantizedOperator.permute_indices'], share=1.3)
def _(d):
    term = mk_term(d['t'], d['kind'])
    before = d_term(term)
    c, ts, op = before
    pc, pa = groups(op[0], ts), groups(op[1], ts)
    has = len(pc) > 1 or len(pa) > 1
    arr = [tuple(a) + tuple(b) for _, a in arrangements(op[1], pa, d['kind'] == 'si') for _, b in arrangements(op[0], pc, d['kind'] == 'si')]
    li = tuple(op[1]) + tuple(op[0])
    for name in ('C', 'Hbar'):
        real = name + str(len(op[1])) if len(op[0]) == len(op[1]) else f"{name}_{len(op[1])}_{len(op[0])}"
        # everything in one go
        env = run_ambit(term.ambit(name))
        check(real in env and set(env) <= {real, 'temp'}, 'target name', list(env), real)
        check(('temp' in env) == has, 'temp is used exactly for permutations', has)
        check_terms(env[real], ts, op, c, d['kind'], d['seed'], 'ambit')
        check(sorted(e[2] for e in env[real]) == (sorted(arr) if has else [li]), 'arrangements printed', [e[2] for e in env[real]], arr)
        # with permutations left to a later statement
        env = run_ambit(term.ambit(name, ignore_permutations=True))
        tgt = 'temp' if has else real
        e = [x for x in env[tgt] if x[0] != 'spaces']
        check(len(e) == 1 and e[0][2] == li, 'ignore_permutations', env)
        n_arr = multinomial(pc) * multinomial(pa)
        check(e[0][0] * n_arr == fr(c) * factorial(len(op[0])) * factorial(len(op[1])), 'ambit coefficient', e[0][0], n_arr)
        # temp declared before
        env = run_ambit(term.ambit(name, init_temp=False), {'temp': [('spaces', ''.join(i[0] for i in li))]})
        check_terms(env[real], ts, op, c, d['kind'], d['seed'], 'ambit with declared temp')
    check(d_term(term) == before, 'modified')
    expect(TypeError, lambda: term.ambit(3), 'name')


def gen_coeff(rng, tier):
    for v in (0, 1, -1, .5, -.5, 1 / 3, -2 / 3, 2.0, 7 / 36, 1 / 576, -1 / 14400, 1 / 518400, 12, 1e-9, 5 / 8):
        yield dict(v=v)
    for _ in range(400):
        yield dict(v=rng.randrange(-600, 600) / rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 16, 36, 64, 96, 144, 576, 5040]))


@clause('C15', 'coefficients', gen_coeff, ['Term.format_coeff'], share=.2)
def _(d):
    want = Fraction(d['v']).limit_denominator(10 ** 9)
    s = Term.format_coeff(d['v'])
    check(COEFF.match(s) and Fraction(s) == want, 'latex coefficient', s)
    check(parse_coeff(Term.format_coeff(d['v'], 'ambit')) == want, 'ambit coefficient', Term.format_coeff(d['v'], 'ambit'))

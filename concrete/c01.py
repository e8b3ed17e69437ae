from common import *

CH = list('gphvcaGPHVCA') + list('01239 -+_.,;xzbBiIjqQ\t\n²½') + ['']


def gen_strings(rng, tier):
    for a in CH:
        yield dict(s=a)
        for b in CH:
            yield dict(s=a + b)
    for a in 'gphvcaGPHVCA':
        for n in ['0', '00', '007', '10', '1a', 'a1', ' 1', '1 ', '-1', '+1', '1.0', '1_0', '12345678901234567890', '0x1', '1e3', '²', '1²']:
            yield dict(s=a + n)
            yield dict(s=a + a + n)
    for _ in range(3000 if tier == 'quick' else 60000):
        yield dict(s=''.join(rng.choice(CH) for _ in range(rng.randrange(6))))


def valid(s):
    return len(s) >= 2 and s[0] in 'gphvcaGPHVCA' and all(c in '0123456789' for c in s[1:])


@clause('C01', 'accept-reject', gen_strings, ['Index.__init__', 'Index.name', 'Index.latex', 'Index.is_beta', 'Index.to_alpha', 'Index.to_beta'])
def _(d):
    s = d['s']
    if not valid(s):
        expect(ValueError, lambda: Index(s), f"label {s!r}")
        return
    i = returns(lambda: Index(s), f"label {s!r}")
    n = int(s[1:])
    check(i.space == s[0] and i.number == n and isinstance(i.number, int), 'space/number', s)
    check(i.name == f"{s[0]}{n}" and str(i) == i.name and repr(i) == i.name, 'name', i.name)
    check(i.latex() == O.latex_index(s), 'latex', i.latex())
    check(i.latex(True) == '$' + O.latex_index(s) + '$' == i.latex(dollar=True), 'latex dollar', i.latex(True))
    check(i.is_beta() is s[0].isupper(), 'is_beta', s)
    b, a = i.to_beta(), i.to_alpha()
    check(isinstance(b, Index) and b.space == s[0].upper() and b.number == n, 'to_beta', b)
    check(isinstance(a, Index) and a.space == s[0].lower() and a.number == n, 'to_alpha', a)
    check(i.space == s[0] and i.number == n and i.name == f"{s[0]}{n}", 'label changed by reading it', s)


def gen_bad(rng, tier):
    for k in range(len(BAD)):
        yield dict(k=k)


BAD = [None, 0, 1, 1.5, b'g0', ['g0'], ('g', '0'), {'g0'}, {'g': 0}, object, True]


@clause('C01', 'non-strings', gen_bad, ['Index.__init__', 'Index.__eq__'])
def _(d):
    x = BAD[d['k']]
    expect(TypeError, lambda: Index(x), f"label {x!r}")
    i = Index('g0')
    for nm, f in [('==', lambda: i == x), ('!=', lambda: i != x), ('<', lambda: i < x), ('<=', lambda: i <= x),
                  ('>', lambda: i > x), ('>=', lambda: i >= x)]:
        expect(TypeError, f, f"g0 {nm} {x!r}")
    expect(TypeError, lambda: i == 'g0', 'g0 == "g0"')
    expect(TypeError, lambda: i < 'g0', 'g0 < "g0"')


def gen_pairs(rng, tier):
    nums = ['0', '1', '2', '9', '10', '11', '02', '100']
    L = [a + n for a in 'gphvcaGPHVCA' for n in nums]
    for a in L:
        for b in L:
            yield dict(a=a, b=b)
    for _ in range(3000 if tier == 'quick' else 50000):
        yield dict(a=rng.choice(O.LETTERS) + str(rng.randrange(10 ** rng.randrange(1, 25))),
                   b=rng.choice(O.LETTERS) + str(rng.randrange(10 ** rng.randrange(1, 25))))


@clause('C01', 'order-eq-hash', gen_pairs, ['Index.__eq__', 'Index.__ne__', 'Index.__lt__', 'Index.__le__', 'Index.__gt__', 'Index.__ge__', 'Index.__hash__'])
def _(d):
    a, b = Index(d['a']), Index(d['b'])
    cmp_all(a, b, O.key(d['a']), O.key(d['b']), f"{d['a']} vs {d['b']}")
    check((b in {a}) == (O.key(d['a']) == O.key(d['b'])), 'set membership')
    check(({a: 1}.get(b) == 1) == (O.key(d['a']) == O.key(d['b'])), 'dict lookup')


@clause('C01', 'sorting', lambda rng, tier: (dict(l=[rng.choice(O.LETTERS) + str(rng.randrange(15)) for _ in range(rng.randrange(9))]) for _ in range(400 if tier == 'quick' else 5000)), ['Index.__lt__'])
def _(d):
    l = [Index(s) for s in d['l']]
    check([O.key(i.name) for i in sorted(l)] == sorted(O.key(s) for s in d['l']), 'sorted order')
    check(len(set(l)) == len({O.key(s) for s in d['l']}), 'set size')

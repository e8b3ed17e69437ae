"""Enumeration of composite contractions (C07): every compatible set exactly once, arguments left as they were."""
import z3
from sets import *

PROPS = ['C07']
ASSUMES = ['a generator is run to its end by its consumer and the consumer does not change yielded objects or the arguments while it runs',
           'iteration over a set visits each element once in some fixed order; the order is arbitrary but the same while the set is unchanged',
           'operator contractions are compared by identity of their position in the list of elementary contractions (no two are equal, proved for compute_elementary_contractions_* in C06)']
NU = z3.Function('n_upper', I, I)             # number of creators of an elementary contraction
W = z3.Function('weight', SET, I)             # twice the sum of n_upper over a finite set
PATH = 'dsrg_generator/sqop_contraction.py'


def pairwise(s, comp):
    i, j = z3.Ints('i! j!')
    return z3.ForAll([i, j], z3.Implies(z3.And(isin(i, s), isin(j, s), i != j), isin(j, z3.Select(comp, i))))


def start(ver, p):
    comp = z3.Const('compatible', MSET)
    i, j = z3.Ints('i j')
    lo, hi = z3.Ints('lo hi')
    ver.comp = comp
    env = {'available': ver.new(p, 'set', z3.Const('available', SET)), 'chosen': ver.new(p, 'set', z3.Const('chosen', SET)),
           'compatible': MapV(lambda v, q, k: z3.Select(comp, k)), 'n_con_so_far': z3.Int('n_con_so_far'),
           'translator': MapV(lambda v, q, k: Obj({'n_upper': NU(k)})), 'desired_n_con': (lo, hi)}
    return env, [z3.ForAll([i, j], isin(j, z3.Select(comp, i)) == isin(i, z3.Select(comp, j)))]


def requires(ver, p, a):
    av, ch = ver.setval(a[0], p), ver.setval(a[1], p)
    return [inter(av, ch) == EMPTY]


def family(ver, p, a):
    av, ch, n, (lo, hi) = ver.setval(a[0], p), ver.setval(a[1], p), a[3], a[5]
    s = minus(ver.X, ch)
    return z3.And(ver.X != EMPTY, subset(ch, ver.X), subset(s, av), pairwise(s, ver.comp), lo <= n + W(s), n + W(s) <= hi)


def hints(ver, p):
    """weight of a finite set: W({}) = 0, W(S) = W(S - {t}) + 2 n_upper(t)"""
    out = [W(EMPTY) == 0]
    s0 = minus(ver.X, ver.setval(ver.entry.env['chosen'], ver.entry))
    w = ver.fresh('witness')
    out.append(z3.Or(s0 == EMPTY, isin(w, s0)))          # extensionality
    for t in ver.popped:
        for c in [ver.setval(ver.entry.env['chosen'], ver.entry)]:
            s = minus(ver.X, c)
            s2 = minus(ver.X, z3.Store(c, t, z3.BoolVal(True)))
            out += [z3.Implies(isin(t, s), z3.And(W(s) == W(s2) + 2 * NU(t), s2 == z3.Store(s, t, z3.BoolVal(False))))]
    return out


composite = SetContract('composite_contractions_backtrack', PATH, start, family, requires,
                        measure=lambda ver, p, a: ver.setval(a[0], p), hints=hints)


# ---------------------------------------------------------------- compatible pairs
OV = z3.Function('share_an_index', I, I, B)


def compat_start(ver, p):
    n = z3.Int('n')
    i, j = z3.Ints('i j')
    con = lambda t: Obj({}, {'any_overlapped_indices': lambda v, q, a: OV(t, a[0].term)}, term=t)
    env = {'elementary_contractions': Seq(n, con)}
    return env, [n >= 0, z3.ForAll([i, j], OV(i, j) == OV(j, i))]


def compat_spec(m, upto):
    a, b = z3.Ints('a! b!')
    return z3.ForAll([a, b], isin(b, z3.Select(m, a)) == upto(a, b), patterns=[isin(b, z3.Select(m, a))])


def pairs(n, below):
    def f(a, b):
        lo = z3.If(a < b, a, b)
        hi = z3.If(a < b, b, a)
        return z3.And(a >= 0, b >= 0, a < n, b < n, a != b, z3.Not(OV(a, b)), below(lo, hi))
    return f


def named(ver, v):
    c = ver.fresh('map', v.sort())
    ver.defs.append(c == v)
    return c


def outset(ver, p):
    rs = [v for k, v in p.env.items() if isinstance(v, Ref) and v.kind == 'mset']
    if len(rs) != 1:
        raise KeyError('one map of sets')
    return named(ver, p.heap[rs[0].cell].val)


def compat_outer(ver, p, i):
    n = ver.entry.env['elementary_contractions'].n
    return [compat_spec(outset(ver, p), pairs(n, lambda lo, hi: lo < i))]


def compat_inner(ver, p, j):
    n = ver.entry.env['elementary_contractions'].n
    i = ver.pos[0]
    return [compat_spec(outset(ver, p), pairs(n, lambda lo, hi: z3.Or(lo < i, z3.And(lo == i, hi < i + 1 + j))))]


def compat_return(ver, p, v):
    n = ver.entry.env['elementary_contractions'].n
    if not (isinstance(v, Ref) and v.kind == 'mset'):
        raise Unsupported('result')
    yield 'exactly the pairs without a common index', compat_spec(named(ver, p.heap[v.cell].val), pairs(n, lambda lo, hi: z3.BoolVal(True)))


def mk_defaultdict(ver, p, a):
    return ver.new(p, 'mset', z3.K(I, EMPTY))


compatible_list = SetContract('compute_compatible_elementary_contractions_list', PATH, compat_start, loops={0: compat_outer, 1: compat_inner},
                              globals={'defaultdict': mk_defaultdict, 'set': None}, at_return=compat_return)


# ---------------------------------------------------------------- categorized elementary contractions
# A category is represented by its position in the sequence of categories; L its number of contractions, ST the code of
# its first contraction (ST(n): one past the last code).
L = z3.Function('contractions_of', I, I)
ST = z3.Function('first_code', I, I)
ELEM = z3.Function('contraction', I, I, I)     # (category, position) -> contraction
NC = z3.Int('n_categories')


def lemmas(pr):
    i, j, k = z3.Ints('i j k')
    up = lambda j: z3.Implies(z3.And(0 <= i, i < j, j <= NC), ST(i) < ST(j))
    ax = codes()[:-1]
    pr.prove('lemma first codes ascend: base', ax + [j == i + 1, 0 <= i, i < NC], up(j))
    pr.prove('lemma first codes ascend: step', ax + [j > i, j < NC, up(j)], up(j + 1))
    x, c = z3.Ints('x c')
    cat = z3.And(0 <= CAT(x), CAT(x) < NC, ST(CAT(x)) <= x, x < ST(CAT(x) + 1))
    pr.prove('lemma category of a code', codes() + [x == ST(c) + k, 0 <= c, c < NC, 0 <= k, k < L(c), z3.Implies(z3.And(x >= 0, x < ST(NC)), cat)], CAT(x) == c,
             hints=[z3.Implies(c < NC, ST(c + 1) <= ST(NC)), ST(c + 1) == ST(c) + L(c), z3.Implies(c > 0, ST(0) < ST(c)), z3.Implies(z3.And(CAT(x) >= 0, CAT(x) < c), ST(CAT(x) + 1) <= ST(c)),
                    z3.Implies(z3.And(CAT(x) > c, CAT(x) < NC), ST(c + 1) <= ST(CAT(x)))])


def codes():
    i, j = z3.Ints('i j')
    return [NC >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NC), L(i) >= 1), patterns=[L(i)]), ST(0) == 0,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NC), ST(i + 1) == ST(i) + L(i)), patterns=[ST(i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= NC), ST(i) < ST(j)), patterns=[z3.MultiPattern(ST(i), ST(j))])]


def ele_con():
    return MapV(lambda v, q, k: Seq(L(k), lambda j, k=k: ELEM(k, j)))


def init_start(ver, p):
    ver.me = Obj()
    i = z3.Int('i')
    return {'self': ver.me, 'ele_con_categorized': ele_con(), 'category_sequence': Seq(NC, lambda i: i)}, \
        [NC >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NC), L(i) >= 1), patterns=[L(i)])]


def init_return(ver, p, v):
    a = ver.me.attrs
    i = z3.Int('i!')
    if set(a) != {'_ele_con', '_categories', '_i_start', '_i_start_map'}:
        raise Unsupported('attributes')
    s, m = a['_i_start'], a['_i_start_map']
    c = a['_categories']
    if not isinstance(s, Seq) or not isinstance(m, Ref) or a['_ele_con'] is not ver.entry.env['ele_con_categorized'] \
            or c is not ver.entry.env['category_sequence']:
        raise Unsupported('attributes')
    ins = z3.And(i >= 0, i < NC)
    yield 'one first code for each category', z3.Implies(NC >= 1, s.n == NC)
    yield 'the first code is 0', s.get(z3.IntVal(0)) == 0
    yield 'first codes are partial sums', z3.ForAll([i], z3.Implies(z3.And(ins, i + 1 < NC), s.get(i + 1) == s.get(i) + L(i)))
    yield 'map of first codes', z3.Implies(ins, z3.Select(p.heap[m.cell].val, i) == s.get(i))


ECC = 'ElementaryContractionCategorized'
init = SetContract(ECC + '.__init__', PATH, init_start, at_return=init_return)


def me(ver):
    """an object satisfying the class invariant established by the constructor"""
    seq = Seq(NC, lambda i: i)
    el = ele_con()
    st = Seq(z3.If(NC >= 1, NC, 1), lambda i: ST(i))
    ver.me = Obj({'_ele_con': el, '_categories': seq, 'ele_con': el, 'categories': seq, '_i_start': st,
                  '_i_start_map': MapV(lambda v, q, k: ST(k), keys=lambda k: z3.And(k >= 0, k < NC))})
    return ver.me


def prop_return(name):
    def f(ver, p, v):
        yield 'returns what was given', z3.BoolVal(v is ver.me.attrs[name])
    return f


get_ele_con = SetContract(ECC + '.ele_con', PATH, lambda ver, p: ({'self': me(ver)}, codes()), at_return=prop_return('_ele_con'))
get_categories = SetContract(ECC + '.categories', PATH, lambda ver, p: ({'self': me(ver)}, codes()), at_return=prop_return('_categories'))


def size_return(ver, p, v):
    yield 'number of contractions', v == ST(NC)


def int_return(want):
    def f(ver, p, v):
        if not z3.is_expr(v):
            raise Unsupported('result')
        yield 'result', v == want(ver)
    return f


size = SetContract(ECC + '.size', PATH, lambda ver, p: ({'self': me(ver)}, codes()), at_return=size_return)
c0, s0, x0 = z3.Ints('category shift code')
incat = [z3.And(c0 >= 0, c0 < NC), z3.And(s0 >= 0, s0 < L(c0))]
encode = SetContract(ECC + '.encode', PATH, lambda ver, p: ({'self': me(ver), 'category': c0, 'shift': s0}, codes() + incat),
                     at_return=int_return(lambda ver: ST(c0) + s0))
find_category = SetContract(ECC + '.find_category', PATH, lambda ver, p: ({'self': me(ver), 'code': ST(c0) + s0}, codes() + incat),
                            at_return=int_return(lambda ver: c0))
decode = SetContract(ECC + '.decode', PATH, lambda ver, p: ({'self': me(ver), 'code': ST(c0) + s0}, codes() + incat),
                     at_return=int_return(lambda ver: ELEM(c0, s0)))


def range_return(ver, p, v):
    j = z3.Int('j!')
    if not isinstance(v, Seq):
        raise Unsupported('result')
    yield 'as many codes as contractions', v.n == L(c0)
    yield 'the codes of the category', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L(c0)), v.get(j) == ST(c0) + j))


category_range = SetContract(ECC + '.category_range', PATH, lambda ver, p: ({'self': me(ver), 'category': c0}, codes() + incat[:1]), at_return=range_return)

# selections of contractions with given numbers per category
CAT = z3.Function('category_of', I, I)
CNT = z3.Function('count_in_category', SET, I, I)
RNG = z3.Function('codes_of', I, SET)
VALID = z3.Const('all_codes', SET)


def cat_axioms():
    x, c = z3.Ints('x c')
    return [z3.ForAll([x, c], isin(x, RNG(c)) == z3.And(isin(x, VALID), CAT(x) == c), patterns=[isin(x, RNG(c))])]


def counted(ver, keys):
    """target: a map with changeable values"""
    return Obj()


def bt_start(ver, p):
    comp = z3.Const('compatible', MSET)
    ver.comp = comp
    i, j = z3.Ints('i j')
    K = z3.Const('keys', SET)
    ver.keys = lambda c: isin(c, K)
    ver.me = Obj({}, {'find_category': lambda v, q, a: CAT(a[0]), 'category_range': lambda v, q, a: RNG(a[0])})
    env = {'self': ver.me, 'choices': ver.new(p, 'set', z3.Const('choices', SET)),
           'target': ver.new(p, 'dict', z3.Const('target', ARR), keys=ver.keys),
           'compatible': MapV(lambda v, q, k: z3.Select(comp, k)), 'chosen': ver.new(p, 'list', z3.Const('chosen', SET))}
    return env, [z3.ForAll([i, j], isin(j, z3.Select(comp, i)) == isin(i, z3.Select(comp, j)))] + cat_axioms()


def bt_requires(ver, p, a):
    _, ch, tg, _, done = a
    ch, tg, done = ver.setval(ch, p), p.heap[tg.cell].val, ver.setval(done, p)
    c, x = z3.Ints('c x')
    return [inter(ch, done) == EMPTY, z3.ForAll([c], z3.Implies(ver.keys(c), z3.Select(tg, c) >= 0)),
            z3.ForAll([x], z3.Implies(isin(x, ch), z3.And(isin(x, VALID), ver.keys(CAT(x)), z3.Select(tg, CAT(x)) >= 1)), patterns=[isin(x, ch)])]


def bt_family(ver, p, a):
    _, ch, tg, _, done = a
    ch, tg, done = ver.setval(ch, p), p.heap[tg.cell].val, ver.setval(done, p)
    s = minus(ver.X, done)
    c = z3.Int('c!')
    return z3.And(subset(done, ver.X), subset(s, ch), pairwise(s, ver.comp),
                  z3.ForAll([c], z3.Implies(ver.keys(c), CNT(s, c) == z3.Select(tg, c)), patterns=[CNT(s, c)]))


def cnt_facts(sets, elems, ver):
    """counting in finite sets"""
    c, x = z3.Ints('c x')
    out = [z3.ForAll([c], CNT(EMPTY, c) == 0, patterns=[CNT(EMPTY, c)])]
    for s in sets:
        out += [z3.ForAll([x], z3.Implies(isin(x, s), CNT(s, CAT(x)) >= 1), patterns=[CAT(x)]),
                z3.ForAll([c], CNT(s, c) >= 0, patterns=[CNT(s, c)])]
        w = ver.fresh('witness')
        out.append(z3.Or(s == EMPTY, isin(w, s)))
        for t in elems:
            s2 = z3.Store(s, t, z3.BoolVal(False))
            out.append(z3.Implies(isin(t, s), z3.ForAll([c], CNT(s, c) == CNT(s2, c) + z3.If(CAT(t) == c, 1, 0), patterns=[CNT(s, c)])))
    return out


def bt_hints(ver, p):
    ch = ver.setval(ver.entry.env['choices'], ver.entry)
    done = ver.setval(ver.entry.env['chosen'], ver.entry)
    s = minus(ver.X, done)
    c = z3.Int('c')
    out = cnt_facts([s, ch], ver.popped, ver)
    out.append(z3.Implies(subset(s, ch), z3.ForAll([c], CNT(s, c) <= CNT(ch, c), patterns=[CNT(s, c)])))
    for t in ver.popped:
        s2 = minus(ver.X, z3.Store(done, t, z3.BoolVal(True)))
        out += [s2 == z3.Store(s, t, z3.BoolVal(False))] + cnt_facts([s2], [], ver)
    for v, x in ver.steps:
        out.append(z3.Implies(z3.Not(isin(x, v)), z3.ForAll([c], CNT(z3.Store(v, x, z3.BoolVal(True)), c) == CNT(v, c) + z3.If(CAT(x) == c, 1, 0))))
    return out


def counting(ver, p, visited):
    c = z3.Int('c!')
    d = [v for k, v in p.env.items() if isinstance(v, Ref) and v.kind == 'dict' and k not in ver.fn_args]
    if len(d) != 1:
        raise KeyError('one table of counts')
    arr = p.heap[d[0].cell].val
    return [z3.ForAll([c], z3.Select(arr, c) == CNT(visited, c))]


backtrack = SetContract(ECC + '.composite_contractions_backtrack', PATH, bt_start, bt_family, bt_requires, loops={0: counting},
                        measure=lambda ver, p, a: ver.setval(a[1], p), hints=bt_hints)


def wr_start(given):
    def f(ver, p):
        env, facts = bt_start(ver, p)
        comp = ver.comp
        k = env.pop('choices')
        env.pop('chosen')
        i, j, x, c = z3.Ints('i j x c')

        def bt(v, q, a):
            for n, g in enumerate(bt_requires(v, q, [None] + a)):
                v.goal(f'precondition {n + 1} of the enumeration', q, g)
            v.final = (v.setval(a[0], q), v.setval(a[3], q))
            return GenVal(bt_family(v, q, [None] + a))

        def cec(v, q, a):
            if not isinstance(a[0], Keys):
                raise Unsupported('categories')
            m = v.fresh('compatible', MSET)
            v.defs.append(z3.ForAll([i, j], z3.Implies(z3.And(a[0].pred(CAT(i)), a[0].pred(CAT(j))), isin(j, z3.Select(m, i)) == isin(j, z3.Select(comp, i)))))
            v.comp2 = m
            return MapV(lambda v, q, k: z3.Select(m, k))
        ver.me.methods.update(composite_contractions_backtrack=bt, compatible_elementary_contractions=cec)
        if not given:
            env['compatible'] = None
        tg = p.heap[env['target'].cell].val
        ver.tg = tg
        return env, facts + [z3.ForAll([c], z3.Implies(ver.keys(c), z3.Select(tg, c) >= 1))]
    return f


def wr_family(ver, p, a):
    s = ver.X
    c, x = z3.Ints('c! x!')
    return z3.And(z3.ForAll([x], z3.Implies(isin(x, s), z3.And(isin(x, VALID), ver.keys(CAT(x)))), patterns=[isin(x, s)]), pairwise(s, ver.comp),
                  z3.ForAll([c], z3.Implies(ver.keys(c), CNT(s, c) == z3.Select(ver.tg, c)), patterns=[CNT(s, c)]))


def wr_hints(ver, p):
    return [minus(ver.X, EMPTY) == ver.X]


composite_given = SetContract(ECC + '.composite_contractions', PATH, wr_start(True), wr_family, hints=wr_hints)
composite_none = SetContract(ECC + '.composite_contractions', PATH, wr_start(False), wr_family, hints=wr_hints)


# compatibility of categorized contractions: two codes are compatible iff the contractions share no index
def cc_start(given):
    def f(ver, p):
        o = me(ver)
        con = lambda c, j: Obj({}, {'any_overlapped_indices': lambda v, q, a: OV(ST(c) + j, a[0].term)}, term=z3.simplify(ST(c) + j))
        el = MapV(lambda v, q, k: Seq(L(k), lambda j, k=k: con(k, j)))
        o.attrs['ele_con'] = o.attrs['_ele_con'] = el
        o.methods['encode'] = lambda v, q, a: ST(a[0]) + a[1]
        x, y = z3.Ints('x y')
        env = {'self': o, 'categories': o.attrs['categories'] if given else None}
        return env, codes() + [z3.ForAll([x, y], OV(x, y) == OV(y, x)),
                               z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < ST(NC)), z3.And(0 <= CAT(x), CAT(x) < NC, ST(CAT(x)) <= x, x < ST(CAT(x) + 1))), patterns=[CAT(x)])]
    return f


def cc_spec(m, done):
    x, y = z3.Ints('x! y!')
    ok = lambda x: z3.And(x >= 0, x < ST(NC))
    return z3.ForAll([x, y], isin(y, z3.Select(m, x)) == z3.And(ok(x), ok(y), z3.Not(OV(x, y)), z3.Or(done(x, y), done(y, x))),
                     patterns=[isin(y, z3.Select(m, x))])


def cc0(ver, p, a):
    return [cc_spec(outset(ver, p), lambda u, v: z3.And(CAT(u) < a, CAT(v) >= CAT(u)))]


def cc1(ver, p, i):
    a = ver.pos[0]
    return [cc_spec(outset(ver, p), lambda u, v: z3.And(CAT(v) >= CAT(u), z3.Or(CAT(u) < a, z3.And(CAT(u) == a, u < ST(a) + i))))]


def cc2(ver, p, b):
    a, i = ver.pos[0], ver.pos[1]
    return [cc_spec(outset(ver, p), lambda u, v: z3.And(CAT(v) >= CAT(u), z3.Or(CAT(u) < a, z3.And(CAT(u) == a, u < ST(a) + i),
                                                                              z3.And(u == ST(a) + i, CAT(v) < a + b))))]


def cc3(ver, p, j):
    a, i = ver.pos[0], ver.pos[1]
    c = a + ver.pos[2]
    return [cc_spec(outset(ver, p), lambda u, v: z3.And(CAT(v) >= CAT(u), z3.Or(CAT(u) < a, z3.And(CAT(u) == a, u < ST(a) + i),
                                                                              z3.And(u == ST(a) + i, z3.Or(CAT(v) < c, z3.And(CAT(v) == c, v < ST(c) + j))))))]


def cc_return(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'mset'):
        raise Unsupported('result')
    yield 'exactly the codes whose contractions share no index', cc_spec(named(ver, p.heap[v.cell].val), lambda u, v: z3.BoolVal(True))


def cc_hints(ver, p):
    out = []
    e = ver.pos
    cs = ([(e[0], e[1])] if 1 in e else []) + ([(e[0] + e[2], e[3])] if 3 in e else [])
    for c, k in cs:
        out.append(z3.Implies(z3.And(c >= 0, c < NC, k >= 0, k < L(c)), CAT(ST(c) + k) == c))
    return out


cc_loops = {0: cc0, 1: cc1, 2: cc2, 3: cc3}
compatible_default = SetContract(ECC + '.compatible_elementary_contractions', PATH, cc_start(False), loops=cc_loops, at_return=cc_return,
                                 globals={'defaultdict': mk_defaultdict, 'set': None}, hints=cc_hints)

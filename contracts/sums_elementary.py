"""Elementary contractions (C06): rank limit, pair contractions, cumulants, for any number of operators and indices."""
import z3
from sums import *

PROPS = ['C06']
ASSUMES = ['space_relation gives the intersection of elementary spaces (C05); compute_elementary_contractions_half_cumulant returns each choice of k legs once with its operators (bounded check in C06)']
PATH = 'dsrg_generator/sqop_contraction.py'
S = z3.StringSort()
NOPS = z3.Int('ops.n')
OPAT = z3.Function('ops', I, Elem)
N = {'cre': z3.Function('n_cre', Elem, I), 'ann': z3.Function('n_ann', Elem, I)}
IDX = {'cre': z3.Function('creator', Elem, I, Elem), 'ann': z3.Function('annihilator', Elem, I, Elem)}
SPACE = z3.Function('space', Elem, S)
COUNT = z3.Function('count_index_space', Elem, Elem, I)      # indices of an index list in a list of spaces
LIST = {'cre': z3.Function('creators', Elem, Elem), 'ann': z3.Function('annihilators', Elem, Elem)}
COMMON = z3.Function('n_common_spaces', S, S, I)             # size of the intersection of the elementary spaces (C05)
W = z3.Function('weight', Elem, R)                           # any weight of (operators, density)
SO = z3.Bool('spin_orbital')


def index(e):
    return O({'space': SPACE(e)}, {}, key=e, cls='Index')


def index_list(ver, e, k):
    def count(ver, p, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('count_index_space')
        return COUNT(LIST[k](e), ver.encode(ver.pieces(a[0], p), unordered=True))
    return O({'#items': ver.seq(N[k](e), lambda j: index(IDX[k](e, j))), '#len': N[k](e), 'size': N[k](e)}, {'count_index_space': count}, key=LIST[k](e), cls='IndicesSpinOrbital')


SOTYPE = O({}, {}, key=z3.Const('IndicesSpinOrbital', Elem), cls='type')


def opr(ver, e):
    return O({'n_cre': N['cre'](e), 'n_ann': N['ann'](e), 'cre_ops': Lazy(lambda ver, p: index_list(ver, e, 'cre')), 'ann_ops': Lazy(lambda ver, p: index_list(ver, e, 'ann'))},
             {}, key=e, cls='SecondQuantizedOperator')


def start(ver, p):
    ver.ops = ver.new(p, ver.seq(NOPS, lambda j: opr(ver, OPAT(j))))
    e = z3.Const('e!', Elem)
    return dict(ops_list=ver.ops), [NOPS >= 0, z3.ForAll([e], N['cre'](e) >= 0), z3.ForAll([e], N['ann'](e) >= 0)]


# ---------------------------------------------------------------- rank limit
def rank_start(ver, p):
    d, f = start(ver, p)
    return dict(d, max_cu=z3.Int('max_cu')), f


def valid(ver, k):
    """indices that are neither core nor virtual"""
    cv = ver.encode((One('c'), One('v')), unordered=True)
    return ver.measure(ver.seq(NOPS, lambda j: OPAT(j)), lambda e: z3.ToReal(N[k](e)) - z3.ToReal(COUNT(LIST[k](e), cv)))


def rank_post(ver, p, v):
    m = z3.Int('max_cu')
    a, b = valid(ver, 'cre'), valid(ver, 'ann')
    lo = z3.If(a <= b, a, b)
    top = z3.If(lo >= 1, lo, 1)
    yield 'the smaller number of active creators and annihilators, at least one, or the given rank if it is smaller', \
        ver.real(v) == z3.If(z3.Or(m < 1, z3.ToReal(m) > top), top, z3.ToReal(m))


rank = SumContract('check_max_cu', PATH, rank_start, rank_post, element=opr)


# ---------------------------------------------------------------- pairs
ALIAS = {'cumulant': 'L', 'lambda': 'L', 'L': 'L', 'hole_density': 'E', 'eta': 'E', 'C': 'E'}


def mk_density(kind):
    def f(ver, p, a, kw):
        if kw or not 2 <= len(a) <= 3 or (len(a) == 3 and a[2] not in ('so', 'spin-orbital')):
            raise Unsupported('density')
        return O({}, {}, key=ver.encode((kind, ver.pieces(a[0], p), ver.pieces(a[1], p))), cls='Tensor')
    return f


def mk_tensor(ver, p, a, kw):
    """Tensor.make_tensor(alias, upper, lower, kind of indices): contract checked for C04"""
    if not a or a[0] not in ALIAS:
        raise Unsupported('kind of density')
    return mk_density(ALIAS[a[0]])(ver, p, a[1:], kw)


def spaces():
    def get(ver, p, a, kw):
        if isinstance(a[0], str):
            a = [z3.StringVal(a[0])]
        return O({'of': a[0]}, {'__and__': lambda ver, p, b, kw: O({'#len': COMMON(a[0], b[0].attrs['of'])}, cls='set')}, cls='set')
    return O({}, {'__getitem__': get}, cls='dict')


def weigh(ver, kv):
    return W(ver.encode(kv))


def mk_len(ver, p, a, kw):
    if len(a) == 1 and isinstance(a[0], O) and '#len' in a[0].attrs:
        return a[0].attrs['#len']
    return ver.builtin('len', a, kw, p)


def density(ver, name, u, l):
    return O({}, {}, key=ver.encode((name, (One(index(u)),), (One(index(l)),))), cls='Tensor')


def pair_post(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'multimap'):
        raise Unsupported('result')
    i, j, a, b = (ver.fresh('j') for _ in range(4))
    left, right = OPAT(i), OPAT(j)
    # a creator of the earlier and an annihilator of the later operator: cumulant, unless one of them is virtual
    u, l = IDX['cre'](left, a), IDX['ann'](right, b)
    ok = z3.And(SPACE(u) != z3.StringVal('v'), SPACE(l) != z3.StringVal('v'), COMMON(SPACE(u), SPACE(l)) != 0)
    lam = Fam(N['cre'](left), a, TRUE, (Fam(N['ann'](right), b, ok, (One(((i, j), density(ver, 'L', u, l))),)),))
    # an annihilator of the earlier and a creator of the later operator: hole density, unless one of them is core
    u, l = IDX['cre'](right, b), IDX['ann'](left, a)
    ok = z3.And(SPACE(u) != z3.StringVal('c'), SPACE(l) != z3.StringVal('c'), COMMON(SPACE(u), SPACE(l)) != 0)
    eta = Fam(N['ann'](left), a, TRUE, (Fam(N['cre'](right), b, ok, (One(((j, i), density(ver, 'E', u, l))),)),))
    d = ver.fresh('j')
    want = (Fam(NOPS, i, TRUE, (Fam(z3.If(NOPS >= i + 1, NOPS - (i + 1), 0), d, TRUE, ver.sub((lam, eta), j, z3.simplify(i + 1 + d))),)),)
    # whole sums are compared, so the conditions may be tested anywhere in the loops
    ver.sym = (COMMON,)
    yield 'every allowed pair contraction once, filed under its creator operator and annihilator operator', \
        ver.measure(p.heap[v.cell], lambda x: weigh(ver, x)) == ver.measure(want, lambda x: weigh(ver, x))


G = {'defaultdict': Typ('defaultdict', lambda ver, p, a, kw: ver.multimap(p)), 'Tensor': Typ('Tensor', attrs={'make_tensor': Fn(mk_tensor)}), 'Cumulant': Typ('Cumulant', mk_density('L')), 'HoleDensity': Typ('HoleDensity', mk_density('E')), 'space_relation': spaces(), 'len': Typ('len', mk_len)}
pairs = SumContract('compute_elementary_contractions_pairwise', PATH, start, pair_post, globals=G, element=opr)


# ---------------------------------------------------------------- cumulants
ITEM = z3.Function('item', Elem, I, Elem)
NCH = z3.Function('n_choices', Elem, I, I, I)                # ways to choose the legs of one kind from the index lists
CH = z3.Function('choice', Elem, I, I, I, Elem)
MAC, MIC = z3.Function('which_operator', Elem, I, I), z3.Function('which_index', Elem, I, I)
MAXCU = z3.Int('max_cu')


def filtered(key, n=None):
    return O({}, {'__getitem__': lambda ver, p, a, kw: index(ITEM(key, ver.num(a[0])))}, key=key, cls='IndicesSpinOrbital')


def mk_so(ver, p, a, kw):
    return filtered(ver.encode(ver.pieces(a[0], p)))


def choices(ver, e, cu, level):
    """each choice is a list of as many (operator, index) pairs as the level"""
    def one(c):
        j = ver.fresh('j')
        return (Fam(level, j, TRUE, (One((MAC(c, j), MIC(c, j))),)),)
    return ver.seq(NCH(e, cu, level), lambda k: one(CH(e, cu, level, k)))


def b_half(ver, p, a):
    e, cu = ver.encode(ver.pieces(a['pure_ops_list'], p)), a['max_cu']

    def get(ver, p, b, kw):
        k = ver.num(b[0])
        ver.goal('choices of legs for this rank are there', p, z3.And(k >= 2, k <= cu))
        return ver.new(p, choices(ver, e, cu, k))
    return O({}, {'__getitem__': get}, cls='dict')


def cum_start(ver, p):
    d, f = start(ver, p)
    e, a, b = z3.Const('e!', Elem), z3.Int('a!'), z3.Int('b!')
    return dict(d, max_cu=MAXCU), f + [z3.ForAll([e, a, b], z3.And(NCH(e, a, b) >= 0, z3.Implies(NOPS == 0, NCH(e, a, b) == 0))),
                                         z3.ForAll([e, a], z3.Implies(NOPS > 0, z3.And(MAC(e, a) >= 0, MAC(e, a) < NOPS)), patterns=[MAC(e, a)])]


def cum_want(ver):
    def pure(k):
        def one(j):
            i = ver.fresh('j')
            x = index(IDX[k](OPAT(j), i))
            ok = z3.And(x.attrs['space'] != z3.StringVal('c'), x.attrs['space'] != z3.StringVal('v'))
            return filtered(ver.encode((Fam(N[k](OPAT(j)), i, ok, (One(x),)),)))
        return ver.seq(NOPS, one)
    L = {k: pure(k) for k in N}
    E = {k: ver.encode(L[k]) for k in N}
    m = ver.fresh('n')
    j, a, b = (ver.fresh('j') for _ in range(3))
    level = z3.simplify(2 + j)
    c = {'cre': CH(E['cre'], MAXCU, level, a), 'ann': CH(E['ann'], MAXCU, level, b)}

    def legs(k):
        i = ver.fresh('j')
        x = ver.sub(L[k][0].pieces[0].v, L[k][0].j, MAC(c[k], i))
        return (Fam(level, i, TRUE, (One(index(ITEM(x.key, MIC(c[k], i)))),)),)

    def ops(k):
        i = ver.fresh('j')
        return (Fam(level, i, TRUE, (One(MAC(c[k], i)),)),)
    one = {k: ver.length(ver.only(ops(k), lambda v: v == MAC(c[k], 0))) == level for k in N}
    ok = z3.Not(z3.And(one['cre'], one['ann'], MAC(c['cre'], 0) == MAC(c['ann'], 0)))
    t = O({}, {}, key=ver.encode(('L', legs('cre'), legs('ann'))), cls='Tensor')
    n = z3.If(MAXCU + 1 >= 2, MAXCU + 1 - 2, 0)
    return (Fam(n, j, TRUE, (Fam(NCH(E['cre'], MAXCU, level), a, TRUE, (Fam(NCH(E['ann'], MAXCU, level), b, ok, (One((ops('cre') + ops('ann'), t)),)),)),)),)


def cum_post(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'multimap'):
        raise Unsupported('result')
    yield 'every choice of creators and annihilators not all of one operator once, filed under their operators', \
        ver.measure(p.heap[v.cell], lambda x: weigh(ver, x)) == ver.measure(cum_want(ver), lambda x: weigh(ver, x))


def so_type():
    return O({}, {'__call__': mk_so}, key=z3.Const('IndicesSpinOrbital', Elem), cls='type')


GC = dict(G, IndicesSpinOrbital=so_type(), compute_elementary_contractions_half_cumulant=Fn(b_half, PATH, 'compute_elementary_contractions_half_cumulant'))
cumulants = SumContract('compute_elementary_contractions_cumulant', PATH, cum_start, cum_post, globals=GC, element=opr)


# ---------------------------------------------------------------- all together
OPS = z3.Const('ops_list', Elem)
NP, NC = z3.Function('n_pairs', Elem, I), z3.Function('n_cumulants', Elem, I, I)
PAIR, CUM = z3.Function('pair', Elem, I, Elem), z3.Function('cumulant', Elem, I, I, Elem)
TYPE = z3.Function('indices_type', Elem, Elem)
ALLOWED = z3.Int('allowed_rank')


def mm(ver, p, ps):
    r = ver.new(p, ps)
    return Ref(r.cell, 'multimap')


def given(ver, p, v):
    ver.goal('for the given operators', p, z3.BoolVal(isinstance(v, Ref) and v.cell == ver.ops.cell))


def b_rank(ver, p, a):
    given(ver, p, a['ops_list'])
    ver.goal('rank limit for the given rank', p, a['max_cu'] == MAXCU)
    return ALLOWED


def b_pairs(ver, p, a):
    given(ver, p, a['ops_list'])
    return mm(ver, p, ver.seq(NP(OPS), lambda j: O({}, key=PAIR(OPS, j), cls='pair')))


def b_cum(ver, p, a):
    given(ver, p, a['ops_list'])
    return mm(ver, p, ver.seq(NC(OPS, a['max_cu']), lambda j: O({}, key=CUM(OPS, a['max_cu'], j), cls='cumulant')))


def disjoint(ver, a, b):
    """pairs are filed under two operators, cumulants under at least four"""
    kinds = lambda ps: {s.v.cls if isinstance(s, One) else x for s in ps for x in ([None] if isinstance(s, One) else kinds(s.pieces))}
    return kinds(a) == {'pair'} and kinds(b) == {'cumulant'}


def cat_start(ver, p):
    typed = lambda j: (lambda o: O(dict(o.attrs, indices_type=O({}, key=TYPE(OPAT(j)), cls='type')), o.methods, o.key, None, o.cls))(opr(ver, OPAT(j)))
    d, f = start(ver, p)
    ver.ops = ver.new(p, ver.seq(NOPS, typed))
    return dict(ops_list=ver.ops, max_cu=MAXCU), f + [NP(OPS) >= 0, NC(OPS, ALLOWED) >= 0, ALLOWED >= 1]


def total(ver):
    return ver.measure(ver.seq(NP(OPS), lambda j: PAIR(OPS, j)), lambda x: W(x)) + z3.If(ALLOWED >= 2, ver.measure(ver.seq(NC(OPS, ALLOWED), lambda j: CUM(OPS, ALLOWED, j)), lambda x: W(x)), 0)


def cat_post(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'multimap'):
        raise Unsupported('result')
    yield 'all pair contractions and all cumulants up to the allowed rank, each once', ver.measure(p.heap[v.cell], lambda x: W(x.key)) == total(ver)


def cat_raises(ver):
    i = z3.Int('i?')
    return {'NotImplementedError': z3.Exists([i], z3.And(i >= 0, i < NOPS, TYPE(OPAT(i)) != z3.Const('IndicesSpinOrbital', Elem)))}


GA = {'IndicesSpinOrbital': so_type(), 'SecondQuantizedOperator': Typ('SecondQuantizedOperator'), 'check_max_cu': Fn(b_rank, PATH, 'check_max_cu'),
      'compute_elementary_contractions_pairwise': Fn(b_pairs, PATH, 'compute_elementary_contractions_pairwise'),
      'compute_elementary_contractions_cumulant': Fn(b_cum, PATH, 'compute_elementary_contractions_cumulant')}
categorized = SumContract('compute_elementary_contractions_categorized', PATH, cat_start, cat_post, globals=GA, element=opr, raises=cat_raises, disjoint=disjoint)


def list_start(ver, p):
    d, f = cat_start(ver, p)
    return d, f


def b_cat(ver, p, a):
    given(ver, p, a['ops_list'])
    ver.goal('up to the given rank', p, a['max_cu'] == MAXCU)
    return mm(ver, p, ver.seq(NP(OPS), lambda j: O({}, key=PAIR(OPS, j), cls='all')))


def list_post(ver, p, v):
    yield 'every elementary contraction once', ver.measure(ver.pieces(v, p), lambda x: W(x.key)) == ver.measure(ver.seq(NP(OPS), lambda j: PAIR(OPS, j)), lambda x: W(x))


as_list = SumContract('compute_elementary_contractions_list', PATH, list_start, list_post, element=opr,
                      globals={'compute_elementary_contractions_categorized': Fn(b_cat, PATH, 'compute_elementary_contractions_categorized')})


def lemmas(pr):
    pass

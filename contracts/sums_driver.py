"""Contraction drivers (C07, C08, C09, C20): what is yielded, for any operators, limits and number of processes."""
import z3
from sums import *
from sums_product import MP

PROPS = ['C07', 'C08', 'C09', 'C20']
ASSUMES = ['multiprocessing.Pool.imap_unordered returns the result of every task once in any order, equal to the result computed in this process',
           'the searches for composite contractions are used through contracts (proved in C07 and C09, category search bounded in C09); process_composite_contractions and process_composite_categorized are proved in C08']
PATH = 'dsrg_generator/sqop_contraction.py'
OPS = z3.Const('ops_list', Elem)
NOPS = z3.Int('ops.n')
OPAT = z3.Function('ops', I, Elem)
NCRE, NANN = z3.Function('n_cre', Elem, I), z3.Function('n_ann', Elem, I)
NUP, NLO = z3.Int('n_upper'), z3.Int('n_lower')
UP, LO = z3.Function('upper_label', I, Elem), z3.Function('lower_label', I, Elem)   # elements of the two label sets, 'u' or 'l' in front
NAME = z3.Function('without_first_letter', Elem, Elem)
SORTED = z3.Function('sorted', Elem, I, Elem)
ORDER = z3.Function('base_order', Elem, I)
INV = z3.Function('inversions', Elem, I)
SQ = z3.Function('operator_of', Elem, Elem, Elem)
ALLOWED = z3.Function('allowed_rank', Elem, I, I)
EC = z3.Function('elementary', Elem, I, Elem)
NEC = z3.Function('n_elementary', Elem, I)
COMPAT = z3.Function('compatible', Elem, Elem)
NCON = z3.Function('n_composite', Elem, I, I, I)
CON = z3.Function('composite', Elem, I, I, I, Elem)
PROC = z3.Function('processed', Elem, Elem, B, Elem)           # contraction, elementary contractions, expand holes
W = z3.Function('weight', Elem, R)                             # any weight of a yielded batch
MAXCU, MAXO, MINO, HOLE, NPROC, BATCH = z3.Int('max_cu'), z3.Int('max_n_open'), z3.Int('min_n_open'), z3.Bool('expand_hole'), z3.Int('n_process'), z3.Int('batch_size')
LIMITS = dict(max_cu=MAXCU, max_n_open=MAXO, min_n_open=MINO, expand_hole=HOLE, n_process=NPROC, batch_size=BATCH)


def obj(key, cls, **kw):
    return O(kw.get('attrs', {}), kw.get('methods', {}), key=key, cls=cls)


def sized(key, cls, n):
    return O({'#len': n}, {}, key=key, cls=cls)


def label(e):
    def sl(ver, p, abc, kw):
        a, b, c = abc
        if b is None and c is None and z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 1:
            return obj(NAME(e), 'str')
        raise Unsupported('slice of a label')
    return O({}, {'__slice__': sl}, key=e, cls='str')


def index(e):
    return O({'name': obj(e, 'str')}, {}, key=e, cls='Index')


def mk_index(ver, p, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], O) or a[0].cls != 'str':
        raise Unsupported('Index')
    return index(a[0].key)


def mk_sorted(ver, p, a, kw):
    ps = ver.pieces(a[0], p) if isinstance(a[0], Ref) else None
    if len(a) != 1 or kw or ps is None or len(ps) != 1 or not isinstance(ps[0], Fam):
        raise Unsupported('sorted')
    e = ver.encode(ps, unordered=True)
    return ver.new(p, ver.seq(ps[0].n, lambda j: index(SORTED(e, j))))


def mk_sq(ver, p, a, kw):
    b = ver.bind(find('dsrg_generator/SQOperator.py', 'SecondQuantizedOperator.__init__'), a, kw, p, skip=1)
    u, l = ver.pieces(b['cre_ops'], p), ver.pieces(b['ann_ops'], p)
    if b['indices_type'] not in ('so', 'spin-orbital'):
        raise Unsupported('kind of indices')
    return O({'cre_ops': u, 'ann_ops': l, 'n_cre': ver.length(u), 'n_ann': ver.length(l)}, {}, key=SQ(ver.encode(u), ver.encode(l)), cls='SecondQuantizedOperator')


def mk_perm(ver, p, a, kw):
    e = ver.encode(ver.pieces(a[0], p))
    return O({}, {'inversions': lambda ver, p, a, kw: INV(e)}, key=e, cls='Permutation')


def order_map():
    def get(ver, p, a, kw):
        t = a[0]
        if not (isinstance(t, Text) and len(t.parts) == 2 and t.parts[0] in ('u', 'l') and isinstance(t.parts[1], O)):
            raise Unsupported('key of the base order')
        return ORDER(ver.encode(t.parts))
    return O({'#len': z3.Int('n_indices')}, {'__getitem__': get}, key=z3.Const('base_order_map', Elem), cls='dict')


def same(ver, p, what, v, key):
    ver.goal(what, p, v.key == key if isinstance(v, O) and v.key is not None else z3.BoolVal(False))


def the_ops(ver, p, what, v):
    ver.goal(what, p, z3.BoolVal(isinstance(v, Ref) and v.cell == ver.ops.cell))


def b_base(ver, p, a):
    the_ops(ver, p, 'base order of the given operators', a['ops_list'])
    return (order_map(), ver.upper, ver.lower)


def b_rank(ver, p, a):
    the_ops(ver, p, 'rank limit for the given operators', a['ops_list'])
    return ALLOWED(OPS, a['max_cu'])


def b_ec(ver, p, a):
    the_ops(ver, p, 'elementary contractions of the given operators', a['ops_list'])
    e = EC(OPS, a['max_cu'])
    return sized(e, 'list', NEC(e))


def b_compat(ver, p, a):
    return obj(COMPAT(a['elementary_contractions'].key), 'list')


def empty(ver, p, v):
    return isinstance(v, Ref) and v.kind == 'list' and not ver.pieces(v, p)


def mk_set(ver, p, a, kw):
    if not a:
        return ver.new(p, ())
    if isinstance(a[0], Rng):
        return O({'range': (a[0].n, a[0].lo)}, {}, cls='set')
    raise Unsupported('set')


def b_backtrack(ver, p, a):
    e = a['translator'].key
    r = a['available'].attrs.get('range') if isinstance(a['available'], O) else None
    ver.goal('the search starts from all elementary contractions', p, z3.And(r[0] == NEC(e), r[1] == 0) if r else z3.BoolVal(False))
    ver.goal('the search starts with nothing chosen', p, z3.BoolVal(empty(ver, p, a['chosen'])))
    ver.goal('the search starts from no contraction', p, a['n_con_so_far'] == 0)
    same(ver, p, 'the compatible sets belong to the elementary contractions', a['compatible'], COMPAT(e))
    lo, hi = a['desired_n_con']
    p.facts.append(NCON(e, lo, hi) >= 0)
    return ver.new(p, ver.seq(NCON(e, lo, hi), lambda j: O({}, {'__slice__': lambda ver, p, abc, kw: obj(CON(e, lo, hi, j), 'set')}, key=CON(e, lo, hi, j), cls='set')))


def open_sets(ver, p, a):
    same(ver, p, 'open creators are taken from all creators', a['upper_indices_set'], ver.upper.key)
    same(ver, p, 'open annihilators are taken from all annihilators', a['lower_indices_set'], ver.lower.key)


def b_process(ver, p, a):
    ver.goal('the number of operators is that of the base order', p, a['n_indices'] == z3.Int('n_indices'))
    same(ver, p, 'signs refer to the base order', a['base_order_map'], z3.Const('base_order_map', Elem))
    open_sets(ver, p, a)
    return obj(PROC(a['contraction'].key, a['elementary_contractions'].key, a['expand_hole']), 'list')


def mk_list(ver, p, a, kw):
    if len(a) == 1 and isinstance(a[0], O):
        return a[0]
    return ver.builtin('list', a, kw, p)


def mk_len(ver, p, a, kw):
    if len(a) == 1 and isinstance(a[0], O) and '#len' in a[0].attrs:
        return a[0].attrs['#len']
    return ver.builtin('len', a, kw, p)


def opr(e):
    return O({'n_cre': NCRE(e), 'n_ann': NANN(e)}, {}, key=e, cls='SecondQuantizedOperator')


def start(ver, p):
    ver.ops = ver.new(p, ver.seq(NOPS, lambda j: opr(OPAT(j))))
    ver.upper = O({'#items': ver.seq(NUP, lambda j: label(UP(j))), '#len': NUP}, key=z3.Const('upper_indices_set', Elem), cls='set')
    ver.lower = O({'#items': ver.seq(NLO, lambda j: label(LO(j))), '#len': NLO}, key=z3.Const('lower_indices_set', Elem), cls='set')
    e, i = z3.Const('e!', Elem), z3.Int('i!')
    return dict(LIMITS, ops_list=ver.ops), [NOPS >= 0, NUP >= 0, NLO >= 0, z3.Int('n_indices') == NUP + NLO, NPROC >= 1, z3.Int('cpu_count') >= 1, BATCH >= 0,
                                            z3.ForAll([e], NEC(e) >= 0)]


def weigh(ver, v):
    return W(ver.encode(v) if not (isinstance(v, O) and v.key is not None) else v.key)


def gen_post(ver, p, v):
    q = p.copy()
    q.env.clear()
    n = z3.Int('n_indices')
    srt = lambda n, f: mk_sorted(ver, q, [ver.new(q, ver.seq(n, lambda j: index(NAME(f(j)))))], {})
    sq = mk_sq(ver, q, [srt(NUP, UP), srt(NLO, LO)], {})
    order = tuple(ver.comp_map(sq.attrs['cre_ops'], lambda x: ORDER(ver.encode(('u', x.attrs['name']))))) + \
        tuple(ver.comp_map(ver.pieces(ver.slice(ver.new(q, sq.attrs['ann_ops']), [None, None, z3.IntVal(-1)], q), q), lambda x: ORDER(ver.encode(('l', x.attrs['name'])))))
    plain = weigh(ver, (One((PARITY(INV(ver.encode(order))), (), sq)),))
    e = EC(OPS, ALLOWED(OPS, MAXCU))
    lo, hi = z3.simplify(n - MAXO), z3.simplify(n - MINO)
    want = ver.measure(ver.seq(NCON(e, lo, hi), lambda j: obj(PROC(CON(e, lo, hi, j), e, HOLE), 'list')), lambda x: weigh(ver, x))
    got = ver.measure(ver.pieces(v, p), lambda x: weigh(ver, x))
    yield 'the uncontracted product if that many open operators are allowed, then every composite contraction once', \
        got == z3.If(z3.And(MINO <= n, n <= MAXO), plain, 0) + want


SYS = O({}, {'setrecursionlimit': lambda ver, p, a, kw: None}, cls='module')
MATH = O({'sqrt': Fn(lambda ver, p, a, kw: Opaque())}, cls='module')
G = {'check_max_cu': Fn(b_rank, PATH, 'check_max_cu'), 'generate_base_order_map': Fn(b_base, PATH, 'generate_base_order_map'),
     'multiprocessing': MP, 'sys': SYS, 'math': MATH, 'len': Typ('len', mk_len), 'list': Typ('list', mk_list), 'set': Typ('set', mk_set)}
GG = dict(G, Index=Typ('Index', mk_index), sorted=Typ('sorted', mk_sorted), SecondQuantizedOperator=Typ('SecondQuantizedOperator', mk_sq), Permutation=Typ('Permutation', mk_perm),
          compute_elementary_contractions_list=Fn(b_ec, PATH, 'compute_elementary_contractions_list'),
          compute_compatible_elementary_contractions_list=Fn(b_compat, PATH, 'compute_compatible_elementary_contractions_list'),
          composite_contractions_backtrack=Fn(b_backtrack, PATH, 'composite_contractions_backtrack'),
          process_composite_contractions=Fn(b_process, PATH, 'process_composite_contractions'),
          estimate_batch_size=Fn(lambda ver, p, a: Opaque(), PATH, 'estimate_batch_size'))
general = SumContract('compute_operator_contractions_general', PATH, start, gen_post, globals=GG, element=lambda ver, e: opr(e))


# ---------------------------------------------------------------- connected
NCAT = z3.Function('n_categories', Elem, I)
SEQ = z3.Function('descending_by_length', Elem, Elem)
CATD = z3.Function('categorized', Elem, Elem, Elem)
COMPATC = z3.Function('compatible_categorized', Elem, Elem)
NMAC = z3.Function('n_macro', Elem, I, I, Elem, Elem, I)
MAC = z3.Function('macro', Elem, I, I, Elem, Elem, I, Elem)
PROCC = z3.Function('processed_categorized', Elem, Elem, B, Elem)
KEYS = z3.Function('keys', Elem, Elem)
CATS = z3.Function('categories', Elem, Elem)


def b_cat(ver, p, a):
    the_ops(ver, p, 'elementary contractions of the given operators', a['ops_list'])
    e = EC(OPS, a['max_cu'])
    return O({'#len': NCAT(e)}, {'keys': lambda ver, p, a, kw: O({'keys_of': e}, {}, key=KEYS(e), cls='keys')}, key=e, cls='dict')


def cat_sorted(ver, p, a, kw):
    """sorted(keys, key=(length, key), reverse=True)"""
    v = a[0]
    if len(a) != 1 or not isinstance(v, O) or set(kw) != {'key', 'reverse'}:
        raise Unsupported('sorted')
    x = O({'#len': z3.Function('key_length', Elem, I)(z3.Const('x!', Elem))}, {}, key=z3.Const('x!', Elem), cls='tuple')
    k = ver.apply(kw['key'], [x], {}, p)
    ver.goal('categories are sorted by length, then by operators, longest first', p,
             z3.And(ver.truth(kw['reverse'], p), z3.BoolVal(isinstance(k, tuple) and len(k) == 2 and k[1] is x and ver.key(k[0]) == ver.key(x.attrs['#len']))))
    return obj(SEQ(v.attrs['keys_of'] if 'keys_of' in v.attrs else v.key), 'list')


def mk_cat(ver, p, a, kw):
    b = ver.bind(find(PATH, 'ElementaryContractionCategorized.__init__'), a, kw, p, skip=1)
    e = CATD(b['ele_con_categorized'].key, b['category_sequence'].key)
    return O({'categories': obj(CATS(e), 'list')}, {'size': lambda ver, p, a, kw: NEC(e), 'compatible_elementary_contractions': lambda ver, p, a, kw: obj(COMPATC(e), 'dict') if not a and not kw else None},
             key=e, cls='ElementaryContractionCategorized')


def b_macro(ver, p, a):
    lo, hi = a['n_con']
    ver.goal('the search starts with nothing chosen', p, z3.BoolVal(empty(ver, p, a['chosen']) and empty(ver, p, a['ops_so_far'])))
    ver.goal('the search starts from no contraction, all cumulants so far', p, z3.And(a['n_con_so_far'] == 0, ver.truth(a['all_cu_so_far'], p)))
    c, d = ver.encode(ver.pieces(a['cre_available'], p)), ver.encode(ver.pieces(a['ann_available'], p))
    n = NMAC(a['available'].key, lo, hi, c, d)
    p.facts.append(n >= 0)
    m = lambda j: MAC(a['available'].key, lo, hi, c, d, j)
    return ver.new(p, ver.seq(n, lambda j: O({}, {'__slice__': lambda ver, p, abc, kw: obj(m(j), 'list') if abc == [None] * 3 else None}, key=m(j), cls='list')))


def b_processc(ver, p, a):
    ver.goal('the number of operators is that of the base order', p, a['n_indices'] == z3.Int('n_indices'))
    same(ver, p, 'signs refer to the base order', a['base_order_map'], z3.Const('base_order_map', Elem))
    open_sets(ver, p, a)
    same(ver, p, 'the compatible sets belong to the categorized contractions', a['compatible'], COMPATC(a['ele_con'].key))
    return obj(PROCC(a['com_cat'].key, a['ele_con'].key, a['expand_hole']), 'list')


def con_post(ver, p, v):
    n = z3.Int('n_indices')
    e = EC(OPS, ALLOWED(OPS, MAXCU))
    d = CATD(e, SEQ(e))
    lo, hi = z3.simplify(n - MAXO), z3.simplify(n - MINO)
    c, a = ver.encode(ver.seq(NOPS, lambda j: NCRE(OPAT(j)))), ver.encode(ver.seq(NOPS, lambda j: NANN(OPAT(j))))
    want = ver.measure(ver.seq(NMAC(CATS(d), lo, hi, c, a), lambda j: obj(PROCC(MAC(CATS(d), lo, hi, c, a, j), d, HOLE), 'list')), lambda x: weigh(ver, x))
    got = ver.measure(ver.pieces(v, p), lambda x: weigh(ver, x))
    yield 'the contractions of every choice of categories once', got == z3.If(NCAT(e) == 0, 0, want)


GCN = dict(G, sorted=Typ('sorted', cat_sorted), ElementaryContractionCategorized=Typ('ElementaryContractionCategorized', mk_cat),
           compute_elementary_contractions_categorized=Fn(b_cat, PATH, 'compute_elementary_contractions_categorized'),
           contracted_operator_backtrack_macro=Fn(b_macro, PATH, 'contracted_operator_backtrack_macro'),
           process_composite_categorized=Fn(b_processc, PATH, 'process_composite_categorized'))
connected = SumContract('compute_operator_contractions_connected', PATH, start, con_post, globals=GCN, element=lambda ver, e: opr(e))


# ---------------------------------------------------------------- dispatch
RES = {k: z3.Function(k, Elem, I, I, I, B, Elem) for k in ('general', 'connected')}


def b_driver(k):
    def f(ver, p, a):
        the_ops(ver, p, 'contractions of the given operators', a['ops_list'])
        return obj(RES[k](OPS, a['max_cu'], a['max_n_open'], a['min_n_open'], a['expand_hole']), 'iterator')
    return Fn(f, PATH, 'compute_operator_contractions_' + k)


def dis_start(ver, p):
    d, f = start(ver, p)
    return dict(d, for_commutator=z3.Bool('for_commutator')), f


def dis_post(ver, p, v):
    a = (OPS, MAXCU, MAXO, MINO, HOLE)
    if not isinstance(v, O) or v.key is None:
        raise Unsupported('result')
    yield 'connected contractions for commutators, all contractions otherwise, within the given limits', v.key == z3.If(z3.Bool('for_commutator'), RES['connected'](*a), RES['general'](*a))


dispatch = SumContract('compute_operator_contractions', PATH, dis_start, dis_post, globals={'compute_operator_contractions_' + k: b_driver(k) for k in RES}, element=lambda ver, e: opr(e))


def lemmas(pr):
    pass

"""Products, commutators and BCH expansions (C11), batches (C20): what the assembled lists of terms add up to."""
import z3
from sums import *

PROPS = ['C11']
ASSUMES = ['value of a list of terms = sum of an arbitrary linear functional over its elements (an identity for every functional is an identity of the operators)',
           'contract_terms is used through its contract (proved in C11/C20 product); combine_terms through its contract (C10); Term.from_term gives an equal term, minus the term with flip_sign, the conjugate with hc (bounded check in C13)',
           'hamiltonian_operator and cluster_operator are used through their contracts (C17)']
PATH = 'dsrg_generator/phys_op_contraction.py'
COEFF = z3.Function('coeff', Elem, R)
NT = z3.Function('n_tensors', Elem, I)
TENS = z3.Function('tensor', Elem, I, Elem)
OP = z3.Function('sq_op', Elem, Elem)
NOOP = z3.Function('is_empty', Elem, B)
BODY = z3.Function('body', Elem, Elem, R)             # value of tensors and operator with coefficient 1
PRODUCT = z3.Function('product', Elem, I, I, I, B, B, B, R)   # contracted product of a list of terms, scale 1
COMM = z3.Function('commutator', Elem, Elem, I, I, I, B, B, B, R)


def op(e):
    return O(methods={'is_empty': lambda ver, p, a, kw: NOOP(e)}, key=e, cls='SecondQuantizedOperator')


def term(ver, e):
    j = ver.fresh('j')
    return O({'coeff': COEFF(e), 'list_of_tensors': (Fam(NT(e), j, TRUE, (One(O(key=TENS(e, j), cls='Tensor')),)),), 'sq_op': op(OP(e)),
              'n_tensors': NT(e)}, key=e, value=TV(e), cls='Term')


def terms(ver, p, name):
    """a list of terms"""
    n = z3.Int(name + '.n')
    at = z3.Function(name, I, Elem)
    p.facts.append(n >= 0)
    return ver.new(p, ver.seq(n, lambda j: term(ver, at(j))))


def b_combine(ver, p, a):
    """combine_terms: same value, sorted, no two like terms (contract proved for C10)"""
    l = a['terms']
    if not (isinstance(l, Ref) and l.kind == 'list'):
        raise Unsupported('combine_terms of something else')
    r = ver.result(p, 'combined', ver.value(ver.pieces(l, p)))
    ver.combined = getattr(ver, 'combined', []) + [ver.key(r)]
    return ver.new(p, r)


def b_contract(ver, p, a):
    ps = ver.pieces(a['terms'], p)
    return ver.new(p, ver.result(p, 'contracted', ver.real(a['scale_factor']) * PRODUCT(
        ver.encode(ps), a['max_cu'], a['max_n_open'], a['min_n_open'], a['for_commutator'], a['expand_hole'], a['hermitian_tensor'])))


def b_single(ver, p, a):
    l, r = a['left'], a['right']
    return ver.new(p, ver.result(p, 'single', ver.real(a['scale_factor']) * COMM(
        l.key, r.key, a['max_cu'], a['max_n_open'], a['min_n_open'], a['for_commutator'], a['expand_hole'], a['hermitian_tensor'])))


def fn(f, name):
    return Fn(f, PATH, name)


def is_combined(ver, ps):
    try:
        return not ps or ver.key(ps) in getattr(ver, 'combined', [])
    except Unsupported:
        return False        # elements made here, not by combine_terms


NUMS = dict(max_cu=z3.Int('max_cu'), max_n_open=z3.Int('max_n_open'), min_n_open=z3.Int('min_n_open'), for_commutator=z3.Bool('for_commutator'),
            expand_hole=z3.Bool('expand_hole'), hermitian_tensor=z3.Bool('hermitian_tensor'), n_process=z3.Int('n_process'))
SCALE = z3.Real('scale_factor')


def params(*drop):
    return {k: v for k, v in NUMS.items() if k not in drop}


def listing(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'list'):
        raise Unsupported('the result is not a list')
    return ver.pieces(v, p)


# ---------------------------------------------------------------- [left, right]
def sc_start(ver, p):
    ver.l, ver.r = term(ver, z3.Const('left', Elem)), term(ver, z3.Const('right', Elem))
    return dict(params(), left=ver.l, right=ver.r, scale_factor=SCALE), [NUMS['n_process'] >= 1]


def sc_post(ver, p, v):
    ps = listing(ver, p, v)
    P = lambda a, b: PRODUCT(ver.encode((One(a), One(b))), *[NUMS[k] for k in ('max_cu', 'max_n_open', 'min_n_open', 'for_commutator', 'expand_hole', 'hermitian_tensor')])
    zero = z3.And(NUMS['for_commutator'], z3.Or(NOOP(OP(ver.l.key)), NOOP(OP(ver.r.key))))
    yield 'left-right product minus right-left product', ver.value(ps) == z3.If(zero, 0, SCALE * (P(ver.l, ver.r) - P(ver.r, ver.l)))
    yield 'like terms are combined', is_combined(ver, ps)


G = {'combine_terms': fn(b_combine, 'combine_terms'), 'contract_terms': fn(b_contract, 'contract_terms'),
     'single_commutator': fn(b_single, 'single_commutator')}
single = SumContract('single_commutator', PATH, sc_start, sc_post, globals={k: G[k] for k in ('combine_terms', 'contract_terms')}, element=term)


# ---------------------------------------------------------------- all pairs
def comm(l, r, mc, mx, mn, fc, eh, ht):
    return COMM(l.key, r.key, mc, mx, mn, fc, eh, ht)


def all_pairs(ver, left, right, f):
    return ver.measure(left, lambda l: ver.measure(right, lambda r: f(l, r)))


def lc_start(ver, p):
    ver.left, ver.right = terms(ver, p, 'left_terms'), terms(ver, p, 'right_terms')
    return dict(params('expand_hole'), left_terms=ver.left, right_terms=ver.right, scale_factor=SCALE), []


def lc_post(ver, p, v):
    ps = listing(ver, p, v)
    N = NUMS
    want = all_pairs(ver, p.heap[ver.left.cell], p.heap[ver.right.cell],
                     lambda l, r: SCALE * comm(l, r, N['max_cu'], N['max_n_open'], N['min_n_open'], N['for_commutator'], z3.BoolVal(True), N['hermitian_tensor']))
    yield 'sum of the commutators over all pairs', ver.value(ps) == want
    yield 'like terms are combined', is_combined(ver, ps)


linear = SumContract('linear_commutator', PATH, lc_start, lc_post, globals=G, element=term)

LC = z3.Function('linear_commutator', Elem, Elem, I, I, I, B, B, R)
CLUSTER = z3.Function('cluster_operators', Elem, I, B, B, I, Elem)
NCLUSTER = z3.Function('n_cluster_operators', Elem, I, B, B, I)


def levels(ver, p, name='cluster_levels'):
    n = z3.Int(name + '.n')
    f = z3.Function(name, I, I)
    p.facts.append(n >= 0)
    j = z3.Int('j!')
    p.facts.append(z3.ForAll([j], f(j) >= 1))
    return ver.new(p, ver.seq(n, lambda j: f(j)))


def b_linear(ver, p, a):
    r = ver.result(p, 'linear', ver.real(a['scale_factor']) * LC(
        ver.encode(ver.pieces(a['left_terms'], p)), ver.encode(ver.pieces(a['right_terms'], p)), a['max_cu'], a['max_n_open'], a['min_n_open'],
        a['for_commutator'], a['hermitian_tensor']))
    ver.combined = getattr(ver, 'combined', []) + [ver.key(r)]
    return ver.new(p, r)


def cluster_list(ver, p, lv, start, unitary, single_ref):
    lv = ver.encode(ver.pieces(lv, p))
    n = NCLUSTER(lv, start, unitary, single_ref)
    p.facts.append(n >= 0)
    return ver.seq(n, lambda j: term(ver, CLUSTER(lv, start, unitary, single_ref, j)))


def b_cluster(ver, p, a):
    return ver.new(p, cluster_list(ver, p, a['levels'], a['start'], a['unitary'], a['single_reference']))


def la_start(ver, p):
    ver.left, ver.lv = terms(ver, p, 'left_terms'), levels(ver, p)
    return dict(params('expand_hole'), left_terms=ver.left, cluster_levels=ver.lv, scale_factor=SCALE, start=z3.Int('start'), unitary=z3.Bool('unitary'),
                single_reference=z3.Bool('single_reference')), []


def la_post(ver, p, v):
    ps = listing(ver, p, v)
    N = NUMS
    right = cluster_list(ver, p, ver.lv, z3.Int('start'), z3.Bool('unitary'), z3.Bool('single_reference'))
    yield 'commutator with all cluster operators', ver.value(ps) == SCALE * LC(
        ver.encode(p.heap[ver.left.cell]), ver.encode(right), N['max_cu'], N['max_n_open'], N['min_n_open'], N['for_commutator'], N['hermitian_tensor'])
    yield 'like terms are combined', is_combined(ver, ps)


linear_amp = SumContract('linear_commutator_amp', PATH, la_start, la_post, element=term,
                         globals=dict(G, linear_commutator=fn(b_linear, 'linear_commutator'), cluster_operators=fn(b_cluster, 'cluster_operators')))

# ---------------------------------------------------------------- T or T - T^+
TPATH = 'dsrg_generator/Term.py'
AMP = z3.Function('cluster_operator', I, I, B, Elem, R, Elem, Elem, Elem, Elem)


def amp(ver, a):
    t = lambda x: ver.encode(x)
    return AMP(a['k'], a['start'], a['excitation'], t(a['name']), ver.real(a['scale_factor']), t(a['hole_label']), t(a['particle_label']), t(a['indices_type']))


def b_amp(ver, p, a):
    return term(ver, amp(ver, a))


def co_start(ver, p):
    ver.lv = levels(ver, p, 'levels')
    return dict(levels=ver.lv, start=z3.Int('start'), unitary=z3.Bool('unitary'), single_reference=z3.Bool('single_reference')), []


def co_post(ver, p, v):
    ps = listing(ver, p, v)
    sr, un = z3.Bool('single_reference'), z3.Bool('unitary')

    def want(s, u):
        out = []
        for exc, sc in ((True, 1), (False, -1)) if u else ((True, 1),):
            out += ver.seq(z3.Int('levels.n'), lambda j: term(ver, AMP(
                z3.Function('levels', I, I)(j), z3.Int('start'), z3.BoolVal(exc), ver.encode('T'), z3.RealVal(sc), ver.encode('c' if s else 'h'),
                ver.encode('v' if s else 'p'), ver.encode('spin-orbital'))))
        return sorted(ver.keys(out))
    for s in (True, False):
        for u in (True, False):
            cond = z3.And(sr if s else z3.Not(sr), un if u else z3.Not(un))
            if not ver.entails(p, z3.Not(cond)):
                yield f'single reference {s}, unitary {u}: one T (and -T^+) for each level', z3.And(cond, z3.BoolVal(sorted(ver.keys(ps)) == want(s, u)))


cluster = SumContract('cluster_operators', PATH, co_start, co_post, globals={'cluster_operator': Fn(b_amp, TPATH, 'cluster_operator')}, element=term)


# ---------------------------------------------------------------- nested commutators, level by level
def level_loop(ver, s, it, rest, p, k, initial, spec, old=()):
    """for i in range(1, ...): the list of level i comes from that of level i - 1"""
    dicts = [x for x, v in p.env.items() if isinstance(v, Ref) and v.kind == 'dict']
    assigned = {y.id for x in ast.walk(s) for t in (x.targets if isinstance(x, ast.Assign) else []) for y in ast.walk(t) if isinstance(y, ast.Name)
                and isinstance(y.ctx, ast.Store)}
    pools = [x for x in assigned if isinstance(p.env.get(x), Ref) and p.env[x].kind == 'list']
    if len(dicts) != 1 or len(pools) > 1:
        raise Unsupported('one result and one list of left terms')
    d = p.env[dicts[0]]
    if sorted(ver.key(x) for x, _ in p.heap[d.cell]['items']) != sorted(ver.key(z3.IntVal(x)) for x in old):
        raise Unsupported('the result is not empty')
    for x in pools:
        for n, f in initial(ver, p, p.heap[p.env[x].cell]):
            ver.goal(f'level 0: {n}', p, f)
    ver.goal('levels start at 1', p, it.lo == 1)
    PL = ver.func('pool.len', I, I)
    PA = ver.func('pool', I, I, Elem)
    pool = lambda q: (lambda: ver.seq(PL(q), lambda j: term(ver, PA(q, j))))()
    h = p.copy()
    pos = ver.fresh('level')
    q = z3.Int('q!')
    h.facts += [pos >= 0, pos <= it.n, z3.ForAll([q], PL(q) >= 0)]
    h.heap[d.cell] = dict(h.heap[d.cell], base=pool, has=lambda x, pos=pos: z3.And(x >= 1, x <= pos), read=[])
    cells = {}
    for x in pools:
        h.env[x] = ver.new(h, pool(pos))
        cells[x] = h.env[x].cell
    b = h.copy()
    b.facts.append(pos < it.n)
    ver.assign(s.target, z3.simplify(it.lo + pos), b)
    old_again = getattr(ver, 'again', None)
    lv = z3.simplify(pos + 1)

    def end(r):
        items = r.heap[d.cell]['items'][len(h.heap[d.cell]['items']):]
        new = [(x, y) for x, y in items if not any(x.eq(z) for z in r.heap[d.cell]['read'])]
        if len(new) != 1:
            ver.goal('one new level', r, z3.BoolVal(False))
            return
        ver.goal('the new entry is that of the level', r, new[0][0] == lv)
        for c, v in h.heap.items():
            if c != d.cell and r.heap.get(c) is not v:
                raise Unsupported('a list is changed in the loop over levels')
        ps = r.heap[new[0][1].cell]
        for x in pools:
            a = r.env[x]
            ver.goal('the next level starts from this one', r, z3.BoolVal(isinstance(a, Ref) and a.kind == 'list' and ver.key(r.heap[a.cell]) == ver.key(ps)))
        for n, f in spec(ver, r, ps, pool(pos), lv):
            ver.goal(n, r, f)
    ver.again = end
    ver.block(list(s.body), b, end)
    ver.again = old_again
    h.facts.append(pos == it.n)
    ver.block(rest, h, k)


def per_level(ver, p, name, kind, elem):
    """an int (tuple) for all levels or a list with one for each"""
    if kind == 'one':
        return elem(None), lambda i: elem(None), None
    n = z3.Int(name + '.n')
    p.facts.append(n >= 0)
    return ver.new(p, ver.seq(n, lambda j: elem(j))), lambda i: elem(z3.simplify(i)), n


MC1, MCF = z3.Int('max_cu'), z3.Function('max_cu_levels', I, I)
NO1, NO1F, NO2, NO2F = z3.Int('min_open'), z3.Function('min_opens', I, I), z3.Int('max_open'), z3.Function('max_opens', I, I)


def rs_start(kind):
    def f(ver, p):
        ver.ts = terms(ver, p, 'terms')
        mc, ver.mc, n1 = per_level(ver, p, 'max_cu_levels', kind, lambda i: MC1 if i is None else MCF(i))
        no, ver.no, n2 = per_level(ver, p, 'n_opens', kind, lambda i: (NO1, NO2) if i is None else (NO1F(i), NO2F(i)))
        ver.nl = [n for n in (n1, n2) if n is not None]
        ver.want_n = z3.Int('terms.n') - 1
        return dict(params('max_cu', 'max_n_open', 'min_n_open'), terms=ver.ts, max_cu_levels=mc, n_opens=no), []
    return f


def rs_raises(ver):
    return {'ValueError': z3.Or(z3.Int('terms.n') < 2, *[n != ver.want_n for n in ver.nl])}


def rs_inv(ver, s, it, rest, p, k):
    at = z3.Function('terms', I, Elem)

    def initial(ver, p, ps):
        yield 'the first term', z3.BoolVal(ver.keys(ps) == ver.keys((One(term(ver, at(0))),)))

    def spec(ver, r, ps, pool, i):
        N = NUMS
        mn, mx = ver.no(i - 1)
        want = ver.measure(pool, lambda l: comm(l, term(ver, at(i)), ver.mc(i - 1), mx, mn, N['for_commutator'], N['expand_hole'], N['hermitian_tensor']))
        yield 'each level is the commutator of the level before with the next term', ver.value(ps) == want
        yield 'like terms are combined at each level', z3.BoolVal(is_combined(ver, ps))
    level_loop(ver, s, it, rest, p, k, initial, spec)


def levels_post(last):
    def f(ver, p, v):
        if not (isinstance(v, Ref) and v.kind == 'dict'):
            raise Unsupported('the result is not a dictionary')
        d = p.heap[v.cell]
        if d['base'] is None:
            raise Unsupported('the result was not built level by level')
        q = z3.Int('q!')
        yield 'one entry for each level', z3.ForAll([q], d['has'](q) == z3.And(q >= 1, q <= last(ver)))
    return f


def mk_dict(ver, p, a, kw):
    if len(a) != 1 or not isinstance(a[0], Typ) or a[0].name != 'list' or kw:
        raise Unsupported('defaultdict')
    return ver.new(p, {'items': [], 'base': None, 'has': None, 'default': True, 'read': [], 'fam': []}, 'dict')


GD = dict(G, defaultdict=Typ('defaultdict', mk_dict))
recursive_one = SumContract('recursive_single_commutator', PATH, rs_start('one'), levels_post(lambda ver: ver.want_n), globals=GD, raises=rs_raises,
                            invariants=rs_inv, element=term, tag=' (one limit for all levels)')
recursive_list = SumContract('recursive_single_commutator', PATH, rs_start('list'), levels_post(lambda ver: ver.want_n), globals=GD, raises=rs_raises,
                             invariants=rs_inv, element=term, tag=' (limits level by level)')


# ---------------------------------------------------------------- BCH expansion
NL = z3.Int('nested_level')
MAXLV = z3.Int('max_cluster_level')
AMPS = z3.Function('amplitudes', Elem, B, B, I, I, Elem)      # level list, unitary, single reference, position in the nesting
NAMPS = z3.Function('n_amplitudes', Elem, B, B, I)
HX = z3.Function('expanded_hamiltonian', I, B, I, Elem)
NHX = z3.Function('n_expanded_hamiltonian', I, B, I)


def bch_start(kind):
    def f(ver, p):
        ver.lv = levels(ver, p)
        mc, ver.mc, n1 = per_level(ver, p, 'max_cu_levels', kind, lambda i: MC1 if i is None else MCF(i))
        no, ver.no, n2 = per_level(ver, p, 'n_opens', kind, lambda i: (NO1, NO2) if i is None else (NO1F(i), NO2F(i)))
        ver.nl = [n for n in (n1, n2) if n is not None]
        lf = z3.Function('cluster_levels', I, I)
        j = z3.Int('j!')
        n = z3.Int('cluster_levels.n')
        facts = [NL >= 0, n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), lf(j) <= MAXLV)), z3.Exists([j], z3.And(j >= 0, j < n, lf(j) == MAXLV))]
        return dict(params('max_cu', 'max_n_open', 'min_n_open'), nested_level=NL, cluster_levels=ver.lv, max_cu_levels=mc, n_opens=no,
                    single_reference=z3.Bool('single_reference'), unitary=z3.Bool('unitary')), facts
    return f


def bch_cluster(ver, p, a):
    """amplitudes of one level of nesting: their labels start after those of the Hamiltonian and of the levels before"""
    if not p.binders:
        raise Unsupported('amplitudes outside the list over levels')
    j = p.binders[-1]
    lv = ver.encode(ver.pieces(a['levels'], p))
    ver.goal('the labels of each level of amplitudes are its own', p, a['start'] >= 4 + 2 * MAXLV * j)
    n = NAMPS(lv, a['unitary'], a['single_reference'])
    p.facts.append(n >= 0)
    return ver.new(p, ver.seq(n, lambda m: term(ver, AMPS(lv, a['unitary'], a['single_reference'], j, m))))


def hx(ver, k, sr):
    return ver.seq(NHX(k, sr), lambda j: term(ver, HX(k, sr, j)))


def b_ham(ver, p, a):
    def expand(ver, q, args, kw):
        b = ver.bind(find(TPATH, 'Term.expand_composite_indices'), args, kw, q, skip=1)
        q.facts.append(NHX(a['k'], b['single_ref']) >= 0)
        return ver.new(q, hx(ver, a['k'], b['single_ref']))
    return O(methods={'expand_composite_indices': expand}, cls='Term')


def h_value(ver):
    sr = z3.Bool('single_reference')
    return ver.value(hx(ver, z3.IntVal(1), sr)) + ver.value(hx(ver, z3.IntVal(2), sr))


def bch_inv(ver, s, it, rest, p, k):
    def initial(ver, p, ps):
        yield 'starts from the expanded Hamiltonian', ver.value(ps) == h_value(ver)

    def spec(ver, r, ps, pool, i):
        N = NUMS
        mn, mx = ver.no(z3.simplify(i - 1))
        lv = ver.encode(ver.pieces(ver.lv, r))
        amps = ver.seq(NAMPS(lv, z3.Bool('unitary'), z3.Bool('single_reference')),
                       lambda m: term(ver, AMPS(lv, z3.Bool('unitary'), z3.Bool('single_reference'), z3.simplify(i - 1), m)))
        want = all_pairs(ver, pool, amps, lambda l, x: comm(l, x, ver.mc(z3.simplify(i - 1)), mx, mn, N['for_commutator'], N['expand_hole'], N['hermitian_tensor']))
        yield 'each level is the commutator of the level before with the amplitudes, divided by the level', z3.ToReal(i) * ver.value(ps) == want
        yield 'like terms are combined at each level', z3.BoolVal(is_combined(ver, ps))
    level_loop(ver, s, it, rest, p, k, initial, spec, old=(0,))


def bch_post(ver, p, v):
    if not (isinstance(v, Ref) and v.kind == 'dict'):
        raise Unsupported('the result is not a dictionary')
    zero = ver.dict_find(v, z3.IntVal(0), p)
    if zero is None:
        yield 'level 0 is present', z3.BoolVal(False)
    else:
        yield 'level 0 is the expanded Hamiltonian', ver.value(p.heap[zero.cell]) == h_value(ver)
    yield from levels_post(lambda ver: NL)(ver, p, v)


def t_from(ver, p, a, kw):
    """Term.from_term(term): an equal term"""
    b = ver.bind(find(TPATH, 'Term.from_term'), a, kw, p, skip=1)
    if not (z3.is_false(b['flip_sign']) and z3.is_false(b['hc'])):
        raise Unsupported('from_term')
    return b['term']


def bch_max(ver, p, a, kw):
    if len(a) == 1 and ver.key(ver.pieces(a[0], p)) == ver.key(ver.pieces(ver.lv, p)):
        return MAXLV
    return ver.builtin('max', a, kw, p)


GB = dict(GD, cluster_operators=fn(bch_cluster, 'cluster_operators'), hamiltonian_operator=Fn(b_ham, TPATH, 'hamiltonian_operator'),
          Term=Typ('Term', attrs={'from_term': Fn(t_from)}), max=Typ('max', bch_max))
bch_raises = lambda ver: {'ValueError': z3.Or(z3.BoolVal(False), *[n != NL for n in ver.nl])}
bch_one = SumContract('bch_cc_rsc', PATH, bch_start('one'), bch_post, globals=GB, raises=bch_raises, invariants=bch_inv, element=term, tag=' (one limit for all levels)')
bch_list = SumContract('bch_cc_rsc', PATH, bch_start('list'), bch_post, globals=GB, raises=bch_raises, invariants=bch_inv, element=term, tag=' (limits level by level)')


def lemmas(pr):
    pass

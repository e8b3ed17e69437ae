"""Expansions, diagonal parts, excitations and gradients of a term (C17); any number of tensors and labels, any limits."""
import ast
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C17']
ASSUMES = ['the tables of mo_space.py are the literals found there (read on every run)',
           'itertools.product of the elementary spaces of the open indices yields each choice of one elementary space per open index once',
           'the labels of the operator are different (no open index is diagonal), the term has at least one tensor',
           'Index(text) is the label with that space and number (C01); Term._generate_next_index, _replace_*_indices and _relabel_indices fulfil their contracts (C12), Term(...) keeps its parts (C13), canonicalize keeps the value (C12)']
LETTERS = [c for c in 'gphvcaGPHVCA']
S, _letters = z3.EnumSort('Space', ['space ' + c for c in LETTERS])
LETTER = dict(zip(LETTERS, _letters))
Choice = z3.DeclareSort('Choice')
MO = 'dsrg_generator/mo_space.py'
N = z3.Int('tensors.n')
TEN = z3.Function('tensor', I, Elem)
OPR = z3.Const('sq_op', Elem)
UPN, LOWN = z3.Function('n_upper', Elem, I), z3.Function('n_lower', Elem, I)
UPAT, LOWAT = z3.Function('upper', Elem, I, Elem), z3.Function('lower', Elem, I, Elem)
NI, IDX = z3.Function('n_indices', Elem, I), z3.Function('label', Elem, I, Elem)
SPACE, NUM, LBL = z3.Function('space', Elem, S), z3.Function('number', Elem, I), z3.Function('label_of', S, I, Elem)
POS = z3.Function('position', Elem, I)
ISC, ISA = z3.Function('is_creator', Elem, B), z3.Function('is_annihilator', Elem, B)
INSET, INT = z3.Function('in_indices_set', Elem, B), z3.Function('on_a_tensor', Elem, B)
CHOICE, CH = z3.Function('is_choice', Choice, B), z3.Function('space_chosen', Choice, I, S)
COEFF = z3.Real('coeff')
START = z3.Int('start')
TERM = z3.Function('term', Elem, R, Elem)
CANON = z3.Function('canonical', Elem, Elem)


def mo_tables():
    ns = {}
    body = [x for x in tree_of(MO).body if isinstance(x, ast.Assign)]
    exec(compile(ast.Module(body, []), MO, 'exec'), ns)
    return ns


def sv(x):
    return LETTER[x]


def isin(x, xs):
    return z3.Or(*[x == sv(y) for y in sorted(xs)]) if xs else z3.BoolVal(False)


TABLE = mo_tables()


def check_tables():
    if set(TABLE['space_relation']) != set(LETTERS) or set(TABLE['space_priority']) != set(LETTERS):
        raise Unsupported('letters of the spaces')


def LABEL(s):
    return z3.BoolVal(True)


def REL(s, u):
    rel = TABLE['space_relation']
    return z3.simplify(z3.Or(*[z3.And(s == sv(a), isin(u, rel[a])) for a in sorted(rel)]))


def REL0(s):
    return z3.simplify(isin(s, TABLE['space_relation_so']))


def BETA(s):
    return isin(s, [c for c in LETTERS if c.isupper()])


def LOWER(s):
    out = s
    for c in LETTERS:
        if c.isupper():
            out = z3.If(s == sv(c), sv(c.lower()), out)
    return out


def index(e):
    return O({'space': SPACE(e), 'number': NUM(e)}, {'is_beta': lambda ver, p, a, kw: BETA(SPACE(e))}, key=e, cls='Index')


def member(ver, k):
    return index(k) if k.sort() == Elem else k


def there(e, x):
    i = z3.Int('i?')
    return z3.Exists([i], z3.And(i >= 0, i < NI(e), IDX(e, i) == x))


def inside(n, at, e, x):
    i = z3.Int('i?')
    return z3.Exists([i], z3.And(i >= 0, i < n(e), at(e, i) == x))


def facts(order=True):
    """order: how the labels of the operator are listed together (creators, then annihilators)"""
    s, n, e, k, j = z3.Const('s!', S), z3.Int('n!'), z3.Const('e!', Elem), z3.Const('k!', Elem), z3.Int('j!')
    up, low = UPN(OPR), LOWN(OPR)
    check_tables()
    r = [
        z3.ForAll([s, n], z3.Implies(n >= 0, z3.And(SPACE(LBL(s, n)) == s, NUM(LBL(s, n)) == n)), patterns=[LBL(s, n)]),
        N >= 1, START >= 0, up >= 0, low >= 0, NI(OPR) == up + low,
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < up), z3.And(ISC(UPAT(OPR, j)), POS(UPAT(OPR, j)) == j)), patterns=[UPAT(OPR, j)]),
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < low), z3.And(ISA(LOWAT(OPR, j)), POS(LOWAT(OPR, j)) == j + up)), patterns=[LOWAT(OPR, j)]),
        z3.ForAll([k], z3.Implies(ISC(k), z3.And(POS(k) < up, POS(k) >= 0, UPAT(OPR, POS(k)) == k)), patterns=[ISC(k)]),
        z3.ForAll([k], z3.Implies(ISA(k), z3.And(POS(k) >= up, POS(k) < up + low, LOWAT(OPR, POS(k) - up) == k)), patterns=[ISA(k)]),
        z3.ForAll([k], INT(k) == z3.Exists([j], z3.And(j >= 0, j < N, there(TEN(j), k))), patterns=[INT(k)]),
        z3.ForAll([k], INSET(k) == z3.Or(ISC(k), ISA(k), INT(k)), patterns=[INSET(k)])]
    if order:
        r += [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < up + low), z3.And(IDX(OPR, j) == z3.If(j < up, UPAT(OPR, j), LOWAT(OPR, j - up)), POS(IDX(OPR, j)) == j)), patterns=[IDX(OPR, j)]),
              z3.ForAll([k], z3.Implies(z3.Or(ISC(k), ISA(k)), IDX(OPR, POS(k)) == k), patterns=[POS(k)])]
    return r


def mk_index(ver, p, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], Text) or len(a[0].parts) != 2:
        raise Unsupported('label')
    s, n = a[0].parts
    s = ver.text(s) if isinstance(s, str) else s
    if not (z3.is_expr(s) and s.sort() == S and z3.is_expr(n) and n.sort() == I):
        raise Unsupported('label')
    ver.goal('a label has a space of the table and a number that is not negative', p, z3.And(LABEL(s), n >= 0))
    return index(LBL(s, n))


def b_next(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._generate_next_index'), a, kw, p)
    s, m = b['space'], b['next_index']
    s = s if z3.is_expr(s) else ver.kz(s)
    if not (isinstance(m, Ref) and m.kind == 'map') or not z3.is_true(z3.simplify(b['add'])):
        raise Unsupported('next label')
    sort, dom, val, w = p.heap[m.cell]
    ver.goal('the space has a next number', p, dom(s))
    n = val(s)
    p.heap[m.cell] = (sort, dom, lambda k: z3.If(k == s, n + 1, val(k)), w + ((s, n + 1),))
    ver.goal('a label has a space of the table and a number that is not negative', p, z3.And(LABEL(s), n >= 0))
    return index(LBL(s, n))


def table_of(dom, rel):
    def get(ver, p, a, kw):
        s = a[0] if z3.is_expr(a[0]) else ver.kz(a[0])
        ver.goal('the space is in the table', p, dom(s))
        r = ver.new(p, ver.every(S, lambda t: rel(s, t)))
        ver.stored.add(r.cell)
        return Ref(r.cell, 'set')
    return O({}, {'__getitem__': get, 'keys': lambda ver, p, a, kw: ver.new(p, ver.every(S, dom))})


# ---------------------------------------------------------------- numbering of the labels
def numbering(want, base, also=None):
    """the labels seen have new labels, all different, of the wanted spaces, numbered from base on"""
    def inv(ver, start, q, vis):
        cells = list(start)
        nx = [c for c in cells if start[c][2](z3.Const('#k', start[c][0])).sort() == I]
        rp = [c for c in cells if start[c][2](z3.Const('#k', start[c][0])).sort() == Elem]
        if len(nx) != 1 or len(rp) != 1:
            raise Unsupported('replacement map and next numbers')
        (_, d0, v0), (_, d, v) = start[rp[0]][:3], q.heap[rp[0]][:3]
        (_, nd0, n0), (_, nd, n) = start[nx[0]][:3], q.heap[nx[0]][:3]
        k, l, s = z3.Const('k$', Elem), z3.Const('l$', Elem), z3.Const('s$', S)
        yield 'every label seen has a new label, no other', z3.ForAll([k], d(k) == z3.Or(d0(k), vis(k)))
        yield 'the new label has the space wanted and a number in use', z3.ForAll([k], z3.Implies(d(k), z3.And(want(ver, q, k, SPACE(v(k))), NUM(v(k)) >= base, NUM(v(k)) < n(SPACE(v(k))))))
        yield 'new labels are different', z3.ForAll([k, l], z3.Implies(z3.And(d(k), d(l), k != l), v(k) != v(l)))
        yield 'next numbers are not below the first', z3.And(*[z3.And(nd(s) == nd0(s), z3.Implies(nd(s), n(s) >= base)) for s in LETTER.values()])
        if also is not None:
            yield 'labels seen can be replaced', z3.ForAll([k], z3.Implies(d(k), also(k)))
    return inv


def covers(ver, o):
    if isinstance(o, tuple):
        o = o[0]
    if isinstance(o, O) and o.cls == 'Index':
        return lambda x: x == o.key
    if isinstance(o, O) and 'indices' in o.methods:
        return lambda x: there(o.key, x)
    raise Unsupported('loop over something without labels')


def part(e, cls=None):
    seq = lambda n, at: (lambda ver, p: labels(ver, p, n(e), lambda j: at(e, j)))
    up, lo = Lazy(seq(UPN, UPAT)), Lazy(seq(LOWN, LOWAT))
    return O({'upper_indices': up, 'lower_indices': lo, 'cre_ops': up, 'ann_ops': lo, 'n_ops': NI(e), 'n_body': UPN(e)},
             {'indices': lambda ver, p, a, kw: ver.new(p, ver.seq(NI(e), lambda j: index(IDX(e, j)))) if not a and not kw else ver.no('order of the labels'),
              'is_possible_excitation': lambda ver, p, a, kw: POSSIBLE}, key=e, cls=cls)


def labels(ver, p, n, at):
    ps = ver.seq(n, lambda j: index(at(j)))
    return O({'#items': ps, 'indices': Lazy(lambda ver, p: ver.new(p, ps)), 'size': n}, cls='Indices', key=ver.encode(ps))


POSSIBLE = z3.Bool('is_possible_excitation')
VOID = z3.Const('the empty term', Elem)


def tensors(ver, get=TEN):
    return ver.seq(N, lambda j: part(get(j), 'Tensor'))


def term(ver, p, **more):
    tens = ver.new(p, tensors(ver))
    ver.stored.add(tens.cell)

    def nums(ver, p):
        f = z3.Function('next_number', S, I)
        r = ver.new(p, (S, lambda k: LABEL(k), lambda k: f(k), ()), 'map')
        return r
    return O({'sq_op': part(OPR, 'SecondQuantizedOperator'), 'list_of_tensors': Lazy(lambda ver, p: tens), 'coeff': COEFF, 'n_body': UPN(OPR),
              'next_index_number': Lazy(nums), 'indices_set': Lazy(lambda ver, p: Ref(ver.new(p, ver.every(Elem, lambda k: INSET(k))).cell, 'set'))},
             dict({'_generate_next_index': b_next, '_relabel_indices': b_relabel, 'void': lambda ver, p, a, kw: O(key=VOID, cls='Term')}, **more), key=z3.Const('self', Elem), cls='Term')


def mk_term(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.__init__'), [None] + a, kw, p)
    t, o = b['list_of_tensors'], b['sq_op']
    if not isinstance(o, O):
        raise Unsupported('operator of a term')
    return termobj(TERM(parts(ver, ver.pieces(t, p), o.key), ver.real(ver.num(b['coeff']))))


def parts(ver, ps, op):
    """tensors (a term sorts them) and operator"""
    return ver.encode((tuple(sorted(shift(ver, ps), key=ver.key)), op))


def shift(ver, ps):
    """for j in range(lo, hi) written as for j in range(hi - lo)"""
    out = []
    for s in ps:
        if isinstance(s, Fam) and s.j.sort() == I:
            for c in conjuncts(s.guard):
                lo = c.arg(1) if z3.is_ge(c) and c.arg(0).eq(s.j) else c.arg(0) if z3.is_le(c) and c.arg(1).eq(s.j) else None
                if lo is not None and not any(x.eq(s.j) for x in consts_in(lo)) and len(conjuncts(s.guard)) == 1:
                    j = ver.fresh('j')
                    s = Fam(z3.simplify(s.n - lo), j, TRUE, ver.sub(s.pieces, s.j, z3.simplify(lo + j)))
        out.append(s)
    return tuple(out)


def termobj(k):
    return O({}, {'canonicalize': lambda ver, p, a, kw: termobj(CANON(k)) if not a and not kw else ver.no('options of canonicalize')}, key=k, cls='Term')


def binder(p):
    xs = [b for b in p.binders if b.sort() in (Choice, S)]
    return xs[-1:]


def valid_map(ver, p, m):
    """the map replaces every label of the term, by different labels of the wanted spaces"""
    sort, d, v = p.heap[m.cell][:3]
    k, l = z3.Consts('k? l?', Elem)
    ver.goal('every label of the term is replaced', p, z3.ForAll([k], z3.Implies(INSET(k), d(k))))
    ver.goal('labels are replaced by labels of the wanted space, numbered from the start', p, z3.ForAll([k], z3.Implies(INSET(k), z3.And(ver.con.want(ver, p, k, SPACE(v(k))), NUM(v(k)) >= ver.con.base))))
    ver.goal('different labels are replaced by different labels', p, z3.ForAll([k, l], z3.Implies(z3.And(INSET(k), INSET(l), k != l), v(k) != v(l))))


def by_choice(name, p, *sorts):
    c = binder(p)
    f = z3.Function(name, *([x.sort() for x in c] + list(sorts)))
    return lambda *a: f(*(c + list(a)))


def arg_map(ver, p, m):
    """all parts of one term are relabelled by the same map"""
    if not (isinstance(m, Ref) and m.kind == 'map'):
        raise Unsupported('replacement map')
    key = tuple(str(x) for x in binder(p))
    ver.maps = getattr(ver, 'maps', {})
    h = p.heap[m.cell]
    if not any(h is x for x in ver.maps.get(key, [])):
        valid_map(ver, p, m)
        ver.maps.setdefault(key, []).append(h)
    p.env['#map'] = p.env.get('#map', h)
    ver.goal('all parts of the term are relabelled alike', p, z3.BoolVal(p.env['#map'] is h))


def b_relabel(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._relabel_indices'), [None] + a, kw, p)
    arg_map(ver, p, b['replacement'])
    rt = by_choice('relabelled', p, I, Elem)
    return (by_choice('sign', p, R)(), ver.new(p, ver.seq(N, lambda j: part(rt(j), 'Tensor'))), part(by_choice('relabelled_operator', p, Elem)(), 'SecondQuantizedOperator'))


def b_rt(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._replace_tensors_indices'), a, kw, p)
    ver.goal('the tensors of the term are relabelled', p, z3.BoolVal(ver.keys(ver.pieces(b['input_tensors'], p)) == ver.keys(tensors(ver))))
    arg_map(ver, p, b['replacement'])
    rt = by_choice('relabelled', p, I, Elem)
    return ver.new(p, ver.seq(N, lambda j: part(rt(j), 'Tensor')))


def b_ro(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._replace_sq_op_indices'), a, kw, p)
    ver.goal('the operator of the term is relabelled', p, z3.BoolVal(isinstance(b['sq_op'], O) and b['sq_op'].key.eq(OPR)))
    arg_map(ver, p, b['replacement'])
    return part(by_choice('relabelled_operator', p, Elem)(), 'SecondQuantizedOperator')


def all_choices(ver, p, a, kw):
    """itertools.product(*[elementary spaces of i for i in the open indices])"""
    want = ver.seq(NI(OPR), lambda j: O(key=ver.encode(ver.every(S, lambda t: REL(SPACE(IDX(OPR, j)), t)))))
    if len(a) != 1 or not isinstance(a[0], Star) or kw:
        raise Unsupported('product')
    ver.goal('a choice is made from the elementary spaces of every open index', p, z3.BoolVal(ver.keys(a[0].pieces) == ver.keys(want)))
    c = ver.fresh('j', Choice)
    return ver.new(p, (Fam(ALL, c, CHOICE(c), (One(O({'#items': ver.seq(NI(OPR), lambda j: CH(c, j))}, key=z3.Function('choice', Choice, Elem)(c))),)),))


def choice_facts():
    c, j = z3.Const('c!', Choice), z3.Int('j!')
    return [z3.ForAll([c, j], z3.Implies(z3.And(CHOICE(c), j >= 0, j < NI(OPR)), REL(SPACE(IDX(OPR, j)), CH(c, j))), patterns=[CH(c, j)])]


GLOBALS = {'Index': Typ('Index', mk_index), 'space_relation': table_of(LABEL, REL), 'space_relation_so': table_of(REL0, REL), 'product': Typ('product', all_choices),
           'Term': Typ('Term', mk_term, {'_replace_sq_op_indices': Fn(b_ro), '_replace_tensors_indices': Fn(b_rt)}), '#letters': LETTER, '#text': {'lower': lambda s: LOWER(s)}}


# ---------------------------------------------------------------- expansion into elementary spaces
MC, MV, SR = z3.Int('max_core'), z3.Int('max_virt'), z3.Bool('single_ref')


def want_choice(ver, p, k, s):
    c = binder(p)
    if not c:
        raise Unsupported('replacement outside the choice')
    return s == z3.If(z3.Or(ISC(k), ISA(k)), CH(c[0], POS(k)), SPACE(k))


def ddca_start(ver, p):
    return dict(self=term(ver, p), max_core=MC, max_virt=MV, single_ref=SR, start=START), facts() + choice_facts()


def how_many(ver, c, s):
    j = ver.fresh('j')
    return z3.ToInt(ver.total(NI(OPR), j, TRUE, IND(LOWER(CH(c, j)) == sv(s))))


def kept(ver, c):
    return z3.And(CHOICE(c), how_many(ver, c, 'c') <= MC, how_many(ver, c, 'v') <= MV, z3.Implies(SR, how_many(ver, c, 'a') == 0))


def same_family(ver, pieces, sort, guard, elem):
    """one element for every x with the guard, no other"""
    if len(pieces) != 1 or not isinstance(pieces[0], Fam) or pieces[0].j.sort() != sort or len(pieces[0].pieces) != 1:
        return z3.BoolVal(False)
    f = pieces[0]
    g = f.guard
    x = f.pieces[0]
    while isinstance(x, Fam) and ver.conditional(x) and len(x.pieces) == 1:
        g, x = z3.And(g, x.guard), x.pieces[0]
    if not isinstance(x, One) or ver.key(x.v) != ver.key(elem(f.j)):
        return z3.BoolVal(False)
    return z3.ForAll([f.j], g == guard(f.j))


def ddca_post(ver, p, v):
    def elem(c):
        rt, ro = z3.Function('relabelled', Choice, I, Elem), z3.Function('relabelled_operator', Choice, Elem)
        return termobj(TERM(parts(ver, ver.seq(N, lambda j: part(rt(c, j), 'Tensor')), ro(c)), COEFF))
    yield 'one term for every choice within the limits, with the coefficient of the term', same_family(ver, ver.pieces(v, p), Choice, lambda c: kept(ver, c), elem)


def con(name, start, post, want, base, **kw):
    c = SumContract(name, TPATH, start, post, globals=GLOBALS, letters=S, member=member, labels=Elem, covers=covers, state=numbering(want, base, kw.pop('also', None)), **kw)
    c.want, c.base = want, base
    return c


ddca = con('Term.make_ddca', ddca_start, ddca_post, want_choice, START)


def same_value(ver, v, k):
    return z3.BoolVal(isinstance(v, O) and v.key is not None and ver.key(v) == ver.key(k))


# ---------------------------------------------------------------- all assignments of elementary spaces
EXP = z3.Function('expansion', I, I, B, I, Elem)


def b_ddca(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.make_ddca'), [None] + a, kw, p)
    ver.goal('the first number is not negative', p, b['start'] >= 0)
    return O(key=EXP(b['max_core'], b['max_virt'], b['single_ref'], b['start']))


def exp_start(ver, p):
    return dict(self=term(ver, p, make_ddca=b_ddca), single_ref=SR, start=START), facts()


def exp_post(ver, p, v):
    ok = isinstance(v, O) and v.key is not None and v.key.decl().eq(EXP)
    yield 'the choices of make_ddca', ok
    if ok:
        mc, mv, sr, st = v.key.children()
        yield 'no choice is excluded by a limit', z3.And(mc >= NI(OPR), mv >= NI(OPR))
        yield 'single reference and first number as asked', z3.And(sr == SR, st == START)


expand = SumContract('Term.expand_composite_indices', TPATH, exp_start, exp_post, globals=GLOBALS, letters=S)


# ---------------------------------------------------------------- diagonal part of a one-body term
CRE, ANN = UPAT(OPR, 0), LOWAT(OPR, 0)


def want_diag(ver, p, k, s):
    c = binder(p)
    if not c:
        raise Unsupported('replacement outside the choice')
    return s == z3.If(z3.Or(ISC(k), ISA(k)), c[0], SPACE(k))


def diag_start(ver, p):
    return dict(self=term(ver, p), single_ref=SR), facts(False) + [UPN(OPR) == LOWN(OPR)]


def diag_post(ver, p, v):
    def elem(s):
        rt, ro, sg = z3.Function('relabelled', S, I, Elem), z3.Function('relabelled_operator', S, Elem), z3.Function('sign', S, R)
        return termobj(CANON(TERM(parts(ver, ver.seq(N, lambda j: part(rt(s, j), 'Tensor')), ro(s)), ver.norm(COEFF * sg(s)))))
    guard = lambda s: z3.And(REL(SPACE(CRE), s), REL(SPACE(ANN), s), z3.Implies(SR, LOWER(s) != sv('a')))
    yield 'one canonical term for every elementary space the creator and the annihilator share', same_family(ver, ver.pieces(v, p), S, guard, elem)


diagonal = con('Term.make_one_body_diagonal', diag_start, diag_post, want_diag, z3.IntVal(0), raises=lambda ver: {'ValueError': UPN(OPR) != 1})


# ---------------------------------------------------------------- excitation part
def label_wanted(k):
    """the particle or hole label of the operator index k"""
    p, h = (lambda x: z3.If(BETA(SPACE(k)), sv(x.upper()), sv(x)) for x in 'ph')
    p = z3.If(SR, z3.If(BETA(SPACE(k)), sv('V'), sv('v')), z3.If(BETA(SPACE(k)), sv('P'), sv('p')))
    h = z3.If(SR, z3.If(BETA(SPACE(k)), sv('C'), sv('c')), z3.If(BETA(SPACE(k)), sv('H'), sv('h')))
    return z3.If(ISC(k), p, h)


def both(k, t):
    return z3.And(REL(label_wanted(k), t), REL(SPACE(k), t))


ELEMENTARY = 'cavCAV'


WANT, CAN = z3.Function('space_wanted', Elem, S, B), z3.Function('can_be_replaced', Elem, B)


def want_exc(ver, p, k, s):
    return z3.If(z3.Or(ISC(k), ISA(k)), WANT(k, s), s == SPACE(k))


def possible(k):
    return z3.Implies(z3.Or(ISC(k), ISA(k)), CAN(k))


def exc_facts():
    """the space wanted contains exactly what the space of the label shares with particles or holes; some of it must be left"""
    k, s = z3.Const('k!', Elem), z3.Const('s!', S)
    return [z3.ForAll([k, s], WANT(k, s) == z3.And(*[REL(s, sv(t)) == both(k, sv(t)) for t in ELEMENTARY]), patterns=[WANT(k, s)]),
            z3.ForAll([k], CAN(k) == z3.Or(*[both(k, sv(t)) for t in ELEMENTARY]), patterns=[CAN(k)])]


def exc_start(ver, p):
    return dict(self=term(ver, p, is_possible_excitation=lambda ver, p, a, kw: POSSIBLE), single_ref=SR), facts(False) + exc_facts()


def exc_post(ver, p, v):
    k = z3.Const('k?', Elem)
    ok = isinstance(v, O) and v.key is not None
    yield 'a term', ok
    if not ok:
        return
    if v.key.eq(VOID):
        yield 'the empty term only if a creator can be no particle or an annihilator no hole', z3.Or(z3.Not(POSSIBLE), z3.Exists([k], z3.And(z3.Or(ISC(k), ISA(k)), z3.Not(possible(k)))))
        return
    yield 'a term only if every creator can be a particle and every annihilator a hole', z3.And(POSSIBLE, z3.ForAll([k], z3.Implies(z3.Or(ISC(k), ISA(k)), possible(k))))
    rt, ro, sg = z3.Function('relabelled', I, Elem), z3.Const('relabelled_operator', Elem), z3.Real('sign')
    yield 'the relabelled term with its sign, canonical', same_value(ver, v, CANON(TERM(parts(ver, ver.seq(N, lambda j: part(rt(j), 'Tensor')), ro), ver.norm(COEFF * sg))))


excitation = con('Term.make_excitation', exc_start, exc_post, want_exc, z3.IntVal(0), also=possible)


# ---------------------------------------------------------------- gradient
AMP = z3.Function('is_amplitude', Elem, B)
OPOF = z3.Function('operator_of', Elem, Elem, Elem)


def labels_key(ver, p, x):
    if isinstance(x, O) and x.cls == 'Indices':
        return x.key
    return ver.encode(shift(ver, ver.pieces(x, p)))


def mk_op(ver, p, a, kw):
    b = ver.bind(find('dsrg_generator/SQOperator.py', 'SecondQuantizedOperator.__init__'), [None] + a, kw, p)
    k = OPOF(labels_key(ver, p, b['cre_ops']), labels_key(ver, p, b['ann_ops']))
    if not all(isinstance(b[x], O) and b[x].cls == 'Indices' for x in ('cre_ops', 'ann_ops')):
        k = z3.Function('of_kind', Elem, Elem, Elem)(k, ver.encode(b['indices_type']))      # the kind matters for texts only
    return O(key=k, cls='SecondQuantizedOperator')


def amp(e):
    o = part(e, 'Tensor')
    return O(dict(o.attrs, **{'#is ClusterAmplitude': AMP(e)}), o.methods, e, None, 'Tensor')


def grad_start(ver, p):
    t = term(ver, p)
    tens = ver.new(p, ver.seq(N, lambda j: amp(TEN(j))))
    ver.stored.add(tens.cell)
    t.attrs['list_of_tensors'] = Lazy(lambda ver, p: tens)
    return dict(self=t), [N >= 0, UPN(OPR) >= 0]


def grad_post(ver, p, v):
    def fam(g):
        j = ver.fresh('j')
        return Fam(N, j, g(j), (One(amp(TEN(j))),))

    def elem(j):
        e = TEN(j)
        rest = (fam(lambda i: z3.Not(AMP(TEN(i)))), fam(lambda i: z3.And(AMP(TEN(i)), i < j)), fam(lambda i: z3.And(AMP(TEN(i)), i > j)))
        op = OPOF(labels(ver, p, LOWN(e), lambda i: LOWAT(e, i)).key, labels(ver, p, UPN(e), lambda i: UPAT(e, i)).key)
        return termobj(CANON(TERM(parts(ver, rest, op), COEFF)))
    ps = ver.pieces(v, p)
    yield 'every amplitude once: the other tensors, its labels open, the coefficient of the term', same_family(ver, ps, I, lambda j: AMP(TEN(j)), elem) if len(ps) == 1 and isinstance(ps[0], Fam) and ps[0].n.eq(N) else z3.BoolVal(False)


gradient = SumContract('Term.gradient_t', TPATH, grad_start, grad_post, globals=dict(GLOBALS, ClusterAmplitude=Typ('ClusterAmplitude'), SecondQuantizedOperator=Typ('SecondQuantizedOperator', mk_op)),
                       member=member, letters=S, raises=lambda ver: {'NotImplementedError': UPN(OPR) != 0})


# ---------------------------------------------------------------- factories
FACT = z3.Function('factorial', I, I)
K = z3.Int('k')
KINDT, NAME = z3.Const('indices_type', Elem), z3.Const('name', Elem)
HL, PL = z3.Const('hole_label', Elem), z3.Const('particle_label', Elem)
EXC, SCALE = z3.Bool('excitation'), z3.Real('scale_factor')


TENSORS = 'dsrg_generator/Tensor.py'


def kind_of_tensor(name):
    """the class registered for a name, from the decorators and the table of names in Tensor.py"""
    base = [x for x in tree_of(TENSORS).body if isinstance(x, ast.ClassDef) and x.name == 'Tensor'][0]
    alias = [ast.literal_eval(x.value) for x in base.body if isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', '') == 'subclasses_alias'][0]
    if name not in alias:
        raise Unsupported('name of a tensor')
    c = [x.name for x in tree_of(TENSORS).body if isinstance(x, ast.ClassDef) for d in x.decorator_list
         if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and d.args[0].value == alias[name]]
    if len(c) != 1:
        raise Unsupported('class of a tensor')
    return c[0]


def make_tensor(ver, p, a, kw):
    if not a or not isinstance(a[0], str) or kw:
        raise Unsupported('kind of tensor')
    c = kind_of_tensor(a[0])
    b = ver.bind(find(TENSORS, c + '.__init__'), [None] + a[1:], {}, p)
    return tensor_of(ver, c, labels_key(ver, p, b['upper_indices']), labels_key(ver, p, b['lower_indices']), b['indices_type'], b['name'])


def tensor_of(ver, c, up, low, kind, name):
    return O(key=ver.encode((c, up, low, kind, name)), cls='Tensor')


def fact(ver, p, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported('factorial')
    p.facts.append(FACT(a[0]) >= 1)
    return FACT(a[0])


FACTORY = dict(GLOBALS, factorial=Typ('factorial', fact), Tensor=Typ('Tensor', None, {'make_tensor': Fn(make_tensor)}), SecondQuantizedOperator=Typ('SecondQuantizedOperator', mk_op))


def numbered(ver, label, lo, n):
    return ver.encode(ver.seq(n, lambda j: Text([label, z3.simplify(lo + j)])))


def of_kind(ver, c, a):
    return z3.Function('of_kind', Elem, Elem, Elem)(OPOF(c, a), ver.encode(KINDT))


def is_term(ver, v, tensor, op, coeff):
    ok = isinstance(v, O) and v.key is not None and v.key.decl().eq(TERM)
    yield 'a term', ok
    if ok:
        yield 'one tensor and one operator with the labels numbered from the start', z3.BoolVal(ver.key(v.key.arg(0)) == ver.key(parts(ver, (One(tensor),), op)))
        yield 'the coefficient', v.key.arg(1) == coeff


def ham_start(ver, p):
    return dict(k=K, start=START, indices_type=KINDT), [K >= 1, START >= 0]


def ham_post(ver, p, v):
    first, second = numbered(ver, 'g', START, K), numbered(ver, 'g', START + K, K)
    return is_term(ver, v, tensor_of(ver, 'HamiltonianTensor', second, first, KINDT, 'H'), of_kind(ver, first, second), 1 / z3.ToReal(FACT(K) * FACT(K)))


hamiltonian = SumContract('hamiltonian_operator', TPATH, ham_start, ham_post, globals=FACTORY)


def cl_start(ver, p):
    return dict(k=K, start=START, excitation=EXC, name=NAME, scale_factor=SCALE, hole_label=HL, particle_label=PL, indices_type=KINDT), [K >= 1, START >= 0]


def cl_post(ver, p, v):
    hole, part_ = numbered(ver, HL, START, K), numbered(ver, PL, START, K)
    ops = of_kind(ver, part_, hole) if ver.entails(p, EXC) else of_kind(ver, hole, part_)
    yield 'excitation or not', z3.Or(ver.entails(p, EXC), ver.entails(p, z3.Not(EXC)))
    yield from is_term(ver, v, tensor_of(ver, 'ClusterAmplitude', hole, part_, KINDT, NAME), ops, SCALE / z3.ToReal(FACT(K) * FACT(K)))


cluster = SumContract('cluster_operator', TPATH, cl_start, cl_post, globals=FACTORY)


def lemmas(pr):
    pass

"""Composite contractions turned into signs, densities and remaining operators (C08); any number of operators and contractions."""
import z3
from sums import *
import sums_driver
from sums_driver import ORDER, INV, SQ, PATH, obj

PROPS = ['C08']
ASSUMES = ['sympy Permutation(l).inversions() is the number of inversions of l',
           'itertools.product of the expansions of the hole densities yields each choice of one tensor per hole density once',
           'the labels of each kind in the operators are different; sorted gives the labels in ascending order (C01)',
           'HoleDensity.expand is proved in C08 (Kronecker delta, one-body cumulant unless the space is virtual)']
N = z3.Int('contractions.n')
C = z3.Function('contraction', I, I)
DEN = z3.Function('elementary_contraction', I, Elem)
HOLES = z3.Function('is_hole', Elem, B)
NU = z3.Function('rank', Elem, I)
UP, LO = z3.Function('upper', Elem, I, Elem), z3.Function('lower', Elem, I, Elem)      # names of the labels
BARE = z3.Function('without_first_letter', Elem, Elem)
IN = {c: z3.Function(f'in_{c}_set', Elem, B) for c in 'ul'}
NIND = z3.Int('n_indices')
EXPAND = z3.Function('expansion', Elem, Elem)
Choice = z3.DeclareSort('Choice')
CHOICE = z3.Function('is_choice', Choice, B)
CHOSEN = z3.Function('chosen', Choice, I, Elem)
ISCU = z3.Function('is_cumulant', Elem, B)
W = z3.Function('weight', Elem, R)
KINDS = {k: Typ(k) for k in ('HoleDensity', 'Cumulant')}
FLAG = z3.Bool('expand_hole')
EMPTY = z3.Const('operator without labels', Elem)


def label(e):
    return O({'name': obj(e, 'str')}, {}, key=e, cls='Index')


def labels(ver, n, at):
    ps = ver.seq(n, lambda j: label(at(j)))
    return O({'#items': ps, 'size': n}, {'__slice__': lambda ver, p, abc, kw: ver.slice(ver.new(p, ps), abc, p), '__getitem__': lambda ver, p, a, kw: ver.at(ps, ver.num(a[0]), p)}, key=ver.encode(ps), cls='IndicesSpinOrbital')


def density(ver, e):
    return O({'n_upper': NU(e), 'n_lower': NU(e), 'n_body': NU(e), '#is HoleDensity': HOLES(e), '#is Cumulant': z3.Not(HOLES(e)),
              'upper_indices': Lazy(lambda ver, p: labels(ver, NU(e), lambda j: UP(e, j))), 'lower_indices': Lazy(lambda ver, p: labels(ver, NU(e), lambda j: LO(e, j)))},
             {'expand': lambda ver, p, a, kw: obj(EXPAND(e), 'list') if not a and not kw else None}, key=e, cls='Tensor')


def base_facts():
    e = z3.Const('e!', Elem)
    kind = z3.Function('first_letter', Elem, Elem)
    u = {c: structure(c) for c in 'ul'}
    return [N >= 1, z3.ForAll([e], NU(e) >= 1), z3.ForAll([e], z3.Implies(HOLES(e), NU(e) == 1)), u['u'] != u['l']] + \
        [z3.ForAll([e], z3.And(BARE(letter(c, e)) == e, kind(letter(c, e)) == u[c]), patterns=[letter(c, e)]) for c in 'ul'] + \
        [z3.ForAll([e], z3.Implies(IN[c](e), letter(c, BARE(e)) == e), patterns=[IN[c](e)]) for c in 'ul']


# ---------------------------------------------------------------- expansion of the hole densities
def exp_start(ver, p):
    ps = ver.seq(N, lambda j: density(ver, DEN(j)))
    ver.given = ver.new(p, ps)
    return dict(list_of_tensors=ver.given), [N >= 0, z3.ForAll([z3.Const('e!', Elem)], NU(z3.Const('e!', Elem)) >= 1)]


def holes(ver, f):
    j = ver.fresh('j')
    return (Fam(N, j, HOLES(DEN(j)), (One(f(j)),)),)


def others(ver):
    j = ver.fresh('j')
    return (Fam(N, j, z3.Not(HOLES(DEN(j))), (One(density(ver, DEN(j))),)),)


def chosen(ver, c):
    return holes(ver, lambda j: O({'#is Cumulant': ISCU(CHOSEN(c, j))}, {}, key=CHOSEN(c, j), cls='Tensor'))


def choices(ver, p, a, kw):
    if len(a) != 1 or not isinstance(a[0], Star) or kw:
        raise Unsupported('product')
    ver.goal('a choice is made from the expansion of every hole density', p, z3.BoolVal(ver.keys(a[0].pieces) == ver.keys(holes(ver, lambda j: obj(EXPAND(DEN(j)), 'list')))))
    c = ver.fresh('j', Choice)
    return ver.new(p, (Fam(ALL, c, CHOICE(c), (One(O({'#items': chosen(ver, c)}, key=z3.Function('choice', Choice, Elem)(c), cls='tuple')),)),))


def pair(ver, sign, ps):
    return W(ver.encode((ver.real(sign), tuple(ps))))


def weigh(ver, p, v):
    v = ver.deref(v, p)
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsupported('result')
    s, l = v
    return pair(ver, ver.num(s), ver.pieces(ver.deref(l, p), p))


def exp_post(ver, p, v):
    c = ver.fresh('j', Choice)
    some = ver.measure((Fam(ALL, c, CHOICE(c), (One(c),)),), lambda c: pair(ver, PARITY(z3.ToInt(ver.measure(chosen(ver, c), lambda t: IND(t.attrs['#is Cumulant'])))), others(ver) + chosen(ver, c)))
    none = pair(ver, z3.RealVal(1), ver.seq(N, lambda j: density(ver, DEN(j))))
    j = z3.Int('j?')
    yield 'the given tensors if there is no hole density, otherwise every choice of the terms of the expansions with its sign', \
        ver.measure(ver.pieces(v, p), lambda x: weigh(ver, p, x)) == z3.If(z3.Exists([j], z3.And(j >= 0, j < N, HOLES(DEN(j)))), some, none)


expand = SumContract('expand_hole_densities', PATH, exp_start, exp_post, globals=dict(KINDS, product=Typ('product', choices)), element=density)


# ---------------------------------------------------------------- one composite contraction
def letter(c, e):
    """the name with u or l in front"""
    return structure(Text((c, obj(e, 'str'))))


def name_of(k):
    """a label with u or l in front, the first letter can be cut off"""
    def sl(ver, p, abc, kw):
        a, b, c = abc
        if b is None and c is None and z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 1:
            return obj(BARE(k), 'str')
        raise Unsupported('slice of a label')
    return O({}, {'__slice__': sl}, key=k, cls='str')


def mk_index(ver, p, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], O) or a[0].cls != 'str':
        raise Unsupported('Index')
    return label(a[0].key)


def contracted(c, x, spec):
    """the label with u or l in front belongs to one of the densities"""
    j, i = z3.Ints('j? i?')
    n, den = spec
    at = UP if c == 'u' else LO
    return z3.Exists([j, i], z3.And(j >= 0, j < n, i >= 0, i < NU(den(j)), letter(c, at(den(j), i)) == x))


def opened(ver, p, c):
    """ascending labels of one kind that are not contracted"""
    b = [x for x in p.binders if x.sort() == I][:1]
    n, f = z3.Function(f'n_open_{c}', *([I] * len(b) + [I])), z3.Function(f'open_{c}', *([I] * (len(b) + 1) + [Elem]))
    p.facts.append(n(*b) >= 0)
    return n(*b), lambda j: f(*(b + [j]))


def mk_sorted(ver, p, a, kw):
    ps = ver.pieces(a[0], p)
    if len(a) != 1 or kw or len(ps) != 1 or not isinstance(ps[0], Fam) or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
        raise Unsupported('sorted')
    s = ps[0]
    x = s.pieces[0].v
    if s.j.sort() != Elem or not isinstance(x, O) or x.cls != 'Index':
        raise Unsupported('sorted')
    c = [c for c in 'ul' if IN[c].name() in s.guard.sexpr()]
    if len(c) != 1:
        raise Unsupported('sorted')
    c = c[0]
    k = z3.Const('k?', Elem)
    g, w = z3.substitute(s.guard, (s.j, k)), z3.And(IN[c](k), z3.Not(contracted(c, k, ver.con.spec(ver, p))))
    ver.goal('every open label is of the kind and not contracted', p, z3.ForAll([k], z3.Implies(g, w)))
    ver.goal('every label of the kind that is not contracted is open', p, z3.ForAll([k], z3.Implies(w, g)))
    ver.goal('the open labels are sorted by label', p, z3.simplify(x.key == BARE(s.j)))
    n, at = opened(ver, p, c)
    return ver.new(p, ver.seq(n, lambda j: label(at(j))))


def mk_indices(ver, p, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported('indices')
    ps = ver.pieces(a[0], p)
    if len(ps) != 1 or not isinstance(ps[0], Fam):
        raise Unsupported('indices')
    s = ps[0]
    return labels(ver, s.n, lambda j: ver.sub(s.pieces[0].v, s.j, j).key)


def mk_sq(ver, p, a, kw):
    b = ver.bind(find('dsrg_generator/SQOperator.py', 'SecondQuantizedOperator.__init__'), a, kw, p, skip=1)
    if b['indices_type'] not in ('so', 'spin-orbital'):
        raise Unsupported('kind of indices')
    return obj(SQ(ver.encode(ver.pieces(b['cre_ops'], p)), ver.encode(ver.pieces(b['ann_ops'], p))), 'SecondQuantizedOperator')


def mk_perm(ver, p, a, kw):
    e = ver.encode(ver.pieces(a[0], p))
    return O({}, {'inversions': lambda ver, p, a, kw: INV(e) if not a and not kw else None}, key=e, cls='Permutation')


def order_map(ver):
    def get(ver, p, a, kw):
        return ORDER(ver.kz(a[0]))
    return O({'#len': NIND}, {'__getitem__': get}, key=z3.Const('base_order_map', Elem), cls='dict')


def com_start(ver, p):
    p.env.clear()
    x = ver.new(p, ver.seq(N, lambda j: C(j)))
    ele = O({}, {'__getitem__': lambda ver, p, a, kw: density(ver, DEN(ver.num(a[0])))}, cls='list', key=z3.Const('elementary_contractions', Elem))
    sets = [Ref(ver.new(p, ver.every(Elem, lambda k: IN[c](k))).cell, 'set') for c in 'ul']
    for s in sets:
        ver.stored.add(s.cell)
    return dict(contraction=x, elementary_contractions=ele, n_indices=NIND, expand_hole=FLAG, base_order_map=order_map(ver), upper_indices_set=sets[0], lower_indices_set=sets[1]), base_facts()


def com_spec(ver, p):
    return N, lambda j: DEN(C(j))


EXPANDED, NEXP, ESIGN = z3.Function('expanded', Elem, I, Elem), z3.Function('n_expanded', Elem, I), z3.Function('expansion_sign', Elem, I, R)


def b_expand(ver, p, a):
    e = ver.encode(ver.pieces(a['list_of_tensors'], p))
    p.facts.append(NEXP(e) >= 0)
    return ver.new(p, ver.seq(NEXP(e), lambda j: (ESIGN(e, j), obj(EXPANDED(e, j), 'list'))))


def specified(ver, p, spec, is_open):
    """weight of the contractions specified: the order is cumulants u.. l.. (backwards), hole densities l u, then the open labels u.. l.. (backwards)"""
    n, den = spec
    j, i1, i2 = ver.fresh('j'), ver.fresh('j'), ver.fresh('j')
    d = den(j)
    fam = lambda n, j, x: Fam(n, j, TRUE, (One(x),))
    order = (Fam(n, j, TRUE, (Fam(z3.IntVal(1), ver.fresh('j'), HOLES(d), (One(ORDER(letter('l', LO(d, 0)))), One(ORDER(letter('u', UP(d, 0)))))),
                              Fam(z3.IntVal(1), ver.fresh('j'), z3.Not(HOLES(d)), (fam(NU(d), i1, ORDER(letter('u', UP(d, i1)))), fam(NU(d), i2, ORDER(letter('l', LO(d, NU(d) - 1 - i2)))))))),)
    sq = obj(EMPTY, 'SecondQuantizedOperator')
    if is_open:
        (nu, up), (nl, lo) = opened(ver, p, 'u'), opened(ver, p, 'l')
        j1, j2 = ver.fresh('j'), ver.fresh('j')
        order += (fam(nu, j1, ORDER(letter('u', up(j1)))), fam(nl, j2, ORDER(letter('l', lo(nl - 1 - j2)))))
        sq = obj(SQ(ver.encode(labels(ver, nu, up)), ver.encode(labels(ver, nl, lo))), 'SecondQuantizedOperator')
    j = ver.fresh('j')
    dens = ver.encode((Fam(n, j, TRUE, (One(density(ver, den(j))),)),))
    sign = PARITY(INV(ver.encode(order)))
    j = ver.fresh('j')
    w = lambda s, l: W(ver.encode((s, obj(l, 'list'), sq)))
    return z3.If(FLAG, ver.measure((Fam(NEXP(dens), j, TRUE, (One(j),)),), lambda j: w(sign * ESIGN(dens, j), EXPANDED(dens, j))), w(sign, dens))


def weigh3(ver, p, v):
    v = ver.deref(v, p)
    if not isinstance(v, tuple) or len(v) != 3:
        raise Unsupported('result')
    s, l, o = v
    l = ver.deref(l, p)
    l = obj(l.key, 'list') if isinstance(l, O) and l.key is not None else obj(ver.encode(ver.pieces(l, p)), 'list')
    return W(ver.encode((ver.real(ver.num(s)), l, o)))


def com_post(ver, p, v):
    n, den = com_spec(ver, p)
    j = ver.fresh('j')
    left = NIND - 2 * z3.ToInt(ver.measure((Fam(n, j, TRUE, (One(NU(den(j))),)),), lambda x: ver.real(x)))
    got = ver.measure(ver.pieces(v, p), lambda x: weigh3(ver, p, x))
    yield 'the sign of the order of the labels, the densities, the uncontracted labels; hole densities expanded if wanted', \
        got == z3.If(left != 0, specified(ver, p, (n, den), True), specified(ver, p, (n, den), False))


GC = dict(KINDS, Index=Typ('Index', mk_index), sorted=Typ('sorted', mk_sorted), IndicesSpinOrbital=Typ('IndicesSpinOrbital', mk_indices), Permutation=Typ('Permutation', mk_perm),
          SecondQuantizedOperator=Typ('SecondQuantizedOperator', mk_sq, {'make_empty': Fn(lambda ver, p, a, kw: obj(EMPTY, 'SecondQuantizedOperator') if not a and not kw else None)}),
          expand_hole_densities=Fn(b_expand, PATH, 'expand_hole_densities'))
composite = SumContract('process_composite_contractions', PATH, com_start, com_post, globals=GC, element=density, member=lambda ver, k: name_of(k) if k.sort() == Elem else k)
composite.spec = com_spec


# ---------------------------------------------------------------- the contractions of one choice of categories
NCAT = z3.Int('categories.n')
CATAT, CATLEN = z3.Function('category', I, Elem), z3.Function('category_length', Elem, I)
NCC, CCLEN = z3.Int('composites.n'), z3.Function('composite_length', I, I)
CODE, DECODE = z3.Function('code', I, I, Elem), z3.Function('decoded', Elem, Elem)
COMPATIBLE = z3.Const('compatible', Elem)


def cat(e):
    return O({'#len': CATLEN(e)}, {}, key=e, cls='tuple')


def cat_start(ver, p):
    com = ver.new(p, ver.seq(NCAT, lambda j: cat(CATAT(j))))

    def composites(ver, p, a, kw):
        b = ver.bind(find(PATH, 'ElementaryContractionCategorized.composite_contractions'), [None] + a, kw, p)
        c, d = (b[k] for k in list(b)[-2:])
        if not isinstance(c, Ref) or c.kind != 'counter':
            raise Unsupported('numbers of the categories')
        ver.goal('the contractions of the given categories', p, z3.BoolVal(ver.keys(p.heap[c.cell]) == ver.keys(ver.seq(NCAT, lambda j: (cat(CATAT(j)), z3.IntVal(1))))))
        ver.goal('the compatible sets given', p, d.key == COMPATIBLE)
        return ver.new(p, ver.seq(NCC, lambda k: O({'#items': ver.seq(CCLEN(k), lambda j: CODE(k, j))}, key=z3.Function('composite', I, Elem)(k), cls='tuple')))
    ele = O({}, {'composite_contractions': composites, 'decode': lambda ver, p, a, kw: density(ver, DECODE(ver.kz(a[0]))) if len(a) == 1 and not kw else None}, key=z3.Const('ele_con', Elem), cls='ElementaryContractionCategorized')
    d, f = com_start(ver, p)
    k, e = z3.Int('k!'), z3.Const('e!', Elem)
    return dict(com_cat=com, ele_con=ele, compatible=obj(COMPATIBLE, 'dict'), upper_indices_set=d['upper_indices_set'], lower_indices_set=d['lower_indices_set'], base_order_map=d['base_order_map'],
                n_indices=NIND, expand_hole=FLAG), f + [NCAT >= 0, NCC >= 0, z3.ForAll([k], CCLEN(k) >= 1), z3.ForAll([e], CATLEN(e) >= 2)]


def cat_spec(ver, p):
    k = [x for x in p.binders if x.sort() == I][0]
    return CCLEN(k), lambda j: DECODE(CODE(k, j))


def cat_post(ver, p, v):
    left = ver.real(NIND) - ver.measure(ver.seq(NCAT, lambda j: CATLEN(CATAT(j))), lambda x: ver.real(x))
    got = ver.measure(ver.pieces(v, p), lambda x: weigh3(ver, p, x))

    def all_of(is_open):
        k = ver.fresh('j')
        q = p.copy()
        q.binders = [k]
        w = specified(ver, q, cat_spec(ver, q), is_open)
        return ver.total(NCC, k, TRUE, w.arg(1)), ver.total(NCC, k, TRUE, w.arg(2))
    for is_open in (True, False):
        e, f = all_of(is_open)
        for flag, w in ((True, e), (False, f)):
            c = z3.And((left != 0) == is_open, FLAG == flag)
            g = z3.simplify(z3.substitute(got, (FLAG, z3.BoolVal(flag)), (z3.simplify(left == 0), z3.BoolVal(not is_open))))
            yield 'for every contraction the sign of the order of the labels, the densities and the uncontracted labels' + (', hole densities expanded' if flag else ''), z3.Implies(c, g == w)


categorized = SumContract('process_composite_categorized', PATH, cat_start, cat_post, globals=GC, element=density, member=lambda ver, k: name_of(k) if k.sort() == Elem else k, tag='')
categorized.spec = cat_spec


# ---------------------------------------------------------------- order of the operators before contraction
NOPS = z3.Int('ops.n')
OPAT = z3.Function('ops', I, Elem)
NCRE, NANN = z3.Function('n_cre', Elem, I), z3.Function('n_ann', Elem, I)
CRE, ANN = z3.Function('cre', Elem, I, Elem), z3.Function('ann', Elem, I, Elem)
NLAB, LABEL = z3.Int('labels.n'), z3.Function('label_at', I, Elem)


def opr(ver, e):
    return O({'cre_ops': Lazy(lambda ver, p: labels(ver, NCRE(e), lambda j: CRE(e, j))), 'ann_ops': Lazy(lambda ver, p: labels(ver, NANN(e), lambda j: ANN(e, j))), 'n_cre': NCRE(e), 'n_ann': NANN(e)}, {}, key=e, cls='SecondQuantizedOperator')


def base_order(ver):
    j, i1, i2 = ver.fresh('j'), ver.fresh('j'), ver.fresh('j')
    o = OPAT(j)
    fam = lambda n, j, x: Fam(n, j, TRUE, (One(x),))
    return (Fam(NOPS, j, TRUE, (fam(NCRE(o), i1, obj(letter('u', CRE(o, i1)), 'str')), fam(NANN(o), i2, obj(letter('l', ANN(o, NANN(o) - 1 - i2)), 'str')))),)


def mk_enumerate(ver, p, a, kw):
    if len(a) not in (1, 2) or kw or len(a) == 2 and not z3.is_true(z3.simplify(ver.num(a[1]) == 0)):
        raise Unsupported('enumerate')
    ver.goal('positions are counted in the order of the operators: creators, then annihilators backwards', p, ver.encode(keyed(ver, ver.pieces(a[0], p))) == ver.encode(base_order(ver)))
    return ver.new(p, ver.seq(NLAB, lambda i: (i, obj(LABEL(i), 'str'))))


def keyed(ver, ps):
    return ver.comp_map(ps, lambda v: obj(ver.kz(v), 'str'))


def base_start(ver, p):
    i = z3.Int('i!')
    pos = z3.Function('position', Elem, I)
    return dict(ops_list=ver.new(p, ver.seq(NOPS, lambda j: opr(ver, OPAT(j))))), [NOPS >= 0, NLAB >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NLAB), pos(LABEL(i)) == i), patterns=[LABEL(i)])]


def base_post(ver, p, v):
    if not isinstance(v, tuple) or len(v) != 3 or not isinstance(v[0], Ref) or v[0].kind != 'map':
        raise Unsupported('result')
    _, dom, val = p.heap[v[0].cell][:3]
    k, i = z3.Const('k?', Elem), z3.Int('i?')
    yield 'every label has its position', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NLAB), z3.And(dom(LABEL(i)), val(LABEL(i)) == i)))
    yield 'no other label has a position', z3.ForAll([k], z3.Implies(dom(k), z3.Exists([i], z3.And(i >= 0, i < NLAB, LABEL(i) == k))))
    j = z3.Int('j?')
    for c, r, n, at, what in (('u', v[1], NCRE, CRE, 'creators'), ('l', v[2], NANN, ANN, 'annihilators')):
        if not isinstance(r, Ref) or r.kind != 'set':
            raise Unsupported('result')
        _, dom = ver.dom_of(r, p)
        w = z3.Exists([j, i], z3.And(j >= 0, j < NOPS, i >= 0, i < n(OPAT(j)), letter(c, at(OPAT(j), i)) == k))
        yield f'every label of the {what} is in the set', z3.ForAll([k], z3.Implies(w, dom(k)))
        yield f'the set has only labels of the {what}', z3.ForAll([k], z3.Implies(dom(k), w))


base = SumContract('generate_base_order_map', PATH, base_start, base_post, globals=dict(enumerate=Typ('enumerate', mk_enumerate)), element=opr)


def lemmas(pr):
    pass

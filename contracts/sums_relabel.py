"""Relabelling of a term (C12): new labels, replacement maps, tensors and operators with replaced labels; any number of tensors of any size."""
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C12']
ASSUMES = ['Index(text) is the label with that space and number (C01)',
           'indices() of a tensor or operator lists its upper then lower labels (C04: IndicesPair.indices)',
           'from_indices gives a tensor of the same kind with the given labels, canonicalize an equal tensor up to its sign (C03, C04)']
N = z3.Int('tensors.n')
TEN = z3.Function('tensor', I, Elem)
NI = z3.Function('n_indices', Elem, I)
IDX = z3.Function('label', Elem, I, Elem)
SPACE = z3.Function('space', Elem, Elem)
NUM = z3.Function('number', Elem, I)
LABEL = z3.Function('is_space_label', Elem, B)
LBL = z3.Function('label_of', Elem, I, Elem)
OPR = z3.Const('sq_op', Elem)
INSET = z3.Function('in_indices_set', Elem, B)
LOWN, UPN = z3.Function('n_lower', Elem, I), z3.Function('n_upper', Elem, I)
LOWAT, UPAT = z3.Function('lower', Elem, I, Elem), z3.Function('upper', Elem, I, Elem)
KIND = z3.Function('kind', Elem, Elem)
SIGN = z3.Function('sign', Elem, R)


def index(e):
    return O({'space': SPACE(e), 'number': NUM(e)}, key=e, cls='Index')


def label_facts():
    s, n, e = z3.Const('s!', Elem), z3.Int('n!'), z3.Const('e!', Elem)
    return [z3.ForAll([s, n], z3.Implies(z3.And(LABEL(s), n >= 0), z3.And(SPACE(LBL(s, n)) == s, NUM(LBL(s, n)) == n)), patterns=[LBL(s, n)]),
            z3.ForAll([e], z3.And(NUM(e) >= 0, LABEL(SPACE(e))), patterns=[SPACE(e)]), z3.ForAll([e], NUM(e) >= 0, patterns=[NUM(e)])]


def mk_index(ver, p, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], Text) or len(a[0].parts) != 2:
        raise Unsupported('label')
    s, n = a[0].parts
    if not (z3.is_expr(s) and s.sort() == Elem and z3.is_expr(n) and n.sort() == I):
        raise Unsupported('label')
    ver.goal('a label has a space of the table and a number that is not negative', p, z3.And(LABEL(s), n >= 0))
    return index(LBL(s, n))


INDEX = Typ('Index', mk_index)
FREE = {'Index': INDEX, 'space_priority': O({'#set': LABEL})}


# ---------------------------------------------------------------- the next label
NEXT = z3.Function('next', Elem, I)
SP = z3.Const('space_asked', Elem)


def nx_start(ver, p):
    m = ver.new(p, (Elem, lambda k: LABEL(k), lambda k: NEXT(k), ()), 'map')
    ver.own = {m.cell}
    ver.m = m
    k = z3.Const('k!', Elem)
    return dict(space=SP, next_index=m, add=z3.Bool('add')), label_facts() + [LABEL(SP), z3.ForAll([k], NEXT(k) >= 0)]


def nx_post(ver, p, v):
    yield 'the label of that space with the next number', z3.BoolVal(False) if not isinstance(v, O) else v.key == LBL(SP, NEXT(SP))
    k = z3.Const('k?', Elem)
    sort, dom, val, w = p.heap[ver.m.cell]
    yield 'the number is used up only if asked, other spaces are left as they were', z3.ForAll([k], z3.And(dom(k) == LABEL(k), val(k) == NEXT(k) + z3.If(z3.And(k == SP, z3.Bool('add')), 1, 0)))


next_label = SumContract('Term._generate_next_index', TPATH, nx_start, nx_post, globals=FREE)


def b_next(want=None):
    def f(ver, p, a, kw):
        b = ver.bind(find(TPATH, 'Term._generate_next_index'), a, kw, p)
        s, m = b['space'], b['next_index']
        s = s if z3.is_expr(s) else ver.kz(s)
        if not (isinstance(m, Ref) and m.kind == 'map') or not z3.is_true(z3.simplify(b['add'])):
            raise Unsupported('next label')
        sort, dom, val, w = p.heap[m.cell]
        ver.goal('the space has a next number', p, dom(s))
        n = val(s)
        p.heap[m.cell] = (sort, dom, lambda k: z3.If(k == s, n + 1, val(k)), w + ((s, n + 1),))
        ver.goal('a label has a space of the table and a number that is not negative', p, z3.And(LABEL(s), n >= 0))
        return index(LBL(s, n))
    return f


# ---------------------------------------------------------------- a replacement map that numbers the labels
def numbering(want=SPACE, low=None):
    """invariant: the labels seen so far have new labels of the wanted space, all different, numbered from the first free number on"""
    def inv(ver, start, q, vis):
        cells = list(start)
        nx = [c for c in cells if start[c][2](z3.Const('#k', start[c][0])).sort() == I]
        rp = [c for c in cells if start[c][2](z3.Const('#k', start[c][0])).sort() == Elem]
        if len(nx) != 1 or len(rp) != 1:
            raise Unsupported('replacement map and next numbers')
        (_, d0, v0), (_, d, v) = start[rp[0]][:3], q.heap[rp[0]][:3]
        (_, nd0, n0), (_, nd, n) = start[nx[0]][:3], q.heap[nx[0]][:3]
        k, l = z3.Consts('k$ l$', Elem)
        new = lambda x: z3.And(d(x), z3.Not(d0(x)))
        yield 'every label seen has a new label, no other', z3.ForAll([k], d(k) == z3.Or(d0(k), vis(k)))
        yield 'labels that had a new label keep it', z3.ForAll([k], z3.Implies(d0(k), v(k) == v0(k)))
        yield 'the new label has the space wanted', z3.ForAll([k], z3.Implies(new(k), z3.And(SPACE(v(k)) == want(k), NUM(v(k)) >= n0(want(k)), NUM(v(k)) < n(want(k)))))
        yield 'new labels are different', z3.ForAll([k, l], z3.Implies(z3.And(new(k), new(l), k != l), v(k) != v(l)))
        yield 'next numbers only grow', z3.ForAll([k], z3.And(nd(k) == nd0(k), n(k) >= n0(k)))
    return inv


def covers(ver, o):
    if isinstance(o, O) and o.cls == 'Index':
        return lambda x: x == o.key
    if isinstance(o, O) and 'indices' in o.methods:
        return lambda x: there(o.key, x)
    raise Unsupported('loop over something without labels')


def basic_facts():
    e = z3.Const('e!', Elem)
    return [N >= 0, z3.ForAll([e], UPN(e) >= 0, patterns=[UPN(e)]), z3.ForAll([e], LOWN(e) >= 0, patterns=[LOWN(e)])]


def there(e, x):
    i = z3.Int('i?')
    return z3.Exists([i], z3.And(i >= 0, i < NI(e), IDX(e, i) == x))


def part(e, cls=None):
    seq = lambda n, at: (lambda ver, p: ver.new(p, ver.seq(n(e), lambda j: index(at(e, j)))))
    up, lo = Lazy(seq(UPN, UPAT)), Lazy(seq(LOWN, LOWAT))

    def typ(ver, p, a, kw):
        return O(key=z3.Function('list_of_kind', Elem, Elem, Elem)(KIND(e), ver.encode(ver.pieces(a[0], p))), cls='Indices')
    t = O({}, {'__call__': typ}, key=KIND(e), cls='type')
    return O({'upper_indices': up, 'lower_indices': lo, 'cre_ops': up, 'ann_ops': lo, 'indices_type': t},
             {'indices': lambda ver, p, a, kw: ver.new(p, ver.seq(NI(e), lambda j: index(IDX(e, j)))),
              'from_indices': lambda ver, p, a, kw: made(e, a, kw),
              'canonicalize': lambda ver, p, a, kw: (part(CANON(e), cls), SIGN(e))}, key=e, cls=cls)


CANON = z3.Function('canonical', Elem, Elem)
FROM = z3.Function('tensor_with', Elem, Elem, Elem, Elem)
OPOF = z3.Function('operator_of', Elem, Elem, Elem)


def made(e, a, kw):
    if len(a) != 2 or kw or not all(isinstance(x, O) and x.cls == 'Indices' for x in a):
        raise Unsupported('from_indices')
    return part(FROM(e, a[0].key, a[1].key), 'Tensor')


def mk_op(ver, p, a, kw):
    if len(a) != 2 or kw or not all(isinstance(x, O) and x.cls == 'Indices' for x in a):
        raise Unsupported('operator')
    return part(OPOF(a[0].key, a[1].key), 'SecondQuantizedOperator')


def size_facts():
    e, j = z3.Const('e!', Elem), z3.Int('j!')
    k = z3.Const('k!', Elem)
    return [N >= 0, z3.ForAll([e], z3.And(NI(e) >= 0, UPN(e) >= 0, LOWN(e) >= 0), patterns=[NI(e)]), z3.ForAll([e], UPN(e) >= 0, patterns=[UPN(e)]), z3.ForAll([e], LOWN(e) >= 0, patterns=[LOWN(e)]),
            z3.ForAll([k], INSET(k) == z3.Or(there(OPR, k), z3.Exists([j], z3.And(j >= 0, j < N, there(TEN(j), k)))), patterns=[INSET(k)]),
            z3.ForAll([e, j], z3.Implies(z3.And(j >= 0, j < NI(e), z3.Or(e == OPR, z3.Exists([z3.Int('t!')], z3.And(z3.Int('t!') >= 0, z3.Int('t!') < N, TEN(z3.Int('t!')) == e)))), INSET(IDX(e, j))), patterns=[IDX(e, j)])]


def term(ver, p, **more):
    tens = ver.new(p, ver.seq(N, lambda j: part(TEN(j), 'Tensor')))
    ver.stored.add(tens.cell)
    return O({'sq_op': part(OPR, 'SecondQuantizedOperator'), 'list_of_tensors': Lazy(lambda ver, p: tens),
              'indices_set': Lazy(lambda ver, p: Ref(ver.new(p, ver.every(Elem, lambda k: INSET(k))).cell, 'set'))},
             dict({'_generate_next_index': b_next()}, **more), key=z3.Const('term', Elem), cls='Term')


def mi_start(ver, p):
    return dict(self=term(ver, p)), label_facts() + size_facts()


def mi_post(ver, p, v):
    ok = isinstance(v, Ref) and v.kind == 'map'
    yield 'a replacement map', ok
    if not ok:
        return
    sort, d, val, w = p.heap[v.cell]
    k, l = z3.Consts('k? l?', Elem)
    yield 'exactly the labels of the term are replaced', z3.ForAll([k], d(k) == INSET(k))
    yield 'a label is replaced by one of the same space', z3.ForAll([k], z3.Implies(d(k), SPACE(val(k)) == SPACE(k)))
    yield 'different labels are replaced by different labels', z3.ForAll([k, l], z3.Implies(z3.And(d(k), d(l), k != l), val(k) != val(l)))


minimal = SumContract('Term._minimal_indices', TPATH, mi_start, mi_post, globals=FREE, member=lambda ver, k: index(k), labels=Elem, state=numbering(), covers=covers)


# ---------------------------------------------------------------- tensors and operators with replaced labels
NEW = z3.Function('new_label', Elem, Elem)
HAS = z3.Function('has_new_label', Elem, B)


def repl(ver, p):
    return ver.new(p, (Elem, lambda k: HAS(k), lambda k: NEW(k), ()), 'map')


def lists_of(ver, e):
    """the replaced upper and lower labels, as lists of the kind of the tensor"""
    ll = z3.Function('list_of_kind', Elem, Elem, Elem)
    return tuple(ll(KIND(e), ver.encode(ver.seq(n(e), lambda j: index(NEW(at(e, j)))))) for n, at in ((UPN, UPAT), (LOWN, LOWAT)))


def all_known(e):
    j = z3.Int('j?')
    return z3.And(*[z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n(e)), HAS(at(e, j))), patterns=[at(e, j)]) for n, at in ((UPN, UPAT), (LOWN, LOWAT))])


def rt_start(ver, p):
    j, i = z3.Ints('j! i!')
    return dict(input_tensors=ver.new(p, ver.seq(N, lambda j: part(TEN(j), 'Tensor'))), replacement=repl(ver, p)), basic_facts() + [
        z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < N, i >= 0, i < n(TEN(j))), HAS(at(TEN(j), i))), patterns=[at(TEN(j), i)]) for n, at in ((UPN, UPAT), (LOWN, LOWAT))]


def rt_post(ver, p, v):
    j = ver.fresh('j')
    yield 'every tensor once, in order, each label replaced at its place', ver.keys(ver.pieces(v, p)) == ver.keys((Fam(N, j, TRUE, (One(part(FROM(TEN(j), *lists_of(ver, TEN(j))), 'Tensor')),)),))


replace_tensors = SumContract('Term._replace_tensors_indices', TPATH, rt_start, rt_post, globals=FREE, member=lambda ver, k: index(k), raises=lambda ver: {'ValueError': N == 0})


def ro_start(ver, p):
    return dict(sq_op=part(OPR, 'SecondQuantizedOperator'), replacement=repl(ver, p)), basic_facts() + [all_known(OPR)]


def ro_post(ver, p, v):
    yield 'the operator with each label replaced at its place', isinstance(v, O) and ver.key(v) == ver.key(OPOF(*lists_of(ver, OPR)))


OPT = Typ('SecondQuantizedOperator', mk_op)
replace_op = SumContract('Term._replace_sq_op_indices', TPATH, ro_start, ro_post, globals=dict(FREE, SecondQuantizedOperator=OPT), member=lambda ver, k: index(k))

RTEN, ROPR = z3.Function('replaced', Elem, Elem), z3.Const('replaced_operator', Elem)


def b_rt(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._replace_tensors_indices'), a, kw, p)
    ver.goal('the tensors of the term are relabelled by the given map', p, z3.BoolVal(ver.keys(ver.pieces(b['input_tensors'], p)) == ver.keys(ver.seq(N, lambda j: part(TEN(j), 'Tensor')))
                                                                      and isinstance(b['replacement'], Ref) and b['replacement'].cell == ver.map.cell))
    return ver.new(p, ver.seq(N, lambda j: part(RTEN(TEN(j)), 'Tensor')))


def b_ro(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._replace_sq_op_indices'), a, kw, p)
    ver.goal('the operator of the term is relabelled by the given map', p, z3.BoolVal(isinstance(b['sq_op'], O) and b['sq_op'].key.eq(OPR) and isinstance(b['replacement'], Ref) and b['replacement'].cell == ver.map.cell))
    return part(ROPR, 'SecondQuantizedOperator')


def rl_start(ver, p):
    ver.map = repl(ver, p)
    return dict(self=term(ver, p, _replace_tensors_indices=b_rt, _replace_sq_op_indices=b_ro), replacement=ver.map), label_facts() + size_facts() + [N >= 1]


def rl_post(ver, p, v):
    ok = isinstance(v, tuple) and len(v) == 3
    yield 'sign, tensors and operator', ok
    if not ok:
        return
    j = ver.fresh('j')
    want = ver.name_sum(N, j, TRUE, SIGN(RTEN(TEN(j))), 'product')
    yield 'the sign is the product of the signs of the operator and of every tensor', ver.norm(ver.real(v[0])) == ver.norm(SIGN(ROPR) * want)
    yield 'every relabelled tensor in canonical order, at its place', ver.keys(ver.pieces(v[1], p)) == ver.keys(ver.seq(N, lambda j: part(CANON(RTEN(TEN(j))), 'Tensor')))
    yield 'the relabelled operator in canonical order', isinstance(v[2], O) and v[2].key.eq(CANON(ROPR))


relabel = SumContract('Term._relabel_indices', TPATH, rl_start, rl_post, globals=FREE, member=lambda ver, k: index(k))


def lemmas(pr):
    pass

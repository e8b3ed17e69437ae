"""Term.__init__: acceptance and attributes of a term, for any number of tensors of any size (C13)."""
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C13']
ASSUMES = ['indices() of a tensor or operator lists its upper then lower labels, diagonal_indices() is the set of those in both (proved in C13: IndicesPair.indices, diagonal_indices)',
           'an index label has one of the twelve spaces and a number that is not negative (C01)',
           'float() of a number gives that number and of a text that is not a number raises ValueError']
N = z3.Int('tensors.n')
TEN = z3.Function('tensor', I, Elem)
ISTEN = z3.Function('is_tensor', Elem, B)
KIND = z3.Function('indices_type', Elem, Elem)
NI = z3.Function('n_indices', Elem, I)
IDX = z3.Function('label', Elem, I, Elem)
DG = z3.Function('diagonal', Elem, Elem, B)
POS = z3.Function('position', Elem, Elem, I)
SPACE = z3.Function('space', Elem, Elem)
NUM = z3.Function('number', Elem, I)
LABEL = z3.Function('is_space_label', Elem, B)
OPR = z3.Const('sq_op', Elem)
COEFF = z3.Real('coeff')


def index(e):
    return O({'space': SPACE(e), 'number': NUM(e)}, key=e, cls='Index')


def part(e, cls=None):
    return O(dict({'indices_type': KIND(e)}, **({'#is Tensor': ISTEN(e)} if cls is None else {})),
             {'indices': lambda ver, p, a, kw: ver.new(p, ver.seq(NI(e), lambda j: index(IDX(e, j)))),
              'diagonal_indices': lambda ver, p, a, kw: Ref(ver.new(p, ver.every(Elem, lambda k: DG(e, k))).cell, 'set')}, key=e, cls=cls)


def facts():
    e, k, j = z3.Const('e!', Elem), z3.Const('k!', Elem), z3.Int('j!')
    return [N >= 0, z3.ForAll([e], NI(e) >= 0), z3.ForAll([e], z3.And(NUM(e) >= 0, LABEL(SPACE(e))), patterns=[NUM(e)]), z3.ForAll([e], LABEL(SPACE(e)), patterns=[SPACE(e)]),
            z3.ForAll([e, k], z3.Implies(DG(e, k), z3.And(POS(e, k) >= 0, POS(e, k) < NI(e), IDX(e, POS(e, k)) == k)), patterns=[DG(e, k)])]


def start(coeff, op=None):
    def f(ver, p):
        me = ver.new(p, {}, 'obj')
        ver.own = {me.cell}
        return dict(self=me, list_of_tensors=ver.new(p, ver.seq(N, lambda j: part(TEN(j)))),
                    sq_op=part(OPR, 'SecondQuantizedOperator') if op is None else op, coeff=coeff), facts()
    return f


def bad_type():
    j = z3.Int('a?')
    return z3.Exists([j], z3.And(j >= 0, j < N, z3.Or(z3.Not(ISTEN(TEN(j))), KIND(TEN(j)) != KIND(OPR))))


def count(ver, k):
    """occurrences of a label over the operator and all tensors"""
    i, j = z3.Int('j$i'), z3.Int('j$t')
    inner = ver.total(NI(TEN(j)), i, TRUE, IND(IDX(TEN(j), i) == k))
    return z3.ToInt(ver.norm(ver.total(NI(OPR), i, TRUE, IND(IDX(OPR, i) == k)) + ver.total(N, j, TRUE, inner)))


def there(k):
    i, j = z3.Int('i?'), z3.Int('t?')
    return z3.Or(z3.Exists([i], z3.And(i >= 0, i < NI(OPR), IDX(OPR, i) == k)),
                 z3.Exists([j, i], z3.And(j >= 0, j < N, i >= 0, i < NI(TEN(j)), IDX(TEN(j), i) == k)))


def diagonal(k):
    j = z3.Int('t?')
    return z3.Or(DG(OPR, k), z3.Exists([j], z3.And(j >= 0, j < N, DG(TEN(j), k))))


def unpaired(ver):
    k = z3.Const('j$k', Elem)
    c = count(ver, k)
    return z3.Or(z3.Exists([k], z3.And(there(k), z3.Not(diagonal(k)), c != 2)), z3.Exists([k], z3.And(diagonal(k), c % 2 == 1)))


def raises(ver):
    return {'TypeError': bad_type(), 'ValueError': unpaired(ver)}


def post(ver, p, v):
    me = p.heap[ver.entry.env['self'].cell]
    yield 'a new object returns nothing', v is None
    for a in ('_coeff', '_sq_op', '_list_of_tensors', '_indices_set', '_next_index_number', '_diagonal_indices'):
        if a not in me:
            yield f'{a} is set', False
            return
    yield 'the coefficient is the given number', ver.real(ver.num(me['_coeff'])) == COEFF
    yield 'the operator is the given one', isinstance(me['_sq_op'], O) and me['_sq_op'].key.eq(OPR)
    l = me['_list_of_tensors']
    yield 'the tensors are sorted', isinstance(l, Ref) and any(r.cell == l.cell for r in getattr(ver, 'sorted', []))
    yield 'the tensors are the given ones', ver.keys(ver.pieces(l, p)) == ver.keys(ver.pieces(ver.entry.env['list_of_tensors'], ver.entry))
    k = z3.Const('k?', Elem)
    yield 'the index set holds exactly the labels of all parts', z3.ForAll([k], ver.dom_of(me['_indices_set'], p)[1](k) == there(k))
    d = me['_diagonal_indices']
    yield 'the diagonal indices are those of the parts', z3.ForAll([k], ver.dom_of(d, p)[1](k) == diagonal(k))
    kk = z3.Const('j$k', Elem)
    yield 'each diagonal index has its multiplicity', z3.ForAll([kk], z3.Implies(diagonal(kk), p.heap[d.cell][2](kk) == count(ver, kk)))
    m = me['_next_index_number']
    sort, dom, val = p.heap[m.cell][:3]
    e = z3.Const('e?', Elem)
    yield 'every space has a next number', z3.ForAll([k], z3.Implies(LABEL(k), dom(k)))
    yield 'the next number is above all numbers in use', z3.ForAll([e], z3.Implies(there(e), val(SPACE(e)) > NUM(e)))
    yield 'the next number is the first one above', z3.ForAll([k], z3.Implies(LABEL(k), z3.Or(val(k) == 0, z3.Exists([e], z3.And(there(e), SPACE(e) == k, val(k) == NUM(e) + 1)))))


def spaces(ver, p):
    return Ref(ver.new(p, ver.every(Elem, lambda k: LABEL(k))).cell, 'set')


G = {'space_priority': O({'#set': LABEL}), 'Tensor': Typ('Tensor'), 'SecondQuantizedOperator': Typ('SecondQuantizedOperator')}


class TermInit(SumContract):
    pass


init = SumContract('Term.__init__', TPATH, start(COEFF), post, globals=G, raises=raises, member=lambda ver, k: index(k))
NUMBER = z3.Int('number_given')
init_int = SumContract('Term.__init__', TPATH, lambda ver, p: (lambda d, f: (d, f + [COEFF == z3.ToReal(NUMBER)]))(*start(NUMBER)(ver, p)), post, globals=G, raises=raises,
                       member=lambda ver, k: index(k), tag=' (coefficient an integer)')
init_text = SumContract('Term.__init__', TPATH, start(O({'#float': 'ValueError'}, cls='str')), lambda ver, p, v: [('a text that is not a number is refused', False)], globals=G,
                        raises=lambda ver: {'ValueError': z3.BoolVal(True)}, member=lambda ver, k: index(k), tag=' (coefficient not a number)')
init_op = SumContract('Term.__init__', TPATH, start(COEFF, O(cls='object')), lambda ver, p, v: [('anything but an operator is refused', False)], globals=G,
                      raises=lambda ver: {'TypeError': z3.BoolVal(True)}, member=lambda ver, k: index(k), tag=' (operator not an operator)')


def lemmas(pr):
    pass

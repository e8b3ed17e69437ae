"""Copies, emptying and comparison of terms (C13), the negligible test (C10); any term."""
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C13', 'C10']
ASSUMES = ['SecondQuantizedOperator.clone, void and make_empty, equality of operators and tensors fulfil their contracts (C04)',
           'tuples are compared by the first component that differs; math.isclose is a closed function of its arguments']
S, T = z3.Consts('self other', Elem)
OP, COEFF = z3.Function('operator', Elem, Elem), z3.Function('coefficient', Elem, R)
NT, TEN = z3.Function('n_tensors', Elem, I), z3.Function('tensor', Elem, I, Elem)
CLONE = z3.Function('clone', Elem, B, Elem)
VOID = z3.Function('void', Elem, Elem)
EMPTY = z3.Function('empty operator', Elem, Elem)
CLOSE = z3.Function('is_close', R, R, R, R, B)
MADE = z3.Function('term', Elem, Elem, R, Elem)


def opr(e):
    return O({}, {'clone': lambda ver, p, a, kw: opr(CLONE(e, ver.truth(ver.bind(find('dsrg_generator/IndicesPair.py', 'IndicesPair.clone'), [None] + a, kw, p)['hc'], p))),
                  'void': lambda ver, p, a, kw: opr(VOID(e)) if not a and not kw else None}, key=e, cls='SecondQuantizedOperator')


def tensors(ver, e):
    return ver.seq(NT(e), lambda j: O({}, {}, key=TEN(e, j), cls='Tensor'))


ORDER = {k: z3.Function('tuple' + k, Elem, Elem, B) for k in ('__lt__', '__le__', '__gt__', '__ge__')}


def tup(ver, e):
    return O({}, {k: (lambda ver, p, a, kw, f=f: f(e, a[0].key)) for k, f in ORDER.items()}, key=e, cls='comparison tuple')


def term(ver, e):
    def weak(ver, p, a, kw):
        return (opr(OP(e)), O({}, {}, key=ver.encode(tensors(ver, e)), cls='list'))
    return O({'sq_op': opr(OP(e)), 'list_of_tensors': O({'#items': tensors(ver, e), '#len': NT(e)}, {}, key=ver.encode(tensors(ver, e)), cls='list'), 'n_tensors': NT(e), 'coeff': COEFF(e),
              'comparison_tuple': tup(ver, e)},
             {'comparison_tuple_weak': weak, '_is_valid_operand': lambda ver, p, a, kw: None}, key=e, cls='Term')


def mk(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.__init__'), [None] + a, kw, p)
    if not isinstance(b['sq_op'], O):
        raise Unsupported('operator of a term')
    return O({}, {}, key=MADE(ver.encode(ver.pieces(b['list_of_tensors'], p)), b['sq_op'].key, ver.real(ver.num(b['coeff']))), cls='Term')


def isclose(ver, p, a, kw):
    if len(a) != 2 or set(kw) - {'abs_tol', 'rel_tol'}:
        raise Unsupported('isclose')
    r = lambda v: ver.real(ver.num(v))
    return CLOSE(r(a[0]), r(a[1]), r(kw['abs_tol']) if 'abs_tol' in kw else z3.RealVal(0), r(kw['rel_tol']) if 'rel_tol' in kw else z3.RealVal('1e-9'))


def is_key(v, k):
    return v.key == k if isinstance(v, O) and v.key is not None and v.key.sort() == k.sort() else z3.BoolVal(False)


G = {'cls': Typ('cls', mk), 'Term': Typ('Term', mk), 'isclose': Typ('isclose', isclose),
     'SecondQuantizedOperator': Typ('SecondQuantizedOperator', None, {'make_empty': Fn(lambda ver, p, a, kw: opr(EMPTY(structure(ver.bind(find('dsrg_generator/SQOperator.py', 'SecondQuantizedOperator.make_empty'), [None] + a, kw, p)['indices_type']))))})}
FLIP, HC = z3.Bools('flip_sign hc')
SIMILAR = lambda ver: z3.And(OP(S) == OP(T), ver.encode(tensors(ver, S)) == ver.encode(tensors(ver, T)))
NEAR = CLOSE(COEFF(S), COEFF(T), z3.RealVal('1e-15'), z3.RealVal('1e-9'))

copy = SumContract('Term.from_term', TPATH, lambda ver, p: (dict(cls=G['cls'], term=term(ver, S), flip_sign=FLIP, hc=HC), [NT(S) >= 0]),
                   lambda ver, p, v: [('the same tensors, the operator (its adjoint if wanted), the coefficient (its opposite if wanted)',
                                       is_key(v, MADE(ver.encode(tensors(ver, S)), CLONE(OP(S), HC), z3.If(FLIP, -COEFF(S), COEFF(S)))))], globals=G)
empty = SumContract('Term.make_empty', TPATH, lambda ver, p: (dict(cls=G['cls'], indices_type=O({}, {}, key=z3.Const('indices_type', Elem), cls='str')), []),
                    lambda ver, p, v: [('no tensors, an empty operator of that kind, zero', is_key(v, MADE(ver.encode(()), EMPTY(z3.Const('indices_type', Elem)), z3.RealVal(0))))], globals=G)
void = SumContract('Term.void', TPATH, lambda ver, p: (dict(self=term(ver, S)), [NT(S) >= 0]),
                   lambda ver, p, v: [('no tensors, an empty operator of the same kind, zero', is_key(v, MADE(ver.encode(()), VOID(OP(S)), z3.RealVal(0))))], globals=G)
is_void = SumContract('Term.is_void', TPATH, lambda ver, p: (dict(self=term(ver, S)), []),
                      lambda ver, p, v: [('zero if the coefficient is below 1e-15 in magnitude', ver.truth(v, p) == z3.And(COEFF(S) < z3.RealVal('1e-15'), COEFF(S) > -z3.RealVal('1e-15')))], globals=G)


def emptied(ver, p):
    me = ver.new(p, {'sq_op': opr(OP(S)), '_sq_op': opr(OP(S)), '_coeff': COEFF(S), 'coeff': COEFF(S)}, 'obj')
    ver.own = {me.cell}
    return dict(self=me), []


def emptied_post(ver, p, v):
    me = p.heap[ver.entry.env['self'].cell]
    for a in ('_coeff', '_sq_op', '_list_of_tensors', '_indices_set', '_diagonal_indices'):
        if a not in me:
            yield f'{a} is set', False
            return
    yield 'the coefficient is zero', ver.real(ver.num(me['_coeff'])) == 0
    yield 'the operator is empty, of the same kind', is_key(me['_sq_op'], VOID(OP(S)))
    yield 'no tensors', isinstance(me['_list_of_tensors'], Ref) and not ver.pieces(me['_list_of_tensors'], p)
    for a in ('_indices_set', '_diagonal_indices'):
        yield f'no labels ({a})', isinstance(me[a], Ref) and me[a].kind in ('set', 'map', 'dict', 'counts') and (ver.dom_of(me[a], p)[0] is None or z3.ForAll([z3.Const('k?', Elem)], z3.Not(ver.dom_of(me[a], p)[1](z3.Const('k?', Elem)))))


void_self = SumContract('Term.void_self', TPATH, emptied, emptied_post, globals=G)
pair = lambda ver, p: (dict(self=term(ver, S), other=term(ver, T)), [NT(S) >= 0, NT(T) >= 0])
eq = SumContract('Term.__eq__', TPATH, pair, lambda ver, p, v: [('equal: same operator and tensors, coefficients within 1e-15', ver.truth(v, p) == z3.And(NEAR, SIMILAR(ver)))], globals=G)
ne = SumContract('Term.__ne__', TPATH, pair, lambda ver, p, v: [('different: not equal', ver.truth(v, p) == z3.Not(z3.And(NEAR, SIMILAR(ver))))], globals=G)
similar = SumContract('Term.almost_equal', TPATH, pair, lambda ver, p, v: [('alike: same operator and tensors', ver.truth(v, p) == SIMILAR(ver))], globals=G)
for _k, _f in ORDER.items():
    globals()['order' + _k] = SumContract('Term.' + _k, TPATH, pair, lambda ver, p, v, f=_f: [('ordered like the comparison tuples', ver.truth(v, p) == f(S, T))], globals=G)
weak = SumContract('Term.comparison_tuple_weak', TPATH, lambda ver, p: (dict(self=term(ver, S)), [NT(S) >= 0]),
                   lambda ver, p, v: [('operator, tensors', isinstance(v, tuple) and ver.key(v) == ver.key((opr(OP(S)), O(key=ver.encode(tensors(ver, S))))))], globals=G)


def lemmas(pr):
    pass

"""Canonical forms (C12): the order of simplification, relabelling and the sign; which canonicalization a term gets."""
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C12']
ASSUMES = ['Term.simplify changes the term in place, preserving its value (executed contract); _minimal_indices and _relabel_indices fulfil their contracts (sums_relabel)',
           'canonicalize_sympy preserves the value (executed contract)']
T0 = z3.Const('term', Elem)
SIMPLE = z3.Function('simplified', Elem, B, B, Elem)
COEFF = z3.Function('coefficient', Elem, R)
NIL = z3.Function('negligible', Elem, B)
MAP = z3.Function('minimal labels', Elem, Elem)
RS, RT, RO = z3.Function('relabel.sign', Elem, Elem, R), z3.Function('relabel.tensors', Elem, Elem, Elem), z3.Function('relabel.operator', Elem, Elem, Elem)
MADE = z3.Function('made', Elem, Elem, R, Elem)
VOID = z3.Function('void term', Elem, Elem)
CORE, ACTIVE, HERM = z3.Bools('simplify_core_cumulant remove_active_amplitudes hermitian_tensor')
DIAG = z3.Function('diagonal', Elem, Elem)
SYMPY = z3.Function('canonical form', Elem, B, B, B, Elem)
NDIAG = z3.Int('diagonal.n')


def flag(ver, p, v):
    return ver.truth(v, p)


def term(ver, p):
    me = ver.new(p, {'state': T0}, 'obj')
    ver.own = {me.cell}
    ver.me = me
    now = lambda q: q.heap[me.cell]['state']

    def simplify(ver, q, a, kw):
        b = ver.bind(find(TPATH, 'Term.simplify'), [None] + a, kw, q)
        q.heap = dict(q.heap)
        q.heap[me.cell] = {'state': SIMPLE(now(q), flag(ver, q, b['simplify_core_cumulant']), flag(ver, q, b['remove_active_amplitudes']))}
        return None

    def none(ver, a, kw):
        if a or kw:
            raise Unsupported('arguments')

    def relabel(ver, q, a, kw):
        b = ver.bind(find(TPATH, 'Term._relabel_indices'), [None] + a, kw, q)
        m = b['replacement'].key
        return (RS(now(q), m), O(key=RT(now(q), m), cls='list'), O(key=RO(now(q), m), cls='SecondQuantizedOperator'))

    def sympy(ver, q, a, kw):
        b = ver.bind(find(TPATH, 'Term.canonicalize_sympy'), [None] + a, kw, q)
        return O(key=SYMPY(now(q), *[flag(ver, q, b[x]) for x in ('simplify_core_cumulant', 'remove_active_amplitudes', 'hermitian_tensor')]), cls='Term')
    methods = {'simplify': simplify, 'is_void': lambda ver, q, a, kw: (none(ver, a, kw), NIL(now(q)))[1],
               'void': lambda ver, q, a, kw: (none(ver, a, kw), O(key=VOID(now(q)), cls='Term'))[1],
               '_minimal_indices': lambda ver, q, a, kw: (none(ver, a, kw), O(key=MAP(now(q)), cls='map'))[1],
               '_relabel_indices': relabel, 'canonicalize_sympy': sympy,
               'canonicalize_simple': lambda ver, q, a, kw: ver.no('simple form')}
    return O({'coeff': Lazy(lambda ver, q: COEFF(now(q))), 'diagonal_indices': O({'#len': NDIAG}, {}, key=DIAG(T0), cls='dict')}, methods, key=T0, cls='Term')


def mk(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.__init__'), [None] + a, kw, p)
    for k in ('list_of_tensors', 'sq_op'):
        if not isinstance(b[k], O):
            raise Unsupported('parts of a term')
    return O({}, {}, key=MADE(b['list_of_tensors'].key, b['sq_op'].key, ver.real(ver.num(b['coeff']))), cls='Term')


def is_key(v, k):
    return v.key == k if isinstance(v, O) and v.key is not None and v.key.sort() == k.sort() else z3.BoolVal(False)


G = {'Term': Typ('Term', mk)}
S1 = SIMPLE(T0, CORE, ACTIVE)
M1 = MAP(S1)


def simple_post(ver, p, v):
    yield ('the simplified term with the smallest labels, its sign in the coefficient; zero if it vanishes when simplified',
           is_key(v, z3.If(NIL(S1), VOID(S1), MADE(RT(S1, M1), RO(S1, M1), COEFF(S1) * RS(S1, M1)))))


simple = SumContract('Term.canonicalize_simple', TPATH, lambda ver, p: (dict(self=term(ver, p), simplify_core_cumulant=CORE, remove_active_amplitudes=ACTIVE), []), simple_post, globals=G)
choice = SumContract('Term.canonicalize', TPATH, lambda ver, p: (dict(self=term(ver, p), simplify_core_cumulant=CORE, remove_active_amplitudes=ACTIVE, hermitian_tensor=HERM), [NDIAG >= 0]),
                     lambda ver, p, v: [('the canonical form with the options given', is_key(v, SYMPY(T0, CORE, ACTIVE, HERM)))], globals=G,
                     raises=lambda ver: {'NotImplementedError': NDIAG > 0})


def lemmas(pr):
    pass

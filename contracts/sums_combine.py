"""combine_terms (C10): like terms are collected, for any list of terms."""
import z3
from sums import *
from sums_assembly import mk_dict, listing, COEFF, PATH, TPATH

PROPS = ['C10', 'C11']
ASSUMES = ['Term.hash_term identifies the tensors and operator of a term (two terms of equal text have the same tensors and operator); float addition treated as real addition']
HK = z3.Function('hash_term', Elem, Elem)          # tensors and operator of a term
COPY = z3.Function('with_coefficient', Elem, R, Elem)
BODYH = z3.Function('body_value', Elem, R)
N = z3.Int('terms.n')
AT = z3.Function('terms', I, Elem)
VOID = lambda c: z3.And(c < z3.RealVal('1e-15'), -c < z3.RealVal('1e-15'))


def term(ver, e):
    return O({'coeff': COEFF(e)}, {'hash_term': lambda ver, p, a, kw: HK(e), 'is_void': lambda ver, p, a, kw: VOID(COEFF(e))}, key=e, cls='Term')


def copy(ver, e, c):
    """a term of its own with the tensors and operator of e and coefficient c"""
    return O({'coeff': c}, {'hash_term': lambda ver, p, a, kw: HK(e), 'is_void': lambda ver, p, a, kw: VOID(c),
                            'set_coeff': lambda ver, p, a, kw: copy(ver, e, ver.real(a[0]))}, key=COPY(e, c), cls='Term')


def t_from(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.from_term'), a, kw, p, skip=1)
    if not (z3.is_false(b['flip_sign']) and z3.is_false(b['hc'])):
        raise Unsupported('from_term')
    return copy(ver, b['term'].key, b['term'].attrs['coeff'])


def start(ver, p):
    p.facts.append(N >= 0)
    return dict(terms=ver.new(p, ver.seq(N, lambda j: term(ver, AT(j))))), []


def post(ver, p, v):
    ps = listing(ver, p, v)
    if not ps:
        yield 'the result is empty only when there is no term', N == 0
        return
    yield 'the result is sorted', any(r.cell == v.cell for r in getattr(ver, 'sorted', []))
    if len(ps) != 1 or not isinstance(ps[0], Fam) or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
        raise Unsupported('shape of the result')
    f = ps[0]
    e = f.pieces[0].v
    if not (isinstance(e, O) and z3.is_app(e.key) and e.key.decl().eq(COPY)):
        yield 'the terms of the result are new objects', False
        return
    gs = [g for g in getattr(ver, 'grouped', {}).values() if g[0].eq(f.n)]
    if len(gs) != 1:
        raise Unsupported('groups')
    nk, ke, li = gs[0]
    a = f.j
    src, c = e.key.children()
    rng = [a >= 0, a < nk]
    want = ver.total(N, z3.Int('i$'), HK(AT(z3.Int('i$'))) == ke(a), COEFF(AT(z3.Int('i$'))))
    q = p.copy()
    q.facts += rng
    ver.goal('one term for each distinct body: tensors and operator of the terms it collects', q, HK(src) == ke(a))
    ver.goal('its coefficient is the sum of the coefficients of these terms', q, ver.norm(c - want) == 0)
    ver.goal('exactly the terms with a vanishing sum are left out', q, f.guard == z3.Not(VOID(want)))
    b = z3.Int('b?')
    ver.goal('no two terms of the result are alike', q, z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < nk, b != a), ke(b) != ke(a))))
    i = z3.Int('i?')
    ver.goal('every term is collected', q, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.Exists([b], z3.And(b >= 0, b < nk, ke(b) == HK(AT(i)))))))


def not_list_start(ver, p):
    return dict(terms=(term(ver, z3.Const('t0', Elem)), term(ver, z3.Const('t1', Elem)))), []


G = {'defaultdict': Typ('defaultdict', mk_dict), 'Term': Typ('Term', attrs={'from_term': Fn(t_from)})}
combine = SumContract('combine_terms', PATH, start, post, globals=G, element=term)
combine_tuple = SumContract('combine_terms', PATH, not_list_start, lambda ver, p, v: [], globals=G, element=term, raises=lambda ver: {'ValueError': z3.BoolVal(True)},
                            tag=' (not a list)')


def lemmas(pr):
    """collecting by the key keeps the sum: sum_i c_i b(k_i) = sum over the distinct keys of b(key) * (sum of the c_i with that key)"""
    K = z3.DeclareSort('Key')
    c, k, key, b = z3.Function('c', I, R), z3.Function('k', I, K), z3.Function('distinct', I, K), z3.Function('b', K, R)
    S = z3.Function('S', I, R)                 # sum over i < n of c_i b(k_i)
    H = z3.Function('H', I, K, R)              # sum over i < n with k_i = x of c_i
    T = z3.Function('T', I, I, R)              # sum over a < m of b(key_a) H(n, key_a)
    n, m, a, d = z3.Ints('n m a d')
    x = z3.Const('x', K)
    hb = b(k(n)) * c(n)
    defs = [S(0) == 0, S(n + 1) == S(n) + c(n) * b(k(n)), z3.ForAll([x], H(0, x) == 0, patterns=[H(0, x)]),
            z3.ForAll([x], H(n + 1, x) == H(n, x) + z3.If(k(n) == x, c(n), 0), patterns=[H(n + 1, x)]),
            T(n, 0) == 0, T(n + 1, 0) == 0, T(0, 0) == 0, T(n, m + 1) == T(n, m) + b(key(m)) * H(n, key(m)), T(n + 1, m + 1) == T(n + 1, m) + b(key(m)) * H(n + 1, key(m)),
            T(0, m + 1) == T(0, m) + b(key(m)) * H(0, key(m)),
            z3.ForAll([a, d], z3.Implies(z3.And(a >= 0, a < d), key(a) != key(d)))]
    some = lambda m: z3.Exists([a], z3.And(a >= 0, a < m, key(a) == k(n)))
    step = lambda m: T(n + 1, m) == T(n, m) + z3.If(some(m), hb, z3.RealVal(0))
    pr.prove('lemma one more term changes the collected sum once: base', defs, step(z3.IntVal(0)))
    pr.prove('lemma one more term changes the collected sum once: step', defs + [m >= 0, step(m)], step(m + 1))
    pr.prove('lemma collecting keeps the sum: no key', defs, T(0, 0) == 0)
    pr.prove('lemma collecting keeps the sum: no term', defs + [T(0, m) == 0], T(0, m + 1) == 0)
    pr.prove('lemma collecting keeps the sum: base', [T(0, m) == 0] + defs, S(0) == T(0, m))
    pr.prove('lemma collecting keeps the sum: step', defs + [S(n) == T(n, m), step(m), some(m)], S(n + 1) == T(n + 1, m))

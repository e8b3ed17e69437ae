"""Normal-ordered product of terms (C11), any number of processes and any batches (C20)."""
import z3
from sums import *
from sums_assembly import term, op, terms, fn, params, listing, is_combined, b_combine, NUMS, SCALE, PATH, TPATH, COEFF, BODY, OP, NOOP, TENS, NT

PROPS = ['C11', 'C20']
ASSUMES = ['compute_operator_contractions is used through its contract (C07-C09); Term.canonicalize keeps the value of a term (C12, bounded); multiprocessing.Pool.imap_unordered returns the result of every task once in any order',
           'generators are consumed to the end']
# contractions of a list of operators: batches of (sign, densities, remaining operator)
KEY = (Elem, I, I, I, B, B)
NB = z3.Function('n_batches', *KEY, I)
BATCH = z3.Function('batch', *KEY, I, Elem)
NCON = z3.Function('n_contractions', Elem, I)
CON = z3.Function('contraction', Elem, I, Elem)
SIGN = z3.Function('sign', Elem, R)
ND = z3.Function('n_densities', Elem, I)
DENS = z3.Function('density', Elem, I, Elem)
REST = z3.Function('remaining', Elem, Elem)


def contraction(ver, c):
    return (SIGN(c), ver.seq(ND(c), lambda j: O(key=DENS(c, j), cls='Tensor')), op(REST(c)))


def batch(ver, b):
    return ver.seq(NCON(b), lambda j: contraction(ver, CON(b, j)))


def weight(ver, tensors, coeff):
    """value of the term made of a contraction"""
    def f(c):
        sign, dens, rest = c
        return ver.real(coeff) * ver.real(sign) * BODY(ver.encode(tensors + dens, unordered=True), rest.key)
    return f


def new_term(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term.__init__'), a, kw, p, skip=1)
    ts = ver.pieces(b['list_of_tensors'], p)
    if not isinstance(b['sq_op'], O):
        raise Unsupported('operator')
    val = ver.real(b['coeff']) * BODY(ver.encode(ts, unordered=True), b['sq_op'].key)
    t = O({'coeff': b['coeff'], 'sq_op': b['sq_op'], 'list_of_tensors': ts}, value=val, cls='Term')
    # canonicalization keeps the value (C12)
    same = lambda ver, p, args, kw: t
    t.methods.update(canonicalize=same, canonicalize_sympy=same, canonicalize_simple=same)
    return t


def b_batch(ver, p, a):
    cs, ts = ver.pieces(a['contractions'], p), ver.pieces(a['tensors'], p)
    return ver.new(p, ver.result(p, 'canonical', ver.measure(cs, weight(ver, ts, a['coeff']))))


# ---------------------------------------------------------------- one batch
def cb_start(ver, p):
    e = z3.Const('contractions', Elem)
    ver.cs = ver.new(p, batch(ver, e))
    ver.ts = ver.new(p, ver.seq(z3.Int('tensors.n'), lambda j: O(key=z3.Function('tensors', I, Elem)(j), cls='Tensor')))
    return dict(n_process=NUMS['n_process'], contractions=ver.cs, tensors=ver.ts, coeff=z3.Real('coeff'), simplify=z3.Bool('simplify'), chunk_size=z3.Int('chunk_size'),
                hermitian_tensor=z3.Bool('hermitian_tensor')), [NCON(e) >= 0, z3.Int('tensors.n') >= 0, NUMS['n_process'] >= 1]


def cb_post(ver, p, v):
    ps = listing(ver, p, v)
    yield 'every contraction once, times the coefficient', ver.value(ps) == ver.measure(p.heap[ver.cs.cell], weight(ver, p.heap[ver.ts.cell], z3.Real('coeff')))
    yield 'combined when asked', z3.Implies(z3.Bool('simplify'), z3.BoolVal(is_combined(ver, ps)))


def mk_pool(ver, p, a, kw):
    def imap(ver, p, args, kw):
        f, tasks = args[0], ver.pieces(args[1], p)

        def walk(ps, q):
            out = []
            for s in ps:
                if isinstance(s, One):
                    out.append(One(ver.freeze(ver.apply(f, [ver.deref(s.v, q)], {}, q), q)))
                else:
                    s = ver.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                    r = q.copy()
                    r.binders.append(s.j)
                    out.append(Fam(s.n, s.j, s.guard, walk(s.pieces, r)))
            return tuple(out)
        return ver.new(p, walk(tasks, p))           # in any order: only the sum matters
    return O({'context': True}, {'imap_unordered': imap, 'imap': imap, 'map': imap}, cls='Pool')


MP = O({'Pool': Typ('Pool', mk_pool), 'cpu_count': Fn(lambda ver, p, a, kw: z3.Int('cpu_count'))})
TERM = Typ('Term', new_term)
GC = {'combine_terms': fn(b_combine, 'combine_terms'), 'multiprocessing': MP, 'Term': TERM, 'sqrt': Fn(lambda ver, p, a, kw: Opaque())}
one_batch = SumContract('canonicalize_contractions_batch', PATH, cb_start, cb_post, globals=GC, element=term)


# ---------------------------------------------------------------- a list of terms
def ct_start(ver, p):
    ver.terms = terms(ver, p, 'terms')
    j = z3.Int('j!')
    e = z3.Const('e!', Elem)
    return dict(params(), terms=ver.terms, scale_factor=SCALE), [NUMS['n_process'] >= 1, z3.Int('cpu_count') >= 1, z3.ForAll([e], NCON(e) >= 0)]


def ct_parts(ver, p):
    ps = p.heap[ver.terms.cell]
    at = z3.Function('terms', I, Elem)
    n = z3.Int('terms.n')
    j = ver.fresh('j')
    coeff = SCALE * ver.name_sum(n, j, TRUE, COEFF(at(j)), 'product')
    j = ver.fresh('j')
    m = ver.fresh('j')
    tensors = (Fam(n, j, TRUE, (Fam(NT(at(j)), m, TRUE, (One(O(key=TENS(at(j), m), cls='Tensor')),)),)),)
    j = ver.fresh('j')
    ops = (Fam(n, j, z3.simplify(z3.Not(NOOP(OP(at(j))))), (One(op(OP(at(j)))),)),)
    return coeff, tensors, ops


def con_key(ver, ops):
    N = NUMS
    return (ver.encode(ops), N['max_cu'], N['max_n_open'], N['min_n_open'], N['for_commutator'], N['expand_hole'])


def b_con(ver, p, a):
    """compute_operator_contractions: batches of contractions, whatever their sizes and the number of processes"""
    key = (ver.encode(ver.pieces(a['ops_list'], p)), a['max_cu'], a['max_n_open'], a['min_n_open'], a['for_commutator'], a['expand_hole'])
    n = NB(*key)
    p.facts.append(n >= 0)
    r = ver.new(p, ver.seq(n, lambda j: batch(ver, BATCH(*key, j))))
    ver.loop_over = r.cell
    ver.batches = (n, lambda j: BATCH(*key, j))
    return r


def ct_inv(ver, s, it, rest, p, k):
    """value of the terms made so far and of the contractions kept back = value of the batches seen"""
    if not isinstance(it, Ref):
        raise Unsupported('loop')
    n, at = ver.batches
    if not isinstance(s.target, ast.Name):
        raise Unsupported('loop over batches')
    kept, made = set(), set()
    for x in ast.walk(s):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(p.env.get(x.target.id), Ref):
            (kept if isinstance(x.value, ast.Name) and x.value.id == s.target.id else made).add(x.target.id)
    if len(kept) != 1 or len(made) != 1 or kept == made:
        raise Unsupported('one list of contractions and one of terms')
    kept, made = kept.pop(), made.pop()
    for x in (kept, made):
        ver.goal('nothing before the first batch', p, ver.length(p.heap[p.env[x].cell], p) == 0)
    coeff, tensors, ops = ct_parts(ver, p)
    w = weight(ver, tensors, coeff)
    PFX = ver.func('batches so far', I, R)
    pos = ver.fresh('pos')
    h = p.copy()
    ke = ver.fresh('kept', Elem)
    h.env[kept] = ver.new(h, batch(ver, ke))
    v0 = ver.fresh('made', R)
    h.env[made] = ver.new(h, ver.result(h, 'made', v0))
    assigned = {y.id for x in ast.walk(s) for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else [])
                for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    for x in assigned - {kept, made}:
        if z3.is_expr(h.env.get(x)):
            h.env[x] = ver.fresh(x, h.env[x].sort())
        else:
            h.env.pop(x, None)
    W = lambda ps: ver.measure(ps, w)
    h.facts += [pos >= 0, pos <= n, v0 + W(h.heap[h.env[kept].cell]) == PFX(pos), PFX(0) == 0]
    ver.goal('no value before the first batch', p, z3.RealVal(0) == ver.value(p.heap[p.env[made].cell]) + W(p.heap[p.env[kept].cell]))
    b = h.copy()
    bt = batch(ver, at(pos))
    b.facts += [pos < n, PFX(pos + 1) == PFX(pos) + W(bt)]
    ver.assign(s.target, ver.new(b, bt), b)
    old = getattr(ver, 'again', None)
    cells = [c for c in b.heap if c not in (h.env[kept].cell, h.env[made].cell)]

    def end(r):
        for c in cells:
            if r.heap.get(c) is not b.heap[c]:
                raise Unsupported('another list is changed')
        ver.goal('each batch is added once: made + kept = batches so far', r,
                 ver.value(r.heap[r.env[made].cell]) + W(r.heap[r.env[kept].cell]) == PFX(pos + 1))
    ver.again = end
    ver.block(list(s.body), b, end)
    ver.again = old
    j = ver.fresh('j')
    h.facts += [pos == n, PFX(n) == ver.total(n, j, TRUE, W(batch(ver, at(j))))]
    ver.block(rest, h, k)


def ct_post(ver, p, v):
    ps = listing(ver, p, v)
    coeff, tensors, ops = ct_parts(ver, p)
    nops = ver.length(ops, p)
    at = z3.Function('terms', I, Elem)
    few = nops < 2
    if ver.entails(p, few):
        single = ver.con.item(ver, ver.encode((ops, z3.IntVal(0))))
        enc = ver.encode(tensors, unordered=True)
        yield 'nothing to contract: the tensors and the only operator', ver.value(ps) == coeff * z3.If(nops == 1, BODY(enc, single.key), BODY(enc, OP(at(0))))
    elif ver.entails(p, z3.Not(few)):
        key = con_key(ver, ops)
        j = ver.fresh('j')
        want = ver.total(NB(*key), j, TRUE, ver.measure(batch(ver, BATCH(*key, j)), weight(ver, tensors, coeff)))
        yield 'every contraction of the operators in the order of the terms, times all coefficients, with all tensors', ver.value(ps) == want
        yield 'like terms are combined', z3.BoolVal(is_combined(ver, ps))
    else:
        yield 'products of fewer than two operators are told from the others', z3.BoolVal(False)


def any_op(ver, e):
    return op(e)


product_of_terms = SumContract('contract_terms', PATH, ct_start, ct_post, raises=lambda ver: {'ValueError': z3.Int('terms.n') == 0}, invariants=ct_inv, element=term, item=any_op,
                               globals=dict(GC, canonicalize_contractions_batch=fn(b_batch, 'canonicalize_contractions_batch'),
                                            compute_operator_contractions=Fn(b_con, 'dsrg_generator/sqop_contraction.py', 'compute_operator_contractions')))


def lemmas(pr):
    pass

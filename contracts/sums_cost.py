"""Cost model (C16): space counts, cost of one contraction, contraction paths, optimal path; any number of labels and tensors."""
import ast
import z3
from sums import *
from sums_assembly import TPATH

PROPS = ['C16']
ASSUMES = ['str.lower is a function of the text', 'Counter counts the elements of a sequence',
           'the order of costs is total and transitive (MOSpaceCounter compares pairs of numbers and lists of three numbers: proved)']
MPATH = 'dsrg_generator/mo_space.py'
S = z3.StringSort()
LOW = z3.Function('lower', S, S)
N = z3.Int('n')
KEY, VAL = z3.Function('key', I, S), z3.Function('count', I, I)
SO = ['g', 'p', 'h', 'v', 'c', 'a']


def text(e):
    return O({}, {'lower': lambda ver, p, a, kw: text(LOW(e))}, key=e, cls='str')


def eq(*cs):
    return lambda x: z3.Or(*[x == z3.StringVal(c) for c in cs])


def count_if(ver, cond):
    j = ver.fresh('j')
    return ver.norm(ver.total(N, j, cond(LOW(KEY(j))), z3.ToReal(VAL(j))))


# ---------------------------------------------------------------- a space count
def mc_start(ver, p):
    me = ver.new(p, {}, 'obj')
    ver.own = {me.cell}
    cnt = O({}, {'keys': lambda ver, p, a, kw: ver.new(p, ver.seq(N, lambda j: text(KEY(j)))),
                 'items': lambda ver, p, a, kw: ver.new(p, ver.seq(N, lambda j: (text(KEY(j)), VAL(j))))}, cls='Counter')
    j, k = z3.Ints('j! k!')
    return dict(self=me, input_counter=cnt), [N >= 0, z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < N), KEY(j) != KEY(k)))]


def unknown(ver):
    j = z3.Int('j?')
    return {'ValueError': z3.Exists([j], z3.And(j >= 0, j < N, z3.Not(eq(*SO)(LOW(KEY(j))))))}


def mc_post(ver, p, v):
    me = p.heap[ver.entry.env['self'].cell]
    for a in ('_input_counter', '_parsed_counter', '_overall_scaling'):
        if a not in me:
            yield f'{a} is set', False
            return
    ps = ver.pieces(me['_parsed_counter'], p)
    ok = len(ps) == 3 and all(isinstance(x, One) for x in ps)
    yield 'virtual, core and active exponents', ok
    if not ok:
        return
    v, c, a = (x.v for x in ps)
    number = lambda x: z3.ToInt(ver.norm(x))
    yield 'virtual exponent: all labels of the virtual, particle and general spaces', v == number(count_if(ver, eq('v')) + count_if(ver, lambda x: z3.And(*[z3.Not(eq(s)(x)) for s in ('c', 'a', 'v', 'h')])))
    yield 'core exponent: all labels of the core and hole spaces', c == number(count_if(ver, eq('c')) + count_if(ver, eq('h')))
    yield 'active exponent: all active labels', a == number(count_if(ver, eq('a')))
    yield 'the overall scaling is the sum of the exponents', ver.real(ver.num(me['_overall_scaling'])) == ver.real(v + c + a)
    r = me['_input_counter']
    k = z3.Const('j$k', S)
    yield 'spin cases of the same space are counted together', z3.ForAll([k], ver.count_at(r, k, p) == number(count_if(ver, lambda x: x == k)))
    j = z3.Int('j?')
    yield 'exactly the given spaces', z3.ForAll([k], ver.dom_of(r, p)[1](k) == z3.Exists([j], z3.And(j >= 0, j < N, LOW(KEY(j)) == k)))


space_count = SumContract('MOSpaceCounter.__init__', MPATH, mc_start, mc_post, raises=unknown, numbers=True)


# ---------------------------------------------------------------- comparisons
TOT, EXP = z3.Function('overall', Elem, I), [z3.Function(f'exponent{i}', Elem, I) for i in range(3)]
RAWN, RAWK, RAWV = z3.Function('n_spaces', Elem, I), z3.Function('raw_key', Elem, I, S), z3.Function('raw_count', Elem, I, I)


def cost(ver, p, e, me=False):
    parsed = ver.new(p, [One(f(e)) for f in EXP])
    raw = Ref(ver.new(p, (Fam(RAWN(e), ver.fresh('j'), TRUE, ()),)).cell, 'counts')
    j = ver.fresh('j')
    p.heap[raw.cell] = (Fam(RAWN(e), j, TRUE, (One((RAWK(e, j), RAWV(e, j))),)),)
    return O({'overall_scaling': TOT(e), 'parsed_counter': Lazy(lambda ver, p: parsed), 'raw_counter': Lazy(lambda ver, p: raw), '_overall_scaling': TOT(e),
              '_parsed_counter': Lazy(lambda ver, p: parsed), '_input_counter': Lazy(lambda ver, p: raw), '__class__': O({'__name__': Opaque()})},
             {'_is_valid_operand': lambda ver, p, a, kw: ver.inline(Inline(find(MPATH, 'MOSpaceCounter._is_valid_operand'), MPATH), a, kw, p)}, key=e, cls='MOSpaceCounter')


A_, B_ = z3.Consts('left right', Elem)


def cmp_start(bad):
    def f(ver, p):
        return dict(self=cost(ver, p, A_), other=O({'__class__': O({'__name__': Opaque()})}, cls='object') if bad else cost(ver, p, B_)), [RAWN(A_) >= 0, RAWN(B_) >= 0]
    return f


def lex(strict):
    out = z3.BoolVal(not strict)
    for f in reversed([TOT] + EXP):
        out = z3.Or(f(A_) < f(B_), z3.And(f(A_) == f(B_), out))
    return out


def same_raw(ver):
    k, i = z3.Const('k?', S), z3.Int('i?')
    there = lambda e: z3.Exists([i], z3.And(i >= 0, i < RAWN(e), RAWK(e, i) == k))
    j = ver.fresh('j')
    kk = z3.Const('j$k', S)
    num = lambda e: ver.total(RAWN(e), j, TRUE, IND(RAWK(e, j) == kk) * z3.ToReal(RAWV(e, j)))
    return z3.ForAll([kk], z3.And(z3.substitute(there(A_), (k, kk)) == z3.substitute(there(B_), (k, kk)),
                                  z3.Implies(z3.substitute(there(A_), (k, kk)), z3.ToInt(ver.norm(num(A_))) == z3.ToInt(ver.norm(num(B_))))))


def cmp_post(want):
    def f(ver, p, v):
        yield 'compares total exponent, then virtual, core and active exponents' if want not in ('eq', 'ne') else 'compares the counts space by space', ver.truth(v, p) == {
            'lt': lambda: lex(True), 'le': lambda: lex(False), 'gt': lambda: z3.Not(lex(False)), 'ge': lambda: z3.Not(lex(True)),
            'eq': lambda: same_raw(ver), 'ne': lambda: z3.Not(same_raw(ver))}[want]()
    return f


TYPES = {'MOSpaceCounter': Typ('MOSpaceCounter')}
for w in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    globals()['cost_' + w] = SumContract(f'MOSpaceCounter.__{w}__', MPATH, cmp_start(False), cmp_post(w), globals=TYPES)
    globals()['bad_' + w] = SumContract(f'MOSpaceCounter.__{w}__', MPATH, cmp_start(True), lambda ver, p, v: [('anything but a space count is refused', False)],
                                        raises=lambda ver: {'TypeError': z3.BoolVal(True)}, globals=TYPES, tag=' (other type)')


# ---------------------------------------------------------------- cost of one contraction
SPACE = z3.Function('space', Elem, S)
IN1, IN2 = z3.Function('in_first', Elem, B), z3.Function('in_second', Elem, B)
MC = z3.Function('space_count_of', Elem, Elem)


def index(e):
    return O({'space': text(SPACE(e))}, key=e, cls='Index')


def mk_mc(ver, p, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], Ref) or a[0].kind != 'counter':
        raise Unsupported('space count')
    ps = p.heap[a[0].cell]
    return O({'#counted': ps}, key=MC(ver.encode(ps, unordered=True)), cls='MOSpaceCounter')


def cc_start(bad=None):
    def f(ver, p):
        mk = lambda f: Ref(ver.new(p, ver.every(Elem, lambda k: f(k))).cell, 'set')
        r = dict(indices_set1=mk(IN1), indices_set2=mk(IN2))
        if bad:
            r[bad] = ver.new(p, ver.seq(N, lambda j: index(z3.Function('label', I, Elem)(j))))
        return r, [N >= 0]
    return f


def counted(ver, v, p, dom):
    """the count takes every label satisfying dom once, by the lower-case letter of its space"""
    if not isinstance(v, O) or '#counted' not in v.attrs:
        return z3.BoolVal(False)
    ps = v.attrs['#counted']
    if len(ps) != 1 or not isinstance(ps[0], Fam) or ps[0].j.sort() != Elem or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
        return z3.BoolVal(False)
    k, n = ps[0].pieces[0].v
    return z3.ForAll([ps[0].j], z3.And(ps[0].guard == dom(ps[0].j), z3.Implies(dom(ps[0].j), z3.And(ver.kz(k) == LOW(SPACE(ps[0].j)), n == 1))))


def cc_post(ver, p, v):
    ok = isinstance(v, tuple) and len(v) == 3
    yield 'compute cost, storage cost and open labels', ok
    if not ok:
        return
    yield 'the cost of the contraction counts every label of either set once', counted(ver, v[0], p, lambda k: z3.Or(IN1(k), IN2(k)))
    yield 'the cost of the result counts every label of exactly one of the sets once', counted(ver, v[1], p, lambda k: z3.Xor(IN1(k), IN2(k)))
    k = z3.Const('k?', Elem)
    yield 'the open labels are those of exactly one of the sets', z3.BoolVal(False) if not (isinstance(v[2], Ref) and v[2].kind == 'set') else z3.ForAll([k], ver.dom_of(v[2], p)[1](k) == z3.Xor(IN1(k), IN2(k)))


CG = {'MOSpaceCounter': Typ('MOSpaceCounter', mk_mc), 'set': Typ('set')}
pair_cost = SumContract('Term._contraction_cost', TPATH, cc_start(), cc_post, globals=CG, member=lambda ver, k: index(k))
pair_list1 = SumContract('Term._contraction_cost', TPATH, cc_start('indices_set1'), lambda ver, p, v: [('only sets are accepted', False)], globals=CG, member=lambda ver, k: index(k),
                         raises=lambda ver: {'ValueError': z3.BoolVal(True)}, tag=' (first argument a list)')
pair_list2 = SumContract('Term._contraction_cost', TPATH, cc_start('indices_set2'), lambda ver, p, v: [('only sets are accepted', False)], globals=CG, member=lambda ver, k: index(k),
                         raises=lambda ver: {'ValueError': z3.BoolVal(True)}, tag=' (second argument a list)')


# ---------------------------------------------------------------- contraction paths
LT = z3.Function('cheaper', Elem, Elem, B)
T = z3.Function('tensor_left', I, Elem)
LSET, LTEN = z3.Function('left_set', Elem, Elem), z3.Function('left_tensors', Elem, Elem)
COMP, STOR, OPEN = (z3.Function(x, Elem, Elem, Elem) for x in ('compute_cost', 'storage_cost', 'open_labels'))
MAXC, MAXS, PATHSO = z3.Consts('max_compute max_storage path_so_far', Elem)
NOPATH = z3.Const('no_path', Elem)
W = z3.Function('weight', Elem, R)
PATHS = z3.Function('paths', Elem, Elem, Elem, Elem, Elem)
NPATHS = z3.Function('n_paths', Elem, I)
PATHAT = z3.Function('path', Elem, I, Elem)


def costo(e):
    key = lambda x: x.key if isinstance(x, O) else None
    return O({}, {'__lt__': lambda ver, p, a, kw: LT(e, key(a[0])), '__gt__': lambda ver, p, a, kw: LT(key(a[0]), e),
                  '__le__': lambda ver, p, a, kw: z3.Not(LT(key(a[0]), e)), '__ge__': lambda ver, p, a, kw: z3.Not(LT(e, key(a[0])))}, key=e, cls='MOSpaceCounter')


def plain(e, cls):
    return O(key=e, cls=cls)


def b_cost(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._contraction_cost'), a, kw, p)
    x, y = b['indices_set1'].key, b['indices_set2'].key
    return (costo(COMP(x, y)), costo(STOR(x, y)), plain(OPEN(x, y), 'set'))


def pathkey(v):
    return NOPATH if v is None else v.key if isinstance(v, O) else structure(v)


def b_rec(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._contraction_path'), a, kw, p)
    c, s, q = b['tensors_so_far']
    left = ver.encode(ver.pieces(b['tensors_left'], p))
    q = pathkey(q)
    if q is None:
        raise Unsupported('path')
    e = PATHS(left, c.key, s.key, q)
    p.facts.append(NPATHS(e) >= 0)
    return ver.new(p, ver.seq(NPATHS(e), lambda j: plain(PATHAT(e, j), 'path')))


TERMTYPE = Typ('Term', None, {'_contraction_cost': Fn(b_cost), '_contraction_path': Fn(b_rec)})


def cp_start(first):
    def f(ver, p):
        left = ver.new(p, ver.seq(N, lambda j: (plain(LSET(T(j)), 'set'), plain(LTEN(T(j)), 'tensors'))))
        return dict(tensors_left=left, tensors_so_far=(costo(MAXC), costo(MAXS), None if first else plain(PATHSO, 'path'))), [N >= 1, PATHSO != NOPATH]
    return f


def weigh(v):
    if isinstance(v, O) and v.cls == 'path':
        return W(v.key)
    if isinstance(v, tuple) and len(v) == 3:
        return W(PATHS(z3.Const('done', Elem), v[0].key, v[1].key, pathkey(v[2])))
    raise Unsupported('path')


def cp_post(first):
    def f(ver, p, v):
        ps = ver.pieces(v, p)
        got = ver.measure(ps, weigh)
        if ver.entails(p, N == 1):
            yield 'one tensor left: the path so far', got == W(PATHS(z3.Const('done', Elem), MAXC, MAXS, NOPATH if first else PATHSO))
            return
        i, j = ver.fresh('j'), ver.fresh('j')
        a, b = T(i), T(j)
        entry = lambda x: (plain(LSET(x), 'set'), plain(LTEN(x), 'tensors'))
        n = ver.fresh('j')
        want = z3.RealVal(0)
        new = (plain(LTEN(a), 'tensors'), plain(LTEN(b), 'tensors'))
        rest = (Fam(N, n, z3.And(n != i, n != j), (One(entry(T(n))),)), One((plain(OPEN(LSET(a), LSET(b)), 'set'), new)))
        c, s = COMP(LSET(a), LSET(b)), STOR(LSET(a), LSET(b))
        for more_c in (True, False):
            for more_s in (True, False):
                for whole in (True, False):
                    g = z3.And(LT(MAXC, c) if more_c else z3.Not(LT(MAXC, c)), LT(MAXS, s) if more_s else z3.Not(LT(MAXS, s)), N == 2 if whole else N != 2)
                    pp = new if first or whole else (plain(PATHSO, 'path'), new)
                    e = PATHS(ver.encode(rest), c if more_c else MAXC, s if more_s else MAXS, pathkey(pp))
                    m = ver.fresh('j')
                    t = ver.total(NPATHS(e), m, TRUE, W(PATHAT(e, m)))
                    want = want + ver.total(N, i, TRUE, ver.total(N, j, z3.And(j >= i + 1, g), t))
        yield 'every pair of tensors is contracted once, the largest costs are kept', z3.And(N != 1, got == ver.norm(want))
    return f


paths_first = SumContract('Term._contraction_path', TPATH, cp_start(True), cp_post(True), globals={'Term': TERMTYPE})
paths_next = SumContract('Term._contraction_path', TPATH, cp_start(False), cp_post(False), globals={'Term': TERMTYPE}, tag=' (after a first contraction)')


# ---------------------------------------------------------------- all paths of a term, the best of them
TS = z3.Function('tensor', I, Elem)
NTS = z3.Int('n_tensors')
HASIX = z3.Function('has_label', Elem, Elem, B)
MCZ = z3.Const('cost_nothing', Elem)


def tensor(e):
    k = z3.Const('j$label', Elem)
    return O({'indices_set': O({'#items': (Fam(ALL, k, HASIX(e, k), (One(index(k)),)),)}, key=LSET(e), cls='set')}, key=e, cls='Tensor')


def me(ver, p):
    return O({'list_of_tensors': Lazy(lambda ver, p: ver.tensors)}, {'contraction_paths': lambda ver, p, a, kw: b_paths(ver, p)}, key=z3.Const('term', Elem), cls='Term')


def mk_mc2(ver, p, a, kw):
    """MOSpaceCounter(count or dictionary)"""
    if len(a) == 1 and isinstance(a[0], Ref) and a[0].kind == 'map':
        sort, dom, val, w = p.heap[a[0].cell]
        k = z3.Const('k!', S)
        ver.goal('an empty cost has no labels', p, z3.ForAll([k], z3.And(val(k) == 0, z3.Implies(dom(k), z3.Or(k == z3.StringVal('v'), k == z3.StringVal('c'))))))
        return costo(MCZ)
    c = mk_mc(ver, p, a, kw)
    return O(dict(c.attrs), costo(c.key).methods, key=c.key, cls='MOSpaceCounter')


def ap_start(ver, p):
    ver.tensors = ver.new(p, ver.seq(NTS, lambda j: tensor(TS(j))))
    return dict(self=me(ver, p)), [NTS >= 1]


def single(ver, v, p):
    return counted(ver, v, p, lambda k: HASIX(TS(0), k))


def b_top(ver, p, a, kw):
    b = ver.bind(find(TPATH, 'Term._contraction_path'), a, kw, p)
    ps = ver.pieces(b['tensors_left'], p)
    j = ver.fresh('j')
    want = (Fam(NTS, j, TRUE, (One((plain(LSET(TS(j)), 'set'), plain(TS(j), 'Tensor'))),)),)
    ver.goal('all tensors of the term are contracted', p, z3.BoolVal(ver.keys(ps) == ver.keys(want)))
    c, s, q = b['tensors_so_far']
    ver.goal('no tensor is contracted before', p, z3.BoolVal(q is None))
    for x in (c, s):
        ver.goal('one tensor: its own labels count; otherwise nothing costs at first', p, z3.If(NTS == 1, single(ver, x, p), x.key == MCZ))
    e = z3.Const('all_paths', Elem)
    p.facts.append(NPATHS(e) >= 0)
    return ver.new(p, ver.seq(NPATHS(e), lambda j: plain(PATHAT(e, j), 'path')))


def ap_post(ver, p, v):
    e = z3.Const('all_paths', Elem)
    j = ver.fresh('j')
    yield 'every path once', ver.measure(ver.pieces(v, p), weigh) == ver.norm(ver.total(NPATHS(e), j, TRUE, W(PATHAT(e, j))))


OG = {'MOSpaceCounter': Typ('MOSpaceCounter', mk_mc2), 'Term': Typ('Term', None, {'_contraction_path': Fn(b_top)})}
all_paths = SumContract('Term.contraction_paths', TPATH, ap_start, ap_post, globals=OG, member=lambda ver, k: index(k))

CC, CS, CP = (z3.Function(x, I, Elem) for x in ('path_compute', 'path_storage', 'path_steps'))
NP = z3.Int('n_paths_all')


def b_paths(ver, p):
    r = ver.new(p, ver.seq(NP, lambda j: (costo(CC(j)), costo(CS(j)), plain(CP(j), 'path'))))
    ver.loop_over = r.cell
    return r


def order_facts():
    a, b, c = z3.Consts('a! b! c!', Elem)
    return [z3.ForAll([a, b], z3.Implies(LT(a, b), z3.Not(LT(b, a))), patterns=[LT(a, b)]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(z3.Not(LT(a, b)), z3.Not(LT(b, c))), z3.Not(LT(a, c))), patterns=[z3.MultiPattern(LT(a, b), LT(b, c))]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(LT(a, b), z3.Not(LT(c, b))), LT(a, c)), patterns=[z3.MultiPattern(LT(a, b), LT(c, b))])]


def best(m, f, pos):
    j = z3.Int('j?')
    return z3.And(m >= 0, m < pos, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < pos), z3.Not(LT(f(j), f(m)))), patterns=[f(j)]))


def op_inv(ver, s, it, rest, p, k):
    """each of the two variables is None before the first path and afterwards the cost and steps of a path that is not dearer than any seen"""
    if not isinstance(it, Ref):
        raise Unsupported('loop')
    names = [x for x in {y.id for z in s.body for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} if x in p.env and p.env[x] is None]
    if len(names) != 2:
        raise Unsupported('two best paths')
    cases = []
    # which of the costs each variable keeps: found by running the body once from the start
    first = p.copy()
    first.facts += [NP > 0]
    kinds = {}

    def look(r):
        for x in names:
            v = r.env[x]
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], O) and isinstance(v[1], O)):
                raise Unsupported('best path')
            for f in (CC, CS):
                if v[0].key.eq(f(z3.IntVal(0))):
                    kinds[x] = f
    old = getattr(ver, 'again', None)
    ver.quiet += 1
    ver.assign(s.target, (costo(CC(z3.IntVal(0))), costo(CS(z3.IntVal(0))), plain(CP(z3.IntVal(0)), 'path')), first)
    ver.again = look
    ver.block(list(s.body), first, look)
    ver.quiet -= 1
    if len(kinds) != 2:
        raise Unsupported('best path')
    pos = ver.fresh('pos')

    def state(h, started):
        h.facts += order_facts()
        for x in names:
            if not started:
                h.env[x] = None
                continue
            m = ver.fresh('best_' + x)
            h.env[x] = (costo(kinds[x](m)), plain(CP(m), 'path'))
            h.facts += [best(m, kinds[x], pos)]
        h.facts += [pos >= 0, pos <= NP, (pos == 0) != z3.BoolVal(started)]
    for started in (False, True):
        b = p.copy()
        state(b, started)
        b.facts += [pos < NP]
        ver.assign(s.target, (costo(CC(pos)), costo(CS(pos)), plain(CP(pos), 'path')), b)

        def end(r):
            for x in names:
                v = r.env[x]
                f = kinds[x]
                if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], O) and isinstance(v[1], O)):
                    ver.goal('a path is kept', r, z3.BoolVal(False))
                    continue
                key = v[0].key
                w = key.arg(0) if key.decl().eq(f) else None
                ver.goal('the cheapest path so far is kept, with its steps', r, z3.BoolVal(False) if w is None else z3.And(best(w, f, pos + 1), v[1].key == CP(w)))
            for c in b.heap:
                if r.heap.get(c) is not b.heap[c]:
                    raise Unsupported('a list is changed')
        ver.again = end
        ver.block(list(s.body), b, end)
    ver.again = old
    for started in (False, True):
        h = p.copy()
        state(h, started)
        h.facts += [pos == NP]
        if ver.feasible(h):
            ver.block(rest, h, k)


def oc_start(ver, p):
    ver.tensors = ver.new(p, ver.seq(NTS, lambda j: tensor(TS(j))))
    return dict(self=me(ver, p)), [NTS >= 1, NP >= 1]


def oc_post(ver, p, v):
    ok = isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, tuple) and len(x) == 2 for x in v)
    yield 'best by compute cost and best by storage cost', ok
    if not ok:
        return
    if ver.entails(p, NTS == 1):
        yield 'one tensor: its own labels, no contraction', z3.And(single(ver, v[0][0], p), single(ver, v[1][0], p), z3.BoolVal(v[0][1] is None and v[1][1] is None))
        return
    for x, f, what in ((v[0], CC, 'compute'), (v[1], CS, 'storage')):
        key = x[0].key if isinstance(x[0], O) else None
        fine = key is not None and z3.is_app(key) and key.decl().eq(f) and isinstance(x[1], O)
        yield f'no path has a lower {what} cost, and the steps are those of the path', z3.And(NTS != 1, best(key.arg(0), f, NP), x[1].key == CP(key.arg(0))) if fine else False


optimum = SumContract('Term.optimal_contraction_cost', TPATH, oc_start, oc_post, globals=OG, member=lambda ver, k: index(k), invariants=op_inv)


def lemmas(pr):
    pass

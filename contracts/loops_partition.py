"""Integer partitions (C18): the ZS1 loop yields every partition of n once, in reverse lexicographic order.

Ghost: the partition handed out last.  At every yield the new list is a partition of n, smaller than the last one in
lexicographic order, and no partition lies between the two; the first is [n], and when the loop ends the last one
is all ones, below which there is none.  Hence the sequence is the whole descending list of partitions."""
import z3
from loops import *

PROPS = ['C18']
ASSUMES = ['the consumer of the generator does not change the list it is handed (the property asks that lists already handed out are not changed by the generator; that part is proved)',
           'ghost function: lexicographic rank order of partitions as defined in the module; lemmas proved by induction']

sel = z3.Select


def lemmas(pr):
    a, b = z3.Consts('a b', A)
    hi, lo = z3.Ints('hi lo')
    j = z3.Int('j')
    low = lambda hi: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel(a, j) >= 1)), SUM(a, lo, hi) >= z3.If(hi > lo, hi - lo, 0))
    pr.prove('lemma lower bound of a sum: base', [hi <= lo], low(hi))
    pr.prove('lemma lower bound of a sum: step', [hi > lo, low(hi - 1)], low(hi))
    same = lambda hi: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel(a, j) == sel(b, j))), SUM(a, lo, hi) == SUM(b, lo, hi))
    pr.prove('lemma equal segments: base', [hi <= lo], same(hi))
    pr.prove('lemma equal segments: step', [hi > lo, same(hi - 1)], same(hi))
    m = z3.Int('m')
    spl = lambda hi: z3.Implies(z3.And(lo <= m, m <= hi), SUM(a, lo, hi) == SUM(a, lo, m) + SUM(a, m, hi))
    pr.prove('lemma split of sums: base', [hi <= m], spl(hi))
    pr.prove('lemma split of sums: step', [hi > m, spl(hi - 1)], spl(hi))


def low(a, lo, hi):
    j = z3.Int('j')
    return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel(a, j) >= 1)), SUM(a, lo, hi) >= z3.If(hi > lo, hi - lo, 0))


def same(a, b, lo, hi):
    j = z3.Int('j')
    return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel(a, j) == sel(b, j))), SUM(a, lo, hi) == SUM(b, lo, hi))


def split(a, lo, m, hi):
    return z3.Implies(z3.And(lo <= m, m <= hi), SUM(a, lo, hi) == SUM(a, lo, m) + SUM(a, m, hi))


def partition(a, m, n):
    """the first m entries of a are a partition of n"""
    i, j = z3.Ints('i j')
    return [z3.And(1 <= m, m <= n),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), sel(a, i) >= 1)),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), sel(a, i) >= sel(a, j))),
            SUM(a, 0, m) == n]


def less(a, ma, b, mb, d):
    """a < b, first difference at d (two partitions of the same number: neither is a prefix of the other)"""
    i = z3.Int('i')
    return z3.And(0 <= d, d < ma, d < mb, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d), sel(a, i) == sel(b, i))), sel(a, d) < sel(b, d))


def at_yield(lv, p, val):
    n = lv.args['n']
    last, count = p.env['ghost_last'], p.env['ghost_count']
    if not (z3.is_int_value(val.off) and val.off.as_long() == 0):
        raise Unsupported('yield of an inner slice')
    a, m = val.arr, lv.fresh('len')
    p.facts.append(m == val.n)
    hs = p.facts
    hint = [low(a, 0, m), low(a, 0, z3.simplify(m - 1))] + hints('yield', p.env)
    for k, f in enumerate(partition(a, m, n)):
        lv.pr.prove(f'integer_partition: yield, part {k + 1} of: a partition of n', hs, f, hints=hint)
    if 'm' not in p.env:
        raise Unsupported('names of the partition loop')
    lv.pr.prove('integer_partition: yield: the whole partition is handed out', hs, m == p.env['m'], hints=hint)
    p.facts += partition(a, m, n) + [m == p.env['m']]
    hs = p.facts
    if z3.is_int_value(count) and count.as_long() == 0:
        lv.pr.prove('integer_partition: yield: the first is [n]', hs, z3.And(m == 1, sel(a, 0) == n), hints=hint)
    else:
        b, mb = last.arr, last.n
        h = p.env.get('ghost_h')
        y = z3.Const('y', A)
        my, d, e = z3.Ints('my d e')
        anyp = partition(y, my, n)
        # descending: the new one is smaller than the last at position h - 1 of the last
        lv.pr.prove('integer_partition: yield: smaller than the one before', hs, less(a, m, b, mb, h - 1), hints=hint)
        # nothing between: y below the last is not above the new one
        lv.pr.prove('integer_partition: yield: no partition between', hs + anyp + [less(y, my, b, mb, d)], z3.Not(less(a, m, y, my, e)),
                    hints=hint + [same(y, a, 0, e), low(y, z3.simplify(e + 1), my), split(y, 0, z3.simplify(e + 1), my), split(a, 0, z3.simplify(e), m),
                                  low(a, z3.simplify(e + 1), m), split(a, 0, z3.simplify(e + 1), m)])
    p.env['ghost_last'] = LV(a, z3.IntVal(0), m)
    p.env['ghost_count'] = z3.simplify(count + 1)
    p.env['ghost_h'] = p.env['h']


def inv0(e, a):
    x, m, h, n = e['x'], e['m'], e['h'], a['n']
    last, count = e['ghost_last'], e['ghost_count']
    i, j = z3.Ints('i j')
    return [z3.And(x.off == 0, x.n == n, count >= 1, last.off == 0, last.n == m, e['ghost_h'] == h),
            z3.And(1 <= m, m <= n, 0 <= h, h <= m, z3.Implies(sel(x.arr, 0) != 1, h >= 1)),
            z3.ForAll([i], z3.Implies(z3.And(h <= i, i < n), sel(x.arr, i) == 1)),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h), z3.Or(sel(x.arr, i) >= 2, n == 1))),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(x.arr, i) >= 1)),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(x.arr, i) >= sel(x.arr, j))),
            SUM(x.arr, 0, m) == n,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), sel(last.arr, i) == sel(x.arr, i)))]


def inv1(e, a):
    x, h, n, r, t = e['x'], e['h'], a['n'], e['r'], e['t']
    last, h0 = e['ghost_last'], e['ghost_h']
    i, j = z3.Ints('i j')
    return [z3.And(x.off == 0, x.n == n, e['ghost_count'] >= 1, last.off == 0, 1 <= last.n, last.n <= n),
            z3.And(1 <= h0, h0 <= h, h <= n, h0 <= last.n, r >= 2, t >= 0, e['m'] == last.n),
            z3.ForAll([i], z3.Implies(z3.And(h <= i, i < n), sel(x.arr, i) == 1)),
            z3.ForAll([i], z3.Implies(z3.And(h0 - 1 <= i, i < h), sel(x.arr, i) == r)),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h0 - 1), z3.And(sel(x.arr, i) == sel(last.arr, i), sel(x.arr, i) >= r + 1))),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < h0 - 1), sel(x.arr, i) >= sel(x.arr, j))),
            SUM(x.arr, 0, h) + t == n,
            z3.And(sel(last.arr, h0 - 1) == r + 1, z3.ForAll([i], z3.Implies(z3.And(h0 <= i, i < last.n), sel(last.arr, i) == 1)))]


def hints(where, e):
    out = []
    x = e.get('x')
    if x is None:
        return out
    for v in ('h', 'm', 'ghost_h'):
        if v in e:
            for t in (e[v], e[v] - 1):
                out.append(low(x.arr, 0, z3.simplify(t)))
    if 'm' in e and 'ghost_h' in e:
        h0, m = e['ghost_h'], e['m']
        base = x.arr
        while base.decl().kind() == z3.Z3_OP_STORE:
            base = base.arg(0)
        for b in {x.arr, base}:
            out += [split(b, 0, z3.simplify(h0), m), split(b, 0, z3.simplify(h0 - 1), m), split(b, z3.simplify(h0 - 1), h0, m), low(b, 0, m), low(b, 0, h0),
                    ones(b, h0, m), split(b, 0, h0, z3.simplify(m + 1)), low(b, 0, z3.simplify(h0 - 1)), same(x.arr, base, 0, z3.simplify(h0 - 1)),
                    split(b, 0, z3.simplify(h0 - 1), z3.simplify(m - 1)), split(b, z3.simplify(h0 - 1), h0, z3.simplify(m - 1))]
    return out


def ones(a, lo, hi):
    """a segment of ones sums to its length: lower bound of a and of 2 - a (stated, proved in more_lemmas)"""
    j = z3.Int('j')
    return z3.Implies(z3.And(lo <= hi, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), sel(a, j) == 1))), SUM(a, lo, hi) == hi - lo)


def more_lemmas(pr):
    a = z3.Const('a', A)
    lo, hi, j = z3.Ints('lo hi j')
    pr.prove('lemma sum of ones: base', [hi <= lo], ones(a, lo, hi))
    pr.prove('lemma sum of ones: step', [hi > lo, ones(a, lo, hi - 1)], ones(a, lo, hi))


_first = lemmas


def lemmas(pr):
    _first(pr)
    more_lemmas(pr)


PARTITION = Contract('integer_partition', 'dsrg_generator/helper/integer_partition.py', {'n': 'int'}, lambda n: [n >= 1],
                     lambda args, e: [z3.Implies(z3.BoolVal(True), sel(e['ghost_last'].arr, 0) == 1)], None, {0: inv0, 1: inv1},
                     variants={1: lambda e: e['t']}, hints=hints, at_yield=at_yield,
                     ghost={'last': lambda lv: LV(lv.fresh('last', A), z3.IntVal(0), z3.IntVal(0)), 'count': lambda lv: z3.IntVal(0),
                            'h': lambda lv: z3.IntVal(1)})

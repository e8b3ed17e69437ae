"""Merge sort with inversion count (C03): contracts, loop invariant, lemmas."""
import z3
from loops import *

PROPS = ['C03', 'C08']
ASSUMES = ['elements of a list are compared by a total order, represented by the integers (the order itself is proved for Index in C01)',
           'ghost functions: multiset of a list segment, number of inversions; their defining equations are definitions, the lemmas used are proved by induction in the same module']


def lemmas(pr):
    """facts about the ghost functions, by induction on the upper end of the segment"""
    a = z3.Const('a', A)
    lo, m, hi, i, v, x = z3.Ints('lo m hi i v x')
    j = z3.Int('j')
    thr = lambda i, hi: z3.Implies(z3.And(lo <= i, i <= hi, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < i), z3.Select(a, j) <= v)),
                                          z3.ForAll([j], z3.Implies(z3.And(i <= j, j < hi), z3.Select(a, j) > v))),
                                   GT(MS(a, lo, hi), v) == hi - i)
    pr.prove('lemma threshold: base', [hi <= lo], thr(i, hi))
    pr.prove('lemma threshold: step', [hi > lo, thr(i, hi - 1), thr(i - 1, hi - 1)], thr(i, hi))
    gts = lambda hi: z3.Implies(z3.And(lo <= m, m <= hi), GT(MS(a, lo, hi), v) == GT(MS(a, lo, m), v) + GT(MS(a, m, hi), v))
    pr.prove('lemma split of counts: base', [hi <= m], gts(hi))
    pr.prove('lemma split of counts: step', [hi > m, gts(hi - 1)], gts(hi))
    mss = lambda hi: z3.Implies(z3.And(lo <= m, m <= hi), MS(a, lo, hi) == munion(MS(a, lo, m), MS(a, m, hi)))
    pr.prove('lemma split of multisets: base', [hi <= m], mss(hi))
    pr.prove('lemma split of multisets: step', [hi > m, mss(hi - 1)], mss(hi))
    inv = lambda hi: z3.Implies(z3.And(lo <= m, m <= hi), INV(a, lo, hi) == INV(a, lo, m) + INV(a, m, hi) + CROSS(MS(a, lo, m), MS(a, m, hi)))
    pr.prove('lemma split of inversions: base', [hi <= m], inv(hi))
    g = z3.Implies(z3.And(lo <= m, m <= hi - 1), GT(MS(a, lo, hi - 1), z3.Select(a, hi - 1)) ==
                   GT(MS(a, lo, m), z3.Select(a, hi - 1)) + GT(MS(a, m, hi - 1), z3.Select(a, hi - 1)))
    pr.prove('lemma split of inversions: step', [hi > m, inv(hi - 1), g], inv(hi))
    p, w = z3.Ints('p w')
    for f, nm in ((MS, 'multiset'), (SUM, 'sum'), (INV, 'inversions')):
        fr = lambda hi: z3.Implies(z3.Or(p < lo, p >= hi), f(z3.Store(a, p, w), lo, hi) == f(a, lo, hi))
        ar = z3.Store(a, p, w)
        # the frame instances for shorter segments are the induction hypothesis; unfold by hand, without the frame rule
        un = lambda b, h: (z3.If(h <= lo, MS(b, lo, h) == K0, MS(b, lo, h) == z3.Store(MS(b, lo, h - 1), z3.Select(b, h - 1),
                           z3.Select(MS(b, lo, h - 1), z3.Select(b, h - 1)) + 1)) if f is MS else
                           z3.If(h <= lo, f(b, lo, h) == 0, f(b, lo, h) == f(b, lo, h - 1) +
                                 (z3.Select(b, h - 1) if f is SUM else GT(MS(b, lo, h - 1), z3.Select(b, h - 1)))))
        hyp = [un(ar, hi), un(a, hi), fr(hi - 1)]
        if f is INV:
            hyp.append(z3.Implies(z3.Or(p < lo, p >= hi - 1), MS(ar, lo, hi - 1) == MS(a, lo, hi - 1)))
        pr.prove(f'lemma frame of {nm}', hyp, fr(hi), rounds=0)


def threshold(l, v, i):
    j = z3.Int('j')
    lo, hi = l.off, z3.simplify(l.off + l.n)
    return z3.Implies(z3.And(0 <= i, i <= l.n, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < lo + i), z3.Select(l.arr, j) <= v)),
                             z3.ForAll([j], z3.Implies(z3.And(lo + i <= j, j < hi), z3.Select(l.arr, j) > v))),
                      GT(l.ms, v) == l.n - i)


def split(a, lo, m, hi):
    return z3.Implies(z3.And(lo <= m, m <= hi), z3.And(
        MS(a, lo, hi) == munion(MS(a, lo, m), MS(a, m, hi)),
        INV(a, lo, hi) == INV(a, lo, m) + INV(a, m, hi) + CROSS(MS(a, lo, m), MS(a, m, hi))))


def list_and_count(fresh):
    return LV(fresh('res', A), z3.IntVal(0), fresh('res_n')), fresh('count')


def merge_ensures(args, r):
    left, right = args
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], LV)):
        raise Unsupported('result of merge')
    res, count = r
    return [res.n == left.n + right.n, res.sorted(), res.ms == munion(left.ms, right.ms), count == CROSS(left.ms, right.ms)]


def merge_inv(e, a):
    left, right, res = a['left'], a['right'], e['sorted_result']
    i, j, k, count = e['i'], e['j'], e['k'], e['count']
    q, r = z3.Ints('q r')
    sel = z3.Select
    return [z3.And(0 <= i, i <= left.n, 0 <= j, j <= right.n, k == i + j),
            res.sorted(k),
            z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < k, i <= r, r < left.n), sel(res.arr, q) <= sel(left.arr, r))),
            z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < k, j <= r, r < right.n), sel(res.arr, q) <= sel(right.arr, r))),
            z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < i, j <= r, r < right.n), sel(left.arr, q) <= sel(right.arr, r))),
            MS(res.arr, res.off, z3.simplify(res.off + k)) == munion(left.part(0, i), right.part(0, j)),
            count == CROSS(left.ms, right.part(0, j)),
            z3.And(res.off == 0, e['n_left'] == left.n, e['n_right'] == right.n)]


def merge_hints(where, e):
    if where.startswith('loop') and 'i' in e and 'j' in e:
        left, right = e['left'], e['right']
        return [threshold(left, right[z3.simplify(e['j'] - 1)], e['i']), threshold(left, right[e['j']], e['i'])]
    return []


MERGE = Contract('merge_and_count_split_inversion', 'dsrg_generator/Indices.py', {'left': 'list', 'right': 'list'},
                 lambda l, r: [l.sorted(), r.sorted()], merge_ensures, list_and_count, {0: merge_inv}, hints=merge_hints)


def sort_ensures(args, r):
    a, = args
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], LV)):
        raise Unsupported('result of sort')
    res, count = r
    return [res.n == a.n, res.sorted(), res.ms == a.ms, count == INV(a.arr, a.off, z3.simplify(a.off + a.n))]


def sort_hints(where, e):
    a = e['array']
    if 'n_half' in e:
        h = e['n_half']
        return [split(a.arr, a.off, z3.simplify(a.off + h), z3.simplify(a.off + a.n)), split(a.arr, a.off, z3.simplify(a.off + a.n / 2), z3.simplify(a.off + a.n))]
    return [split(a.arr, a.off, z3.simplify(a.off + a.n / 2), z3.simplify(a.off + a.n))]


SORT = Contract('sort_and_count_inversions', 'dsrg_generator/Indices.py', {'array': 'list'}, lambda a: [], sort_ensures, list_and_count,
                {}, measure=lambda a: a.n, hints=sort_hints)

"""shared generators and readers for the contraction contracts (C06-C09, C20)"""
from common import *
import dsrg_generator.sqop_contraction as SC
from collections import Counter


def mk_ops(ops):
    return [mk_op(c, a) for c, a in ops]


def rnd_ops(rng, n_ops, max_rank, letters='gphvca', shuffle=True, balanced=.8, lo=0):
    """operators with labels unique over creators and unique over annihilators"""
    count = {}
    ops = []
    free_c, free_a = {}, {}

    def new(store):
        s = rng.choice(letters)
        k = store.setdefault(s, list(range(14)))
        return s + str(k.pop(rng.randrange(min(len(k), 5)) if shuffle else 0))
    for _ in range(n_ops):
        nc = rng.randrange(lo, max_rank + 1)
        na = nc if rng.random() < balanced else rng.randrange(lo, max_rank + 1)
        if nc + na == 0:
            na = nc = 1
        same = rng.random() < .15
        c = [new(free_c) for _ in range(nc)]
        a = [new(free_a) for _ in range(na)]
        ops.append([c, a])
    return ops


FIXED = [
    [[['g0'], ['g1']], [['g2'], ['g3']]],
    [[['h0'], ['p0']], [['p1'], ['h1']]],
    [[['p0'], ['h0']], [['h1'], ['p1']]],
    [[['c0'], ['v0']], [['v1'], ['c1']]],
    [[['a0'], ['a1']], [['a2'], ['a3']]],
    [[['g1', 'g0'], ['g2', 'g3']], [['p0'], ['h0']]],
    [[['g0', 'g1'], ['g2', 'g3']], [['p1', 'p0'], ['h0', 'h1']]],
    [[['h0'], ['p0']], [['g0'], ['g1']], [['p1'], ['h1']]],
    [[['a0'], ['a1']], [['a2'], ['a3']], [['a4'], ['a5']]],
    [[['g0'], ['g0']], [['g1'], ['g1']]],
    [[['c1', 'a0'], ['v0', 'a1']], [['p1'], ['h1']]],
]


def dens_of(t):
    k, n, u, l = d_tensor(t)
    return k, u, l


def read_contractions(gen):
    """flatten the result of the real code into [(sign, [(kind, u, l)], cre, ann)]"""
    out = []
    for batch in gen:
        for sign, dens, op in batch:
            out.append((sign, [dens_of(t) for t in dens], *d_op(op)))
    return out


def spec_contractions(ops, max_cu, lo, hi, expand, keep=None):
    """Counter of normal forms -> expected sign, from the mathematical definition"""
    try:
        ele, sets = O.composite(ops, max_cu, lo, hi, 30000)
    except OverflowError:
        raise Skip()
    out = []
    for s in sets:
        if keep is not None and not keep([ele[x][0] for x in s]):
            continue
        dens = [ele[x][1:] for x in s]
        sign, cre, ann = O.wick_sign(ops, dens)
        for s2, dd in (O.expand_holes(sign, dens) if expand else [(sign, dens)]):
            out.append((s2, dd, cre, ann))
    return out


def normal(cons):
    c = Counter()
    for sign, dens, cre, ann in cons:
        k, s = O.norm_contraction(sign, dens, cre, ann)
        c[(k, s)] += 1
    return c


def diff(a, b):
    x = list((a - b).items())[:2]
    y = list((b - a).items())[:2]
    return f"missing or wrong: expected {y}, got instead {x} ({sum(a.values())} produced, {sum(b.values())} expected)"

"""shared helpers for products of terms (C10, C11, C20)"""
from wick import *
import dsrg_generator.phys_op_contraction as PC
from dsrg_generator.Term import hamiltonian_operator, cluster_operator
from fractions import Fraction


def fr(x):
    return Fraction(x).limit_denominator(10 ** 9)


def like_key(t):
    """what makes two terms like terms"""
    c, ts, op = d_term(t) if isinstance(t, Term) else t
    return tuple(sorted((k, n, tuple(u), tuple(l)) for k, n, u, l in ts)), tuple(map(tuple, op))


def as_sum(terms):
    """{like key: exact sum of coefficients}, zero sums left out"""
    tot = {}
    for t in terms:
        d = d_term(t)
        k = like_key(d)
        tot[k] = tot.get(k, 0) + fr(d[0])
    return {k: v for k, v in tot.items() if v}


def canon_sum(raw, herm):
    """sum of the canonical forms of raw terms (coeff, tensors, op): the contract of canonicalize is C12"""
    out = []
    for d in raw:
        out.append(mk_term(d).canonicalize_sympy(hermitian_tensor=herm))
    return as_sum(out)


def product_spec(terms, max_cu, lo, hi, factor, connected, expand):
    """raw terms of the normal-ordered product of term descriptions"""
    coeff = Fraction(factor).limit_denominator(10 ** 9)
    tensors, ops = [], []
    for c, ts, op in terms:
        coeff *= fr(c)
        tensors += ts
        if op[0] or op[1]:
            ops.append(op)
    if len(ops) < 2:
        return [(coeff, tensors, ops[0] if ops else ((), ()))]
    keep = (lambda c: O.connected_with_pair(len(ops), c)) if connected else None
    return [(coeff * s, tensors + [(k, k, u, l) for k, u, l in dd], (cr, an))
            for s, dd, cr, an in spec_contractions(ops, max_cu, lo, hi, expand, keep)]


def ham(k, start=0):
    return d_term(hamiltonian_operator(k, start))


def amp(k, start=0, exc=True, h='h', p='p', name='T', scale=1.0):
    return d_term(cluster_operator(k, start=start, excitation=exc, name=name, scale_factor=scale, hole_label=h, particle_label=p))


def own_term(kind, name, cre, ann, coeff=1.0):
    """coeff * X^{ann}_{cre} a^{cre}_{ann}"""
    return (coeff, [(kind, name, tuple(ann), tuple(cre))], (tuple(cre), tuple(ann)))


def rnd_term(rng, start, letters, rank, kinds='H'):
    n = rng.randrange(1, rank + 1)
    k = rng.choice(kinds)
    lab = lambda j: rng.choice(letters) + str(start + j)
    return own_term(k, k if rng.random() < .7 else rng.choice('UVW'), [lab(j) for j in range(n)], [lab(n + j) for j in range(n)], rng.choice([1.0, -.5, .25, 2.0, 1 / 3]))

import itertools
import random
import harness
from harness import check, expect, returns, Fail, Skip, Known, clause
import oracle as O
from dsrg_generator.Index import Index
from dsrg_generator.Indices import (Indices, IndicesSpinOrbital, IndicesSpinIntegrated, IndicesSpinAdapted,
                                    IndicesAntisymmetric)
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.Tensor import Tensor, Cumulant, HoleDensity, Kronecker, ClusterAmplitude, HamiltonianTensor
from dsrg_generator.SQOperator import SecondQuantizedOperator as SQ
from dsrg_generator.Term import Term

KINDS = {'so': IndicesSpinOrbital, 'si': IndicesSpinIntegrated, 'sa': IndicesSpinAdapted,
         'asymm': IndicesAntisymmetric}
TCLASS = {'L': Cumulant, 'C': HoleDensity, 'K': Kronecker, 'T': ClusterAmplitude, 'H': HamiltonianTensor, 'X': Tensor}
TKIND = {v: k for k, v in TCLASS.items()}
TALIAS = {'L': 'lambda', 'C': 'eta', 'K': 'delta', 'T': 't', 'H': 'H'}
DEFAULT_NAME = {'L': 'L', 'C': 'C', 'K': 'K', 'T': 'T', 'H': 'H'}
DEFAULT_PRIO = {'L': 2, 'C': 2, 'K': -1, 'T': 1, 'H': 0, 'X': 0}


def names(ind):
    return tuple(i.name for i in ind)


def mk_ind(l, kind='so'):
    return Indices.make_indices(list(l), kind)


def mk_tensor(kind, u, l, itype='so', name=None, prio=None):
    kw = {}
    if name is not None:
        kw['name'] = name
    if prio is not None:
        kw['priority'] = prio
    return TCLASS[kind](list(u), list(l), itype, **kw)


def mk_op(c, a, itype='so'):
    return SQ(list(c), list(a), itype)


def d_tensor(t):
    return TKIND[type(t)], t.name, names(t.upper_indices), names(t.lower_indices)


def d_op(o):
    return names(o.cre_ops), names(o.ann_ops)


def d_term(t):
    return t.coeff, [d_tensor(x) for x in t.list_of_tensors], d_op(t.sq_op)


def mk_term(d, itype='so'):
    coeff, tensors, (c, a) = d
    return Term([mk_tensor(k, u, l, itype, n) for k, n, u, l in tensors], mk_op(c, a, itype), coeff)


def cmp_all(a, b, ka, kb, what):
    """six comparison operators of a, b must agree with those of the keys ka, kb"""
    check((a == b) == (ka == kb), what + ' ==', ka, kb)
    check((a != b) == (ka != kb), what + ' !=', ka, kb)
    check((a < b) == (ka < kb), what + ' <', ka, kb)
    check((a <= b) == (ka <= kb), what + ' <=', ka, kb)
    check((a > b) == (ka > kb), what + ' >', ka, kb)
    check((a >= b) == (ka >= kb), what + ' >=', ka, kb)
    if ka == kb:
        check(hash(a) == hash(b), what + ' equal objects with different hashes', ka, kb)


def list_key(l):
    return len(l), [O.key(i) for i in l]


def rnd_labels(rng, n, letters='gphvca', top=6):
    """n distinct labels"""
    pool = set()
    while len(pool) < n:
        pool.add(rng.choice(letters) + str(rng.randrange(top if n < 2 * top else n)))
    l = sorted(pool)
    rng.shuffle(l)
    return l


def letters_of(kind):
    return 'gphvca' if kind == 'so' else 'gphvcaGPHVCA'


def spin_conserving(u, l):
    return len(u) == len(l) and sum(map(O.is_beta, u)) == sum(map(O.is_beta, l))


def amp_ok(u, l):
    for lst in (u, l):
        s = {i[0].lower() for i in lst}
        if s & {'c', 'h'} and s & {'p', 'v'}:
            return False
    return True


def tensor_ok(kind, u, l):
    if kind == 'X':
        return True
    if kind in 'CK' and not len(u) == len(l) == 1:
        return False
    if not spin_conserving(u, l):
        return False
    return amp_ok(u, l) if kind == 'T' else True

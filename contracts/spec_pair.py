"""Contracts of IndicesPair, Tensor and its kinds, SecondQuantizedOperator: upper list, lower list (name, priority)."""
from dsrg_generator.Indices import Indices, IndicesSpinOrbital, IndicesAntisymmetric, IndicesSpinIntegrated, IndicesSpinAdapted
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.Tensor import Tensor, Cumulant, HoleDensity, Kronecker, ClusterAmplitude, HamiltonianTensor
from dsrg_generator.SQOperator import SecondQuantizedOperator

KIND = {'antisymmetric': IndicesAntisymmetric, 'asymm': IndicesAntisymmetric, 'spin-orbital': IndicesSpinOrbital,
        'so': IndicesSpinOrbital, 'spin-integrated': IndicesSpinIntegrated, 'si': IndicesSpinIntegrated,
        'spin-adapted': IndicesSpinAdapted, 'sa': IndicesSpinAdapted}

# elementary spaces contained in each label, spin removed
ELEM = {'g': {'c', 'a', 'v'}, 'p': {'a', 'v'}, 'h': {'c', 'a'}, 'c': {'c'}, 'a': {'a'}, 'v': {'v'},
        'G': {'c', 'a', 'v'}, 'P': {'a', 'v'}, 'H': {'c', 'a'}, 'C': {'c'}, 'A': {'a'}, 'V': {'v'}}
BETA = ('G', 'P', 'H', 'V', 'C', 'A')


def as_indices(x, indices_type):
    if isinstance(x, Indices):
        return x
    if indices_type not in KIND:
        raise KeyError
    return KIND[indices_type](x)


def both(upper, lower, indices_type):
    u = as_indices(upper, indices_type)
    l = as_indices(lower, indices_type)
    if type(upper) != type(lower):
        raise TypeError
    return u, l


def new_IndicesPair(cls, upper_indices, lower_indices, indices_type='so'):
    u, l = both(upper_indices, lower_indices, indices_type)
    return View(cls, upper_indices=u, lower_indices=l)


def new_SecondQuantizedOperator(cls, cre_ops, ann_ops, indices_type='so'):
    u, l = both(cre_ops, ann_ops, indices_type)
    return View(cls, upper_indices=u, lower_indices=l)


def tensor(cls, upper, lower, indices_type, name, priority):
    if not isinstance(name, str):
        raise TypeError
    if not isinstance(priority, int):
        raise TypeError
    u, l = both(upper, lower, indices_type)
    return View(cls, upper_indices=u, lower_indices=l, name=name, priority=priority)


def n_beta(l):
    return sum([1 if i.space in BETA else 0 for i in l.indices])


def conserving(t):
    if len(t.upper_indices.indices) != len(t.lower_indices.indices):
        raise ValueError
    if n_beta(t.upper_indices) != n_beta(t.lower_indices):
        raise ValueError


def one_body(t):
    if len(t.upper_indices.indices) != 1 or len(t.lower_indices.indices) != 1:
        raise ValueError


def not_mixed(l):
    if any(i.space in ('c', 'h', 'C', 'H') for i in l.indices) and any(i.space in ('v', 'p', 'V', 'P') for i in l.indices):
        raise ValueError


def new_Tensor(cls, upper_indices, lower_indices, indices_type='so', name='Tensor', priority=0):
    return tensor(cls, upper_indices, lower_indices, indices_type, name, priority)


def new_Cumulant(cls, upper_indices, lower_indices, indices_type='so', name='L', priority=2):
    t = tensor(cls, upper_indices, lower_indices, indices_type, name, priority)
    conserving(t)
    return t


def new_HoleDensity(cls, upper_indices, lower_indices, indices_type='so', name='C', priority=2):
    t = tensor(cls, upper_indices, lower_indices, indices_type, name, priority)
    one_body(t)
    conserving(t)
    return t


def new_Kronecker(cls, upper_indices, lower_indices, indices_type='so', name='K', priority=-1):
    t = tensor(cls, upper_indices, lower_indices, indices_type, name, priority)
    one_body(t)
    conserving(t)
    return t


def new_ClusterAmplitude(cls, upper_indices, lower_indices, indices_type='so', name='T', priority=1):
    t = tensor(cls, upper_indices, lower_indices, indices_type, name, priority)
    conserving(t)
    not_mixed(t.upper_indices)
    not_mixed(t.lower_indices)
    return t


def new_HamiltonianTensor(cls, upper_indices, lower_indices, indices_type='so', name='H', priority=0):
    t = tensor(cls, upper_indices, lower_indices, indices_type, name, priority)
    conserving(t)
    return t


def comparable(a, b, base):
    if not isinstance(b, base):
        raise TypeError
    if a.upper_indices.__class__ is not b.upper_indices.__class__:
        raise TypeError


def pkey(x):
    return (x.upper_indices, x.lower_indices)


def base_of(x):
    return SecondQuantizedOperator if isinstance(x, SecondQuantizedOperator) else IndicesPair


class spec_IndicesPair:
    @property
    def n_upper(self):
        return len(self.upper_indices.indices)

    @property
    def n_lower(self):
        return len(self.lower_indices.indices)

    @property
    def size(self):
        return len(self.upper_indices.indices) + len(self.lower_indices.indices)

    @property
    def n_body(self):
        if len(self.upper_indices.indices) != len(self.lower_indices.indices):
            raise ValueError
        return len(self.lower_indices.indices)

    @property
    def indices_set(self):
        return set(self.upper_indices.indices + self.lower_indices.indices)

    def indices(self, upper_first=True):
        if upper_first:
            return self.upper_indices.indices + self.lower_indices.indices
        return self.lower_indices.indices + self.upper_indices.indices

    @property
    def indices_type(self):
        return self.upper_indices.__class__

    def is_empty(self):
        return len(self.upper_indices.indices) == 0 and len(self.lower_indices.indices) == 0

    def clone(self, hc=False):
        if hc:
            return View(self.__class__, upper_indices=self.lower_indices, lower_indices=self.upper_indices)
        return View(self.__class__, upper_indices=self.upper_indices, lower_indices=self.lower_indices)

    def __eq__(self, other):
        comparable(self, other, base_of(self))
        return pkey(self) == pkey(other)

    def __ne__(self, other):
        comparable(self, other, base_of(self))
        return not pkey(self) == pkey(other)

    def __lt__(self, other):
        comparable(self, other, base_of(self))
        return pkey(self) < pkey(other)

    def __le__(self, other):
        comparable(self, other, base_of(self))
        return pkey(self) <= pkey(other)

    def __gt__(self, other):
        comparable(self, other, base_of(self))
        return pkey(self) > pkey(other)

    def __ge__(self, other):
        comparable(self, other, base_of(self))
        return pkey(self) >= pkey(other)

    def latex(self):
        return f"^{self.upper_indices.latex()}_{self.lower_indices.latex()}"

    def ambit(self, upper_first=True):
        if len(self.upper_indices.indices) == 0 and len(self.lower_indices.indices) == 0:
            return ""
        if upper_first:
            return f'["{self.upper_indices.ambit()},{self.lower_indices.ambit()}"]'
        return f'["{self.lower_indices.ambit()},{self.upper_indices.ambit()}"]'

    def diagonal_indices(self):
        return set([i for i in self.upper_indices.indices if i in self.lower_indices.indices])

    def is_spin_conserving(self):
        if len(self.upper_indices.indices) != len(self.lower_indices.indices):
            raise ValueError
        return n_beta(self.upper_indices) == n_beta(self.lower_indices)

    def canonicalize_indices(self):
        u, su = self.upper_indices.canonicalize()
        l, sl = self.lower_indices.canonicalize()
        return u, l, su * sl

    def canonicalize(self):
        u, su = self.upper_indices.canonicalize()
        l, sl = self.lower_indices.canonicalize()
        return View(IndicesPair, upper_indices=u, lower_indices=l), su * sl


def tkey(t):
    return (t.priority, t.name, len(t.upper_indices.indices) + len(t.lower_indices.indices), t.upper_indices, t.lower_indices)


class spec_Tensor:
    def clone(self):
        return View(self.__class__, upper_indices=self.upper_indices, lower_indices=self.lower_indices, name=self.name,
                    priority=self.priority)

    def from_indices(self, upper_indices, lower_indices, indices_type='so'):
        return self.__class__(upper_indices, lower_indices, indices_type, self.name, self.priority)

    def __eq__(self, other):
        comparable(self, other, Tensor)
        return tkey(self) == tkey(other)

    def __ne__(self, other):
        comparable(self, other, Tensor)
        return not tkey(self) == tkey(other)

    def __lt__(self, other):
        comparable(self, other, Tensor)
        return tkey(self) < tkey(other)

    def __le__(self, other):
        comparable(self, other, Tensor)
        return tkey(self) <= tkey(other)

    def __gt__(self, other):
        comparable(self, other, Tensor)
        return tkey(self) > tkey(other)

    def __ge__(self, other):
        comparable(self, other, Tensor)
        return tkey(self) >= tkey(other)

    def latex(self, dollar=False):
        t = f"{self.name}^{self.upper_indices.latex()}_{self.lower_indices.latex()}"
        return f"$ {t} $" if dollar else t

    def ambit(self, upper_first=True):
        return tensor_text(self, upper_first)

    def any_overlapped_indices(self, other):
        comparable(self, other, Tensor)
        return any(i in other.upper_indices.indices for i in self.upper_indices.indices) or \
            any(i in other.lower_indices.indices for i in self.lower_indices.indices)

    def canonicalize(self):
        u, su = self.upper_indices.canonicalize()
        l, sl = self.lower_indices.canonicalize()
        return View(self.__class__, upper_indices=u, lower_indices=l, name=self.name, priority=self.priority), su * sl


def block_text(t, upper_first):
    if len(t.upper_indices.indices) == 0 and len(t.lower_indices.indices) == 0:
        return ""
    if upper_first:
        return f'["{t.upper_indices.ambit()},{t.lower_indices.ambit()}"]'
    return f'["{t.lower_indices.ambit()},{t.upper_indices.ambit()}"]'


def tensor_text(t, upper_first):
    nu, nl = len(t.upper_indices.indices), len(t.lower_indices.indices)
    body = block_text(t, upper_first)
    if nu == nl:
        return f"{t.name}{nu}{body}"
    return f"{t.name}_{nu}_{nl}{body}"


class spec_ClusterAmplitude:
    def ambit(self, upper_first=True):
        deexcitation = any(i.space in ('v', 'p', 'g', 'V', 'P', 'G') for i in self.upper_indices.indices) or \
            any(i.space in ('c', 'h', 'g', 'C', 'H', 'G') for i in self.lower_indices.indices)
        return tensor_text(self, not deexcitation)

    def is_all_active(self):
        return all(i.space in ('a', 'A') for i in self.upper_indices.indices) and \
            all(i.space in ('a', 'A') for i in self.lower_indices.indices)


def lower_label(overlap, beta, vanishing):
    """label of the set of elementary spaces `overlap` without `vanishing`"""
    c = 'c' in overlap and vanishing != 'c'
    a = 'a' in overlap
    v = 'v' in overlap and vanishing != 'v'
    if c and a and v:
        return 'G' if beta else 'g'
    if c and a:
        return 'H' if beta else 'h'
    if a and v:
        return 'P' if beta else 'p'
    if c:
        return 'C' if beta else 'c'
    if a:
        return 'A' if beta else 'a'
    if v:
        return 'V' if beta else 'v'
    return ''


def restricted(t, vanishing):
    u, l = t.upper_indices.indices[0], t.lower_indices.indices[0]
    return lower_label(ELEM[u.space] & ELEM[l.space], u.space in BETA, vanishing)


class spec_Cumulant:
    def downgrade_indices(self):
        if len(self.upper_indices.indices) != 1:
            raise NotImplementedError
        return restricted(self, 'v')


class spec_HoleDensity:
    def downgrade_indices(self):
        return restricted(self, 'c')

    def expand(self):
        u, l = self.upper_indices, self.lower_indices
        k = View(Kronecker, upper_indices=u, lower_indices=l, name='K', priority=-1)
        if u.indices[0].space in ('v', 'V') or l.indices[0].space in ('v', 'V'):
            return [k]
        return [k, View(Cumulant, upper_indices=u, lower_indices=l, name='L', priority=2)]


class spec_Kronecker:
    def downgrade_indices(self):
        return restricted(self, '')


class spec_SecondQuantizedOperator:
    @property
    def cre_ops(self):
        return self.upper_indices

    @property
    def ann_ops(self):
        return self.lower_indices

    @property
    def n_cre(self):
        return len(self.upper_indices.indices)

    @property
    def n_ann(self):
        return len(self.lower_indices.indices)

    @property
    def n_ops(self):
        return len(self.upper_indices.indices) + len(self.lower_indices.indices)

    def latex(self, dollar=False):
        t = f"a^{self.upper_indices.latex()}_{self.lower_indices.latex()}"
        return f"$ {t} $" if dollar else t

    def ambit(self, cre_first=False):
        return block_text(self, cre_first)

    def is_empty(self):
        return len(self.upper_indices.indices) == 0 and len(self.lower_indices.indices) == 0

    def is_possible_excitation(self):
        if any(i.space in ('c', 'C') for i in self.upper_indices.indices):
            return False
        if any(i.space in ('v', 'V') for i in self.lower_indices.indices):
            return False
        everything = self.upper_indices.indices + self.lower_indices.indices
        return len(everything) == 0 or any(i.space not in ('a', 'A') for i in everything)

    def is_particle_conserving(self):
        return len(self.upper_indices.indices) == len(self.lower_indices.indices)

    def canonicalize(self):
        u, su = self.upper_indices.canonicalize()
        l, sl = self.lower_indices.canonicalize()
        return View(SecondQuantizedOperator, upper_indices=u, lower_indices=l), su * sl

    def void(self):
        e = View(self.upper_indices.__class__, indices=[])
        return View(SecondQuantizedOperator, upper_indices=e, lower_indices=e)

    def exist_permute_format(self, p_cre, p_ann):
        return self.upper_indices.exist_permute_format(p_cre) or self.lower_indices.exist_permute_format(p_ann)

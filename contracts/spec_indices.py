"""Contract of index lists: a list is its class and the sequence `indices` of distinct labels."""
import collections
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices, IndicesSpinOrbital, IndicesSpinIntegrated

LETTERS = ('g', 'p', 'h', 'v', 'c', 'a', 'G', 'P', 'H', 'V', 'C', 'A')
RANK = {'g': 0, 'p': 1, 'h': 2, 'v': 3, 'c': 4, 'a': 5, 'G': 6, 'P': 7, 'H': 8, 'V': 9, 'C': 10, 'A': 11}


def as_index(i):
    if isinstance(i, Index):
        return i
    if not isinstance(i, str):
        raise ValueError
    if i[:1] not in RANK:
        raise ValueError
    if not i[1:].isdigit():
        raise ValueError
    return View(Index, space=i[:1], number=int(i[1:]))


def upper(i):
    return RANK[i.space] >= 6


def new_Indices(cls, list_of_indices):
    if isinstance(list_of_indices, str):
        if list_of_indices == "":
            entries = []
        else:
            entries = [t.strip() for t in list_of_indices.split(",")]
    elif isinstance(list_of_indices, (list, tuple)):
        entries = list_of_indices
    else:
        raise TypeError
    seq = [as_index(i) for i in entries]
    if not distinct(seq):
        raise ValueError
    if cls is IndicesSpinOrbital:
        if any(upper(i) for i in seq):
            raise ValueError
    return View(cls, indices=seq)


def same_kind(a, b):
    if a.__class__ is not b.__class__:
        raise TypeError


def order_key(x):
    return (len(x.indices), x.indices)


class spec_Indices:
    @property
    def size(self):
        return len(self.indices)

    @property
    def indices_set(self):
        return set(self.indices)

    def __repr__(self):
        return ", ".join([f"{i.space}{i.number}" for i in self.indices])

    def __eq__(self, other):
        same_kind(self, other)
        return order_key(self) == order_key(other)

    def __ne__(self, other):
        same_kind(self, other)
        return not order_key(self) == order_key(other)

    def __lt__(self, other):
        same_kind(self, other)
        return order_key(self) < order_key(other)

    def __le__(self, other):
        same_kind(self, other)
        return order_key(self) <= order_key(other)

    def __gt__(self, other):
        same_kind(self, other)
        return order_key(self) > order_key(other)

    def __ge__(self, other):
        same_kind(self, other)
        return order_key(self) >= order_key(other)

    def __iter__(self):
        return iter(self.indices)

    def __getitem__(self, key):
        return self.indices[key]

    def __len__(self):
        return len(self.indices)

    def __contains__(self, value):
        return value in self.indices

    def __add__(self, other):
        if not isinstance(other, Indices):
            raise TypeError
        seq = self.indices + other.indices
        if not distinct(seq):
            raise ValueError
        if self.__class__ is IndicesSpinOrbital:
            if any(upper(i) for i in other.indices):
                raise ValueError
        return View(self.__class__, indices=seq)

    def clone(self):
        return View(self.__class__, indices=self.indices)

    def is_permutation(self, other):
        if not isinstance(other, Indices):
            raise TypeError
        return all(i in other.indices for i in self.indices) and all(i in self.indices for i in other.indices)

    def latex(self, dollar=False):
        t = "{ " + " ".join([f"{i.space}_{{{i.number}}}" for i in self.indices]) + " }"
        return "$" + t + "$" if dollar else t

    def ambit(self):
        return ",".join([f"{i.space}{i.number}" for i in self.indices])

    def count_index_space(self, list_of_space):
        if not all(s in LETTERS for s in list_of_space):
            raise ValueError
        return sum([sum([1 if i.space == s else 0 for i in self.indices]) for s in list_of_space])

    def canonicalize(self):
        return View(self.__class__, indices=self.indices), 1

    def any_overlap(self, other):
        same_kind(self, other)
        return any(i in other.indices for i in self.indices)

    def exist_permute_format(self, part):
        return False

    def n_beta(self):
        return sum([1 if upper(i) else 0 for i in self.indices])

    @property
    def spin_count(self):
        raise TypeError

    @property
    def spin_pure(self):
        raise TypeError

    @property
    def alpha_indices(self):
        raise TypeError

    @property
    def beta_indices(self):
        raise TypeError

    def generate_spin_cases(self, n_beta=None):
        raise TypeError


def spec_sort_and_count_inversions(array):
    seq = [i for i in array]
    return ascending(seq), inversions(seq)


class spec_IndicesAntisymmetric:
    def canonicalize(self):
        return View(self.__class__, indices=ascending(self.indices)), (-1) ** inversions(self.indices)


class spec_IndicesSpinIntegrated:
    @property
    def alpha_indices(self):
        return [i for i in self.indices if not upper(i)]

    @property
    def beta_indices(self):
        return [i for i in self.indices if upper(i)]

    @property
    def spin_count(self):
        return [sum([0 if upper(i) else 1 for i in self.indices]), sum([1 if upper(i) else 0 for i in self.indices])]

    @property
    def spin_pure(self):
        return not any(upper(i) for i in self.indices) or all(upper(i) for i in self.indices)

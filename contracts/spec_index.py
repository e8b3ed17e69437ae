"""Contract of Index: an index is a pair (space, number)."""
from dsrg_generator.Index import Index

LETTERS = ('g', 'p', 'h', 'v', 'c', 'a', 'G', 'P', 'H', 'V', 'C', 'A')
RANK = {'g': 0, 'p': 1, 'h': 2, 'v': 3, 'c': 4, 'a': 5, 'G': 6, 'P': 7, 'H': 8, 'V': 9, 'C': 10, 'A': 11}
BETA = {'g': 'G', 'p': 'P', 'h': 'H', 'v': 'V', 'c': 'C', 'a': 'A', 'G': 'G', 'P': 'P', 'H': 'H', 'V': 'V', 'C': 'C', 'A': 'A'}
ALPHA = {'g': 'g', 'p': 'p', 'h': 'h', 'v': 'v', 'c': 'c', 'a': 'a', 'G': 'g', 'P': 'p', 'H': 'h', 'V': 'v', 'C': 'c', 'A': 'a'}


def new_Index(cls, name):
    if not isinstance(name, str):
        raise TypeError
    if name[:1] not in RANK:
        raise ValueError
    if not name[1:].isdigit():
        raise ValueError
    return View(cls, space=name[:1], number=int(name[1:]))


def key(i):
    return RANK[i.space], i.number


class spec_Index:
    @property
    def name(self):
        return f"{self.space}{self.number}"

    def __repr__(self):
        return f"{self.space}{self.number}"

    def __eq__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return (self.space, self.number) == (other.space, other.number)

    def __ne__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return not (self.space, self.number) == (other.space, other.number)

    def __lt__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return key(self) < key(other)

    def __le__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return key(self) <= key(other)

    def __gt__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return key(other) < key(self)

    def __ge__(self, other):
        if not isinstance(other, Index):
            raise TypeError
        return key(other) <= key(self)

    def latex(self, dollar=False):
        t = f"{self.space}_{{{self.number}}}"
        return f"${t}$" if dollar else t

    def is_beta(self):
        return RANK[self.space] >= 6

    def to_beta(self):
        return View(Index, space=BETA[self.space], number=self.number)

    def to_alpha(self):
        return View(Index, space=ALPHA[self.space], number=self.number)

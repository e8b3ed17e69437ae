"""Obligations of the helpers (C18, C20)."""
from verify import *


def obligations():
    O = []

    def add(name, qual, sc, props, **kw):
        O.append(Obligation(name, props, qual, sc, **kw))
    for b in (False, True):
        add(f'integer_separation[{b}]', 'integer_separation', lambda v, b=b: [v.int('n', 1), b], ['C18'], sizes=())
    add('integer_separation[default]', 'integer_separation', lambda v: [v.int('n', 1)], ['C18'], sizes=())
    return O

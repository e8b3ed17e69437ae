"""Contracts of the helpers."""


def spec_integer_separation(integer, include_zero=False):
    if include_zero:
        return [(i, integer - i) for i in range(integer + 1)]
    return [(i, integer - i) for i in range(1, integer)]


def spec_calculate(func, args):
    return func(*args)


def spec_calculate_star(args):
    return args[0](*args[1])

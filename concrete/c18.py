import harness
from harness import check, expect, returns, Skip, clause
import oracle as O
from dsrg_generator.helper.integer_partition import integer_partition, integer_separation


def gen(rng, tier):
    for n in range(1, 26 if tier == 'quick' else 45):
        yield dict(n=n)


@clause('C18', 'partitions', gen, ['integer_partition'])
def _(d):
    n = d['n']
    want = list(O.partitions(n))
    got = list(integer_partition(n))
    check([list(x) for x in got] == want, 'partitions', got[:6], want[:6])
    # lists handed out are not changed by later steps
    it = integer_partition(n)
    seen = []
    for x in it:
        seen.append((x, list(x)))
    check(all(list(x) == y for x, y in seen), 'a list was changed after it was handed out')
    # nor does changing a handed out list disturb the enumeration
    out = []
    for x in integer_partition(n):
        out.append(list(x))
        if isinstance(x, list):
            x[:] = [0] * len(x)
    check(out == want, 'the enumeration depends on the lists handed out')
    # two interleaved enumerations
    a, b = integer_partition(n), integer_partition(n)
    z = [(list(x), list(y)) for x, y in zip(a, b)]
    check(z == [(x, x) for x in want], 'interleaved enumerations')


def gen_sep(rng, tier):
    for n in range(1, 60 if tier == 'quick' else 400):
        for z in (None, True, False):
            yield dict(n=n, z=z)


@clause('C18', 'separations', gen_sep, ['integer_separation'])
def _(d):
    n, z = d['n'], d['z']
    got = list(integer_separation(n) if z is None else integer_separation(n, z))
    import inspect
    if z is None:
        z = inspect.signature(integer_separation).parameters
        z = list(z.values())[1].default
        check(z is False, 'default mode', z)
    want = [(i, n - i) for i in (range(0, n + 1) if z else range(1, n))]
    check([tuple(x) for x in got] == want, 'separations', got[:6], want[:6])

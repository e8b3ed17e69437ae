"""Obligations of Index (C01)."""
from verify import *


def label(v):
    """an accepted label: a space letter and the decimal digits of a number"""
    return SStr((v.letter('L'), Dec(v.int('N', 0).e)))


def two(v):
    return [v.idx('x'), v.idx('y')]


def real_two(v):
    c = v.cls('Index')
    mk = lambda n: v.construct(c, [SStr((v.letter(n + 'L'), Dec(v.int(n + 'N', 0).e)))])
    return [mk('x'), mk('y')]


def obligations():
    O = []
    P = ['C01']

    def add(name, qual, sc, **kw):
        O.append(Obligation(name, kw.pop('props', P), qual, sc, sizes=(), **kw))
    add('Index.new[label]', 'Index.<new>', lambda v: [v.cls('Index'), label(v)])
    add('Index.new[not text]', 'Index.<new>', lambda v: [v.cls('Index'), Foreign('object')])
    add('Index.new[number]', 'Index.<new>', lambda v: [v.cls('Index'), v.int('n')])
    add('Index.new[any text]', 'Index.<new>', lambda v: [v.cls('Index'), v.text('s')])
    for m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        for nm, sc in (('', real_two),):
            add(f'Index.__{m}__{nm}', f'Index.__{m}__', sc)
        add(f'Index.__{m}__[not an index]', f'Index.__{m}__', lambda v: [real_two(v)[0], Foreign('object')])
        add(f'Index.__{m}__[text]', f'Index.__{m}__', lambda v: [real_two(v)[0], 'g0'])
    for m in ('__repr__', 'name', 'is_beta', 'to_beta', 'to_alpha', 'latex'):
        add(f'Index.{m}', f'Index.{m}', lambda v: real_two(v)[:1])
    add('Index.latex[dollar]', 'Index.latex', lambda v: [real_two(v)[0], True])

    def hashes(v, x, y):
        e = v.e
        same = e.truth(e.call(e.getattr(x, '__eq__'), [y]))
        e.assume(e.lib.bexpr(same))
        yield 'equal indices have equal hashes', v.equiv(e.lib.b_hash(x), e.lib.b_hash(y))
    add('Index.hash', 'Index.__hash__', real_two, run=hashes)

    def laws(v, x, y):
        e = v.e
        z = v.idx('z')
        lt = lambda a, b: e.lib.bexpr(e.truth(e.lib.compare('Lt', a, b)))
        eq = lambda a, b: e.lib.bexpr(e.truth(e.lib.compare('Eq', a, b)))
        le = lambda a, b: e.lib.bexpr(e.truth(e.lib.compare('LtE', a, b)))
        yield 'exactly one of <, ==, > holds', z3.And(z3.Or(lt(x, y), eq(x, y), lt(y, x)), z3.Not(z3.And(lt(x, y), lt(y, x))),
                                                     z3.Not(z3.And(lt(x, y), eq(x, y))))
        yield 'transitive', z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z))
        yield '<= is < or ==', le(x, y) == z3.Or(lt(x, y), eq(x, y))
    add('Index.total order', 'Index.__lt__', two, run=laws)

    def rank_table(v):
        e = v.e
        d = e.modules['dsrg_generator.mo_space'].env.st['space_priority']
        vals = [d.st[0].get(c) for c in LET]
        yield 'twelve letters', len(d.st[0]) == 12 and not d.st[1]
        yield 'ascending in the documented order', all(vals[i] is not None and vals[i] < vals[i + 1] for i in range(11))
    add('space_priority', 'Index.__lt__', lambda v: [], run=rank_table)
    return O

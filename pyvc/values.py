"""Values of the symbolic interpreter.

Concrete: None, bool, int, str, tuple, slice (host values).  Symbolic: SInt, SBool, SReal (z3 terms), SLet (a one-letter
string that is one of the twelve orbital-space letters, coded 0..11), SStr (a string made of parts), Union (a value that
is one of several, by condition).  Mutable: PList, PDict, PSet, Obj, Env, each with one immutable state `st`.
A list is a tuple of segments: Items (given elements) or Fam(n, k, cases): for k = 0..n-1 the elements of the case
whose guard holds (guards are mutually exclusive)."""
import z3

LET = 'gphvcaGPHVCA'
CODE = {c: i for i, c in enumerate(LET)}

_Idx = z3.Datatype('Idx')
_Idx.declare('mk', ('sp', z3.IntSort()), ('num', z3.IntSort()))
Idx = _Idx.create()


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, typ, obj=None):
        self.typ = typ
        self.obj = obj

    def __str__(self):
        return f"raises {self.typ}"


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class SInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SReal:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SReal({self.e})"


class SLet:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SLet({self.e})"


class Dec:
    """decimal digits of an integer, as part of a string"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Dec({self.e})"


class Opq:
    """an opaque text, as part of a string: a term of the sort Text"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Opq({self.e})"


Text = z3.DeclareSort('Text')


class Join:
    """sep.join(list), as part of a string"""
    __slots__ = ('sep', 'segs')

    def __init__(self, sep, segs):
        self.sep = sep
        self.segs = segs

    def __repr__(self):
        return f"Join({self.sep!r}, {self.segs})"


class SStr:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"SStr{self.parts}"


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            elif isinstance(q, Dec) and z3.is_int_value(q.e):
                s = str(q.e.as_long())
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
                continue
            elif isinstance(q, SLet) and z3.is_int_value(q.e):
                s = LET[q.e.as_long()]
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
                continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], (str, SLet)):
        return out[0]
    return SStr(out)


def parts_of(s):
    return s.parts if isinstance(s, SStr) else ((s,) if s != '' else ())


def is_str(v):
    return isinstance(v, (str, SLet, SStr))


class Union:
    """alternatives [(cond, value)]: exactly one condition holds"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Foreign:
    """a value of a type unrelated to anything in the code: every operation on it raises TypeError"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Foreign({self.name})"


class Poison:
    def __init__(self, why):
        self.why = why


class Items:
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = tuple(vs)

    def __repr__(self):
        return f"Items{self.vs}"


class Fam:
    __slots__ = ('n', 'k', 'cases', 'tag')

    def __init__(self, n, k, cases, tag=None):
        self.n = n if z3.is_expr(n) else z3.IntVal(n)
        self.k = k
        self.cases = tuple((g, tuple(s)) for g, s in cases)
        self.tag = tag

    def simple(self):
        return len(self.cases) == 1 and z3.is_true(self.cases[0][0]) and len(self.cases[0][1]) == 1 and \
            isinstance(self.cases[0][1][0], Items) and len(self.cases[0][1][0].vs) == 1

    def __repr__(self):
        return f"Fam({self.n}, {self.k}, {self.cases})"


class Mut:
    def __init__(self, eng, st):
        self.birth = eng.tick()
        self.st = st


class PList(Mut):
    """st = tuple of segments"""

    def __repr__(self):
        return f"PList{self.st}"


class GenVal(PList):
    pass


class PDict(Mut):
    """st = (conc: dict host key -> value, ops: tuple, default factory or None)
    ops: ('set', key, value) ('incr', key, delta) ('app', key, segs) ('add', key, segs), ('fam', n, k, [(guard, ops)])"""

    def __repr__(self):
        return f"PDict{self.st}"


class DictRef:
    """d[key] of a dictionary with a default factory, not yet read"""

    def __init__(self, d, key):
        self.d = d
        self.key = key


class PSet(Mut):
    """st = ('segs', segments) or ('bits', twelve z3 booleans: a set of orbital-space letters)"""

    def __repr__(self):
        return f"PSet({self.st})"


class AObj:
    """an object known by its public view only (the abstract value its class contract gives it)"""
    __slots__ = ('cls', 'view')

    def __init__(self, cls, **view):
        self.cls = cls
        self.view = view

    def __repr__(self):
        return f"<{self.cls.name} view {self.view}>"


class Obj(Mut):
    def __init__(self, eng, cls, fields=None):
        Mut.__init__(self, eng, fields or {})
        self.cls = cls

    def __repr__(self):
        return f"<{self.cls.name} {self.st}>"


class Env(Mut):
    def __init__(self, eng, parent, module):
        Mut.__init__(self, eng, {})
        self.parent = parent
        self.module = module
        self.gen = None
        self.cls = None
        self.func = None


class ClassVal:
    def __init__(self, name, bases, module):
        self.name = name
        self.bases = bases
        self.module = module
        self.attrs = {}
        mro = [self]
        for b in bases:                       # single inheritance is all the code uses
            for c in b.mro:
                if c not in mro:
                    mro.append(c)
        self.mro = mro

    def find(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class FuncVal:
    def __init__(self, node, env, module, qual, defaults, kwdefaults, owner=None):
        self.node = node
        self.env = env
        self.module = module
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.func}>"


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Super:
    def __init__(self, obj, after):
        self.obj = obj
        self.after = after


class Builtin:
    def __init__(self, name, fn=None):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class BType:
    """a builtin type object"""

    def __init__(self, name):
        self.name = name
        self.mro = [self]

    def __repr__(self):
        return f"<type {self.name}>"


class ExcType(BType):
    pass


class ModVal:
    def __init__(self, name, attrs):
        self.name = name
        self.attrs = attrs


"""Python's builtin types and the standard-library functions the code uses, on symbolic values."""
import builtins as pybuiltins
import math
from fractions import Fraction

import z3

from values import *
import engine as EN
from engine import S, S2, I, TRUE, FALSE, has_quant, neg, consts

HOST = (bool, int, float, str, type(None), Fraction)


def rv(x):
    return z3.RealVal(str(Fraction(x)))


class Lib:
    def __init__(self, eng):
        self.e = eng
        self.types = {n: BType(n) for n in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset',
                                            'type', 'object', 'range', 'defaultdict', 'Counter', 'Fraction',
                                            'Sequence', 'Iterable', 'deque', 'complex')}
        self.bi = {}
        for n in ('len', 'isinstance', 'sorted', 'sum', 'any', 'all', 'map', 'zip', 'enumerate', 'iter', 'next', 'min',
                  'max', 'abs', 'hash', 'print', 'reversed', 'getattr', 'callable', 'filter', 'repr', 'hasattr'):
            self.bi[n] = Builtin(n, getattr(self, 'b_' + n))
        self.mods = {}
        self.extern = {}

    # ------------------------------------------------------------------ names
    def builtin(self, name):
        if name in self.bi:
            return self.bi[name]
        if name in self.types:
            return self.types[name]
        x = getattr(pybuiltins, name, None)
        if isinstance(x, type) and issubclass(x, BaseException):
            return self.types.setdefault(name, ExcType(name))
        if name in ('property', 'staticmethod', 'classmethod'):
            return Builtin(name)
        return None

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = ModVal(name, {})
        return self.mods[name]

    def modattr(self, m, name):
        q = m.name + '.' + name
        if q in ('collections.Sequence', 'collections.abc.Sequence', 'collections.Iterable', 'collections.abc.Iterable',
                 'collections.defaultdict', 'collections.Counter', 'fractions.Fraction', 'collections.deque',
                 'typing.Sequence', 'typing.Iterable'):
            return self.types[name]
        if q in ('collections.abc',):
            return self.module(q)
        f = getattr(self, 'm_' + q.replace('.', '_'), None)
        if f is not None:
            return Builtin(q, f)
        if q in self.extern:
            return Builtin(q, self.extern[q])

        def no(*a, **k):
            raise Unsupported('external ' + q)
        b = Builtin(q, no)
        b.q = q
        b.mro = [b]
        return b

    def exc_match(self, typ, h):
        if isinstance(h, tuple):
            return any(self.exc_match(typ, x) for x in h)
        a = getattr(pybuiltins, typ, None)
        b = getattr(pybuiltins, h.name, None)
        if a is None or b is None:
            return typ == h.name
        return issubclass(a, b)

    # ------------------------------------------------------------------ numbers
    def expr(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, (float, Fraction)):
            return rv(v)
        if isinstance(v, (SInt, SReal, SBool, SLet)):
            return v.e
        raise Unsupported(f'number expected, got {type(v).__name__}')

    def bexpr(self, v):
        return z3.BoolVal(v) if isinstance(v, bool) else v.e

    def num(self, v):
        """z3 arithmetic term"""
        e = self.expr(v)
        if e.sort() == z3.BoolSort():
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return e

    def mk(self, e):
        e = S2(e)
        if e.sort() == z3.BoolSort():
            return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)
        if z3.is_int_value(e):
            return e.as_long()
        if e.sort() == z3.IntSort():
            return SInt(e)
        return SReal(e)

    def isnum(self, v):
        return isinstance(v, (bool, int, float, Fraction, SInt, SReal, SBool))

    def isreal(self, v):
        return isinstance(v, (float, Fraction, SReal))

    def binop(self, op, a, b):
        e = self.e
        if isinstance(a, DictRef):
            a = self.deref(a)
        if isinstance(b, DictRef):
            b = self.deref(b)
        if isinstance(a, (Obj, AObj)):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'BitOr': '__or__'}.get(op)
            m, _ = a.cls.find(nm) if nm else (None, None)
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [a, b])
        if isinstance(b, Obj):
            nm = {'Mult': '__rmul__', 'Add': '__radd__'}.get(op)
            m, _ = b.cls.find(nm) if nm else (None, None)
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [b, a])
        if isinstance(a, Foreign) or isinstance(b, Foreign):
            raise PyRaise('TypeError')
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, (SInt, SReal, SBool)) and not isinstance(b, (SInt, SReal, SBool)):
                return self.host_op(op, a, b)
            if op == 'Pow':
                return self.power(a, b)
            x, y = self.num(a), self.num(b)
            if op in ('Add', 'Sub', 'Mult'):
                if x.sort() != y.sort():
                    x, y = (z3.ToReal(x) if x.sort() == z3.IntSort() else x), (z3.ToReal(y) if y.sort() == z3.IntSort() else y)
                return self.mk({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[op])
            if op == 'Div':
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
                if e.decide(S(y == 0)):
                    raise PyRaise('ZeroDivisionError')
                return SReal(S(x / y))
            if op in ('FloorDiv', 'Mod') and x.sort() == y.sort() == z3.IntSort():
                if z3.is_int_value(y) and y.as_long() > 0:
                    return self.mk(x / y if op == 'FloorDiv' else x % y)
                if e.decide(y > 0):
                    return self.mk(x / y if op == 'FloorDiv' else x % y)
            raise Unsupported(f'{op} on symbolic numbers')
        if is_str(a) and is_str(b) and op == 'Add':
            return mkstr([a, b])
        if is_str(a) and op == 'Mod':
            return mkstr([self.opaque()])
        if isinstance(a, str) and op == 'Mult' and isinstance(b, int):
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and op == 'Mult' and isinstance(b, int):
            return a * b
        if isinstance(a, PList) and isinstance(b, PList) and op == 'Add':
            return PList(e, self.segs(a) + self.segs(b))
        if isinstance(a, PList) and op == 'Mult':
            n = self.length(a)
            s = self.segs(a)
            if isinstance(b, int):
                return PList(e, s * max(0, b))
            if isinstance(n, int) and n == 1:
                c = S(z3.If(self.num(b) > 0, self.num(b), 0))
                v = self.at(s, z3.IntVal(0))
                return PList(e, (Fam(c, z3.Int('rep!k'), [(TRUE, (Items([v]),))]),))
            raise Unsupported('list repetition')
        if isinstance(b, PList) and op == 'Mult' and self.isnum(a):
            return self.binop(op, b, a)
        if isinstance(a, PSet) and isinstance(b, PSet):
            return self.set_op(op, a, b)
        if isinstance(a, PSet) or isinstance(b, PSet) or isinstance(a, PList) or isinstance(b, PList) or is_str(a) or is_str(b) or a is None or b is None:
            raise PyRaise('TypeError')
        raise Unsupported(f'{op} on {type(a).__name__}, {type(b).__name__}')

    def host_op(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return a / b
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
        except ZeroDivisionError:
            raise PyRaise('ZeroDivisionError')
        raise Unsupported(op)

    def power(self, a, b):
        e = self.e
        x, y = self.num(a), self.num(b)
        if isinstance(a, int) and a == -1 and y.sort() == z3.IntSort():
            return self.mk(z3.If(y % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        if isinstance(b, int) and 0 <= b <= 4:
            r = 1 if not self.isreal(a) else 1.0
            for _ in range(b):
                r = self.binop('Mult', r, a)
            return r
        raise Unsupported('power')

    def opaque(self):
        return Opq(self.e.fresh('text', Text))

    def iop(self, op, a, b):
        e = self.e
        if isinstance(a, DictRef):
            a = self.deref(a)
        if isinstance(a, PList) and op == 'Add' and not isinstance(a, GenVal):
            self.extend(a, b)
            return a
        if isinstance(a, PSet):
            if op == 'BitOr':
                self.set_update(a, b)
                return a
            e.write(a, self.set_op(op, a, b).st)
            return a
        return self.binop(op, a, b)

    # ------------------------------------------------------------------ segments
    def segs(self, v):
        e = self.e
        if isinstance(v, DictRef):
            v = self.deref(v)
        if isinstance(v, PList):
            return e.read(v)
        if isinstance(v, tuple):
            return (Items(v),) if v else ()
        if isinstance(v, PSet):
            return self.set_segs(e.read(v))
        if isinstance(v, PDict):
            return self.dict_keys(v)
        if isinstance(v, str):
            return (Items(v),) if v else ()
        if isinstance(v, (Obj, AObj)):
            m, _ = v.cls.find('__iter__')
            if m is not None:
                return self.segs(e.call(m, [v]))
            if v.cls.find('__getitem__')[0] is not None:
                raise Unsupported('iteration through __getitem__')
            raise PyRaise('TypeError')
        if v is None or self.isnum(v) or isinstance(v, Foreign):
            raise PyRaise('TypeError')
        if isinstance(v, SLet):
            return (Items([v]),)
        raise Unsupported(f'iteration over {type(v).__name__}')

    def set_segs(self, st):
        if st[0] == 'segs':
            return st[1]
        out = []
        for c, b in zip(LET, st[1]):
            if z3.is_true(b):
                out.append(Items([c]))
            elif not z3.is_false(b):
                out.append(Fam(z3.If(b, z3.IntVal(1), z3.IntVal(0)), z3.Int('bit!k'), [(TRUE, (Items([c]),))]))
        return tuple(out)

    def snapshot(self, v):
        """a yielded mutable container is handed out at its present contents"""
        if isinstance(v, PSet):
            return PSet(self.e, v.st)
        return v

    def seglen(self, segs):
        """z3 integer"""
        tot = z3.IntVal(0)
        for s in segs:
            if isinstance(s, Items):
                tot = tot + len(s.vs)
            else:
                tot = tot + self.famlen(s)
        return S2(tot)

    def famlen(self, f):
        ls = [self.seglen(x) for g, x in f.cases]
        if not ls:
            return z3.IntVal(0)
        if len(ls) == 1 and z3.is_true(f.cases[0][0]) and z3.is_int_value(ls[0]):
            return S(f.n * ls[0])
        if all(z3.is_int_value(x) and x.eq(ls[0]) for x in ls):
            q = neg(z3.And(z3.And(f.k >= 0, f.k < f.n), neg(z3.Or(*[g for g, _ in f.cases]))))
            if not has_quant(q) and not self.e.feasible(neg(q)):
                return S(f.n * ls[0])
        body = z3.IntVal(0)
        for (g, _), l in zip(f.cases, ls):
            body = body + z3.If(g, l, z3.IntVal(0))
        h = self.sum_handle(f.n, f.k, S2(body))
        self.e.assume(h >= 0)
        if all(z3.is_int_value(x) and x.as_long() <= 1 for x in ls):
            self.e.assume(h <= f.n)
        return h

    def sum_handle(self, n, k, body):
        e = self.e
        n = S2(n)
        if z3.is_int_value(body) and k is not None:
            return S(n * body)
        if z3.is_int_value(n) and n.as_long() <= 3:
            r = None
            for i in range(n.as_long()):
                t = z3.substitute(body, (k, z3.IntVal(i)))
                r = t if r is None else r + t
            return S2(r) if r is not None else (z3.IntVal(0) if body.sort() == z3.IntSort() else z3.RealVal(0))
        for t, (f, sp, num) in e.sorted_src.items():
            if any(c == t + '.sp' or c == t + '.num' for c in consts(body)):
                # a sum over a rearranged list is the sum over the list
                el = self.subst(f.cases[0][1][0].vs[0], f.k, k)
                b2 = z3.substitute(body, (sp(k), self.expr(e.getattr(el, 'space'))), (num(k), self.num(e.getattr(el, 'number'))))
                if n.eq(S2(f.n)) and not any(c.startswith(t + '.') for c in consts(b2)):
                    return self.sum_handle(n, k, b2)
        canon = z3.substitute(body, (k, z3.Int('K!0')))
        key = ('sum', n.get_id(), canon.get_id(), tuple(b.get_id() for b in e.binders))
        e.keep.append((n, body, canon, tuple(e.binders)))

        def make():
            h = e.fresh('sum', body.sort(), binders=True)
            if not e.binders:
                e.sums[str(h)] = (n, k, body)
            e.assume(z3.Implies(n <= 0, h == 0))
            if body.sort() == z3.IntSort() and self.indicator(body):
                kk = z3.Int('k!s')
                ins = z3.And(kk >= 0, kk < n)
                b = z3.substitute(body, (k, kk))
                e.assume(z3.And(h >= 0, z3.Implies(n >= 0, h <= n)))
                e.assume(z3.Implies(n >= 0, (h == n) == z3.ForAll([kk], z3.Implies(ins, b == 1))))
                e.assume((h == 0) == z3.ForAll([kk], z3.Implies(ins, b == 0)))
            return h
        return e.remember(key, make)

    def indicator(self, body):
        """is the value always 0 or 1?"""
        if has_quant(body):
            return False
        q = z3.Solver()
        q.set('timeout', 300)
        q.add(z3.Or(body < 0, body > 1))
        return q.check() == z3.unsat

    def length(self, v):
        """int or SInt"""
        e = self.e
        if isinstance(v, DictRef):
            v = self.deref(v)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, SLet):
            return 1
        if isinstance(v, PList):
            return self.mk(self.seglen(e.read(v)))
        if isinstance(v, PSet):
            return self.set_len(e.read(v))
        if isinstance(v, PDict):
            st = e.read(v)
            if not st[1]:
                return len(st[0])
            return self.set_len(('segs', self.dict_keys(v, False)))
        if isinstance(v, (Obj, AObj)):
            m, _ = v.cls.find('__len__')
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [v])
        if isinstance(v, SStr):
            n = 0
            for p in v.parts:
                if isinstance(p, str):
                    n += len(p)
                elif isinstance(p, SLet):
                    n += 1
                else:
                    h = e.fresh('textlen')
                    e.assume(h >= (1 if any(isinstance(x, (Dec, SLet, str)) for x in v.parts) else 0))
                    if isinstance(p, Join) and len(v.parts) == 1 and self.solid_join(p):
                        e.assume((h == 0) == (self.seglen(p.segs) == 0))
                    return SInt(h)
            return n
        if v is None or self.isnum(v) or isinstance(v, Foreign):
            raise PyRaise('TypeError')
        raise Unsupported(f'len of {type(v).__name__}')

    def at(self, segs, t):
        """element at position t (0 <= t < length is known)"""
        e = self.e
        off = z3.IntVal(0)
        ss = [s for s in segs if not (isinstance(s, Items) and not s.vs)]
        for i, s in enumerate(ss):
            last = i == len(ss) - 1
            if isinstance(s, Items):
                for j, v in enumerate(s.vs):
                    if (last and j == len(s.vs) - 1) or e.decide(S(t == off + j)):
                        return v
                off = S(off + len(s.vs))
            else:
                l = self.famlen(s)
                if last or e.decide(S(t < off + l)):
                    u = S(t - off)
                    if s.simple():
                        return self.subst(s.cases[0][1][0].vs[0], s.k, u)
                    if all(len(x) == 1 and isinstance(x[0], Items) and len(x[0].vs) == 1 for _, x in s.cases) and \
                            S(l).eq(S(s.n)):
                        r = e.case_at(s, u)
                        if not r:
                            raise Infeasible()
                        return r[0].vs[0]
                    raise Unsupported('position in a filtered list')
                off = S(off + l)
        raise Infeasible()

    def append(self, l, v):
        e = self.e
        if isinstance(l, DictRef):
            return self.dict_app(l, (Items([v]),))
        st = l.st
        if st and isinstance(st[-1], Items) and e.local(l):
            st = st[:-1] + (Items(st[-1].vs + (v,)),)
        else:
            st = st + (Items([v]),)
        e.write(l, st)

    def extend(self, l, v):
        s = self.segs(v)
        if isinstance(l, DictRef):
            return self.dict_app(l, s)
        for x in s:
            if isinstance(x, Items) and not x.vs:
                continue
            st = l.st
            if isinstance(x, Items) and st and isinstance(st[-1], Items) and self.e.local(l):
                self.e.write(l, st[:-1] + (Items(st[-1].vs + x.vs),))
            else:
                self.e.write(l, st + (x,))

    # ------------------------------------------------------------------ substitution and keys
    def has(self, e, k):
        return k.decl().name() in consts(e)

    def subst(self, v, k, t):
        if isinstance(v, HOST) or isinstance(v, (ClassVal, FuncVal, Bound, Builtin, BType, Foreign, ModVal)):
            return v
        if isinstance(v, (SInt, SReal)):
            return self.mk(z3.substitute(v.e, (k, t))) if self.has(v.e, k) else v
        if isinstance(v, SBool):
            return self.mk(z3.substitute(v.e, (k, t))) if self.has(v.e, k) else v
        if isinstance(v, SLet):
            return SLet(S2(z3.substitute(v.e, (k, t)))) if self.has(v.e, k) else v
        if isinstance(v, SStr):
            return mkstr([self.subst_part(p, k, t) for p in v.parts])
        if isinstance(v, tuple):
            return tuple(self.subst(x, k, t) for x in v)
        if isinstance(v, AObj):
            return AObj(v.cls, **{n: self.subst(x, k, t) for n, x in v.view.items()})
        if isinstance(v, (Items, Fam)):
            return self.subst_seg(v, k, t)
        if isinstance(v, PList):
            new = tuple(self.subst_seg(s, k, t) for s in v.st)
            if all(a is b for a, b in zip(new, v.st)):
                return v
            r = type(v)(self.e, new)
            return r
        if isinstance(v, PSet):
            if v.st[0] == 'bits':
                return PSet(self.e, ('bits', tuple(S2(z3.substitute(b, (k, t))) for b in v.st[1])))
            return PSet(self.e, ('segs', tuple(self.subst_seg(s, k, t) for s in v.st[1])))
        if isinstance(v, PDict):
            if not v.st[1]:
                return PDict(self.e, ({a: self.subst(b, k, t) for a, b in v.st[0].items()}, (), v.st[2]))
        if isinstance(v, Obj):
            return Obj(self.e, v.cls, {a: self.subst(b, k, t) for a, b in v.st.items()})
        if isinstance(v, Opq):
            return self.subst_part(v, k, t)
        raise Unsupported(f'substitution in {type(v).__name__}')

    def subst_part(self, p, k, t):
        if isinstance(p, str):
            return p
        if isinstance(p, SLet):
            return self.subst(p, k, t)
        if isinstance(p, (Dec, Opq)):
            return type(p)(S2(z3.substitute(p.e, (k, t))))
        if isinstance(p, Join):
            return Join(p.sep, tuple(self.subst_seg(s, k, t) for s in p.segs))
        return self.subst(p, k, t)

    def subst_seg(self, s, k, t):
        if isinstance(s, Items):
            vs = tuple(self.subst(v, k, t) for v in s.vs)
            return s if all(a is b for a, b in zip(vs, s.vs)) else Items(vs)
        return Fam(S2(z3.substitute(s.n, (k, t))), s.k,
                   [(S2(z3.substitute(g, (k, t))), tuple(self.subst_seg(x, k, t) for x in ss)) for g, ss in s.cases])

    def zid(self, e):
        self.e.keep.append(e)
        return e.get_id()

    def vkey(self, v, depth=0):
        """structural identity"""
        if isinstance(v, HOST):
            return ('h', type(v).__name__, v)
        if isinstance(v, (SInt, SReal, SBool, SLet, Dec, Opq)):
            return (type(v).__name__, self.zid(v.e))
        if isinstance(v, SStr):
            return ('str',) + tuple(self.vkey(p, depth) for p in v.parts)
        if isinstance(v, Join):
            return ('join', v.sep, self.skey(v.segs, depth))
        if isinstance(v, tuple):
            return ('tup',) + tuple(self.vkey(x, depth) for x in v)
        if isinstance(v, AObj):
            return ('ao', v.cls.name) + tuple((n, self.vkey(x, depth)) for n, x in sorted(v.view.items()))
        if isinstance(v, PList):
            return ('list', self.skey(v.st, depth))
        if isinstance(v, PSet):
            if v.st[0] == 'bits':
                return ('bits',) + tuple(self.zid(b) for b in v.st[1])
            return ('set', self.skey(v.st[1], depth))
        if isinstance(v, (ClassVal, BType)):
            return ('cls', v.name)
        return ('id', id(v))

    def skey(self, segs, depth=0):
        out = []
        run = []
        for s in segs:
            if isinstance(s, Items):
                run.extend(self.vkey(v, depth) for v in s.vs)
            else:
                if run:
                    out.append(('it',) + tuple(run))
                    run = []
                kk = z3.Int(f'K!{depth}')
                cs = []
                for g, ss in s.cases:
                    g2 = S2(z3.substitute(g, (s.k, kk)))
                    cs.append((self.zid(g2), self.skey(tuple(self.subst_seg(x, s.k, kk) for x in ss), depth + 1)))
                out.append(('fam', self.zid(S2(s.n)), tuple(cs)))
        if run:
            out.append(('it',) + tuple(run))
        return tuple(out)

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        e = self.e
        if isinstance(a, DictRef):
            a = self.deref(a)
        if isinstance(b, DictRef):
            b = self.deref(b)
        if op == 'Is' or op == 'IsNot':
            r = self.identical(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'In':
                return r
            return (not r) if isinstance(r, bool) else SBool(neg(r.e))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.ne(a, b)
        return self.order({'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op], a, b)

    def identical(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool,)) and isinstance(b, bool):
            return a == b
        if isinstance(a, (ClassVal, BType)) or isinstance(b, (ClassVal, BType)):
            return a is b
        if a is b:
            return True
        raise Unsupported('identity')

    def eq(self, a, b):
        e = self.e
        if isinstance(a, (Obj, AObj)):
            m, _ = a.cls.find('__eq__')
            if m is not None:
                return e.call(m, [a, b])
            return a is b
        if isinstance(b, (Obj, AObj)):
            m, _ = b.cls.find('__eq__')
            if m is not None:
                return e.call(m, [b, a])
            return a is b
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, (SInt, SReal, SBool)) and not isinstance(b, (SInt, SReal, SBool)):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.mk(self.expr(a) == self.expr(b))
            return self.mk(self.num(a) == self.num(b))
        if is_str(a) and is_str(b):
            return self.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.tuple_eq(a, b)
        if isinstance(a, PList) and isinstance(b, PList):
            return self.list_eq(self.segs(a), self.segs(b))
        if isinstance(a, PSet) and isinstance(b, PSet):
            return self.mk(self.set_eq(e.read(a), e.read(b)))
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.dict_eq(a, b)
        if isinstance(a, (ClassVal, BType, FuncVal, Builtin)) or isinstance(b, (ClassVal, BType, FuncVal, Builtin)):
            return a is b
        if isinstance(a, KeyText) and isinstance(b, KeyText):
            return a.same(e, b)
        return False

    def ne(self, a, b):
        e = self.e
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Obj, AObj)):
                m, _ = x.cls.find('__ne__')
                if m is not None:
                    return e.call(m, [x, y])
                break
        r = self.eq(a, b)
        t = e.truth(r)
        return (not t) if isinstance(t, bool) else SBool(neg(t.e))

    def tuple_eq(self, a, b):
        acc = []
        for x, y in zip(a, b):
            if x is y and not isinstance(x, (float, SReal)):
                continue
            r = self.e.truth(self.eq(x, y))
            if r is False:
                return False
            if r is not True:
                acc.append(r.e)
        return True if not acc else SBool(S2(z3.And(*acc)))

    def order(self, op, a, b):
        e = self.e
        if isinstance(a, (Obj, AObj)):
            m, _ = a.cls.find({'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op])
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [a, b])
        if isinstance(b, (Obj, AObj)):
            m, _ = b.cls.find({'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}[op])
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [b, a])
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, (SInt, SReal, SBool)) and not isinstance(b, (SInt, SReal, SBool)):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            x, y = self.num(a), self.num(b)
            return self.mk({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return self.str_order(op, a, b)
        if isinstance(a, PSet) and isinstance(b, PSet):
            x, y = e.read(a), e.read(b)
            if op == '<=':
                return self.mk(self.subset(x, y))
            if op == '>=':
                return self.mk(self.subset(y, x))
            if op == '<':
                return self.mk(z3.And(self.subset(x, y), neg(self.subset(y, x))))
            return self.mk(z3.And(self.subset(y, x), neg(self.subset(x, y))))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, [(Items([x]),) for x in a], [(Items([x]),) for x in b], a, b)
        if isinstance(a, PList) and isinstance(b, PList):
            return self.list_order(op, self.segs(a), self.segs(b))
        if isinstance(a, KeyText) and isinstance(b, KeyText):
            raise Unsupported('order of texts')
        raise PyRaise('TypeError')

    def lex(self, op, sa, sb, a, b):
        """tuples: Python finds the first position that differs, then compares there"""
        strict = {'<': '<', '<=': '<', '>': '>', '>=': '>'}[op]
        parts = []
        prefix = []
        for x, y in zip(a, b):
            q = self.e.truth(self.eq(x, y)) if x is not y else True
            if q is True:
                continue
            if q is False:
                r = self.e.truth(self.order(strict, x, y))
                parts.append((list(prefix), self.bexpr(r)))
                return self.mk(self.lexsum(parts))
            r = self.e.truth(self.order(strict, x, y))
            parts.append((prefix + [neg(q.e)], self.bexpr(r)))
            prefix = prefix + [q.e]
        tail = {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
        parts.append((list(prefix), z3.BoolVal(tail)))
        return self.mk(self.lexsum(parts))

    def lexsum(self, parts):
        return z3.Or(*[z3.And(*p, r) for p, r in parts])

    def fd(self, l1, l2):
        """first position where two lists differ (the shorter length if none)"""
        e = self.e
        k1, k2 = self.skey(l1), self.skey(l2)
        if k1 == k2:
            return self.seglen(l1)
        if repr(k2) < repr(k1):
            l1, l2, k1, k2 = l2, l1, k2, k1

        def make():
            d = e.fresh('fd')
            n1, n2 = self.seglen(l1), self.seglen(l2)
            mn = z3.If(n1 < n2, n1, n2)
            e.assume(z3.And(d >= 0, d <= mn))
            e.freshno += 1
            i = z3.Int(f'i!{e.freshno}')
            same = self.pointwise_eq(l1, l2, i, lambda i: z3.And(i >= 0, i < d))
            e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d), same)))
            at_d = self.pointwise_eq(l1, l2, d, lambda i: z3.And(d >= 0, d < mn))
            e.assume(z3.Implies(d < mn, neg(at_d)))
            return d
        return e.remember(('fd', k1, k2, tuple(self.zid(b) for b in e.binders)), make)

    def under(self, cond, thunk, binder=None):
        """thunk as a formula, evaluated where cond holds"""
        e = self.e
        nf = len(e.facts)
        e.qf.push()
        if binder is not None:
            e.binders.append(binder)
        try:
            e._add(cond)
            rs = e.explore(thunk)
        finally:
            if binder is not None:
                e.binders.pop()
            e.qf.pop()
            del e.facts[nf:]
        alts = []
        for r in rs:
            if r.kind != 'ok' or r.writes:
                raise Unsupported('a comparison has effects or may raise')
            t = e.truth(r.value)
            for f in r.facts:
                h = z3.Implies(z3.And(cond, *r.guards), f)
                e.assume(z3.ForAll([binder], h) if binder is not None else h)
            if t is False:
                continue
            alts.append(z3.And(*r.guards, self.bexpr(t)))
        return S2(z3.Or(*alts)) if alts else FALSE

    def pointwise_eq(self, l1, l2, i, cond):
        return self.under(cond(i), lambda: self.eq(self.at(l1, i), self.at(l2, i)), i if z3.is_const(i) and i.decl().name().startswith('i!') else None)

    def onlyitems(self, segs):
        return all(isinstance(s, Items) for s in segs)

    def flat(self, segs):
        return tuple(v for s in segs for v in s.vs)

    def list_eq(self, l1, l2):
        if self.onlyitems(l1) and self.onlyitems(l2):
            return self.eq(self.flat(l1), self.flat(l2))
        if self.skey(l1) == self.skey(l2):
            return True
        n1, n2 = self.seglen(l1), self.seglen(l2)
        if z3.is_false(S(n1 == n2)):
            return False
        d = self.fd(l1, l2)
        return self.mk(z3.And(n1 == n2, d == n1))

    def list_order(self, op, l1, l2):
        if self.onlyitems(l1) and self.onlyitems(l2):
            return self.order(op, self.flat(l1), self.flat(l2))
        n1, n2 = self.seglen(l1), self.seglen(l2)
        d = self.fd(l1, l2)
        strict = {'<': '<', '<=': '<', '>': '>', '>=': '>'}[op]
        inb = z3.And(d < n1, d < n2)
        diff = self.under(z3.And(inb, d >= 0), lambda: self.order(strict, self.at(l1, d), self.at(l2, d)))
        tail = {'<': n1 < n2, '<=': n1 <= n2, '>': n1 > n2, '>=': n1 >= n2}[op]
        return self.mk(z3.If(inb, diff, tail))

    # ------------------------------------------------------------------ strings
    def as_let(self, s):
        """code of a one-letter orbital label, or None"""
        if isinstance(s, SLet):
            return s.e
        if isinstance(s, str) and len(s) == 1 and s in CODE:
            return z3.IntVal(CODE[s])
        return None

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        x, y = self.as_let(a), self.as_let(b)
        if x is not None and y is not None:
            return self.mk(x == y)
        if isinstance(a, SLet) and isinstance(b, str) or isinstance(b, SLet) and isinstance(a, str):
            return False
        if self.vkey(a) == self.vkey(b):
            return True
        pa, pb = self.norm_label(parts_of(a)), self.norm_label(parts_of(b))
        if self.is_label(pa) and self.is_label(pb):
            return self.mk(z3.And(self.as_let(pa[0]) == self.as_let(pb[0]), pa[1].e == pb[1].e))
        if len(pa) == len(pb) and all(type(p) is type(q) for p, q in zip(pa, pb)):
            acc = []
            for p, q in zip(pa, pb):
                if isinstance(p, str):
                    if p != q:
                        if len(p) == len(q):
                            return False
                        raise Unsupported('text comparison')
                elif isinstance(p, (SLet, Opq)):
                    acc.append(p.e == q.e)
                elif isinstance(p, Dec) and len(pa) == 2 and isinstance(pa[0], (str, SLet)):
                    acc.append(p.e == q.e)
                elif isinstance(p, Dec) and len(pa) == 3 and isinstance(pa[0], str) and isinstance(pa[1], SLet):
                    acc.append(p.e == q.e)
                else:
                    raise Unsupported('text comparison')
            return self.mk(z3.And(*acc))
        la, lb = len(pa) == 1 and isinstance(pa[0], Opq), len(pb) == 1 and isinstance(pb[0], Opq)
        if (la and pb == ()) or (lb and pa == ()):
            o = (pa if la else pb)[0]
            return SBool(z3.Function('is_empty', Text, z3.BoolSort())(o.e))
        if la and len(pb) == 1 and isinstance(pb[0], str) or lb and len(pa) == 1 and isinstance(pa[0], str):
            o, s = (pa[0], pb[0]) if la else (pb[0], pa[0])
            return SBool(o.e == self.text(s))
        for p, q in ((pa, pb), (pb, pa)):
            if q == () and len(p) == 1 and isinstance(p[0], Join) and self.solid_join(p[0]):
                return self.mk(self.seglen(p[0].segs) == 0)
            if q == () and any(isinstance(t, (SLet, Dec, str)) for t in p):
                return False
        if len(pa) == len(pb) == 1 and isinstance(pa[0], Join) and isinstance(pb[0], Join) and pa[0].sep == pb[0].sep:
            # sufficient: the same texts are joined (used as an equality only when it holds)
            r = self.list_eq(pa[0].segs, pb[0].segs)
            if r is True or self.e.truth(r) is True:
                return True
        if isinstance(a, SLet) and not self.is_label(pb) and len(pb) > 1 or isinstance(b, SLet) and len(pa) > 1:
            return False
        raise Unsupported(f'text comparison {a} {b}')

    def solid_join(self, j):
        """every text joined is non-empty"""
        def solid(v):
            return (isinstance(v, str) and v != '') or isinstance(v, SLet) or \
                (isinstance(v, SStr) and any(isinstance(t, (SLet, Dec, str)) for t in v.parts))
        return all(isinstance(s, Items) and all(solid(v) for v in s.vs) or
                   isinstance(s, Fam) and all(isinstance(x, Items) and all(solid(v) for v in x.vs) for _, xs in s.cases for x in xs)
                   for s in j.segs)

    def text(self, s):
        c = z3.Const('text:' + s, Text)
        for t in self.e.memo.get('texts', ()):
            if t != s:
                self.e.assume(c != z3.Const('text:' + t, Text))
        self.e.memo.setdefault('texts', set()).add(s)
        return c

    def norm_label(self, parts):
        if len(parts) == 1 and isinstance(parts[0], str) and len(parts[0]) > 1 and parts[0][0] in CODE and parts[0][1:].isdigit():
            d = parts[0][1:]
            if str(int(d)) == d:
                return (parts[0][0], Dec(z3.IntVal(int(d))))
        return parts

    def is_label(self, parts):
        return len(parts) == 2 and self.as_let(parts[0]) is not None and isinstance(parts[1], Dec)

    def str_order(self, op, a, b):
        pa, pb = parts_of(a), parts_of(b)
        f = z3.Function('text_lt', Text, Text, z3.BoolSort())

        def term(s, p):
            if isinstance(s, str):
                return self.text(s)
            if len(p) == 1 and isinstance(p[0], Opq):
                return p[0].e
            raise Unsupported('order of texts')
        x, y = term(a, pa), term(b, pb)
        u = z3.Consts('u v w', Text)
        key = ('text_lt',)
        if key not in self.e.memo:
            self.e.memo[key] = True
        e = self.e
        lt, gt = f(x, y), f(y, x)
        e.assume(z3.And(z3.Implies(x == y, z3.And(z3.Not(lt), z3.Not(gt))), z3.Implies(x != y, lt != gt)))
        return self.mk({'<': lt, '<=': z3.Not(gt), '>': gt, '>=': z3.Not(lt)}[op])

    def tostr(self, v):
        e = self.e
        if isinstance(v, DictRef):
            v = self.deref(v)
        if is_str(v):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, SInt):
            return SStr([Dec(v.e)])
        if isinstance(v, float):
            return str(v)
        if isinstance(v, SReal):
            return SStr([Opq(z3.Function('str_real', z3.RealSort(), Text)(v.e))])
        if isinstance(v, (Obj, AObj)):
            for nm in ('__str__', '__repr__'):
                m, _ = v.cls.find(nm)
                if m is not None:
                    return e.call(m, [v])
        if isinstance(v, KeyText):
            return v
        return SStr([Opq(e.fresh('sometext', Text))])

    # ------------------------------------------------------------------ sets
    def letters(self, segs):
        """z3 booleans for the twelve letters, or None when the elements are something else"""
        bits = [FALSE] * 12
        any_ = False
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    c = self.as_let(v)
                    if c is None:
                        return None
                    any_ = True
                    bits = [z3.Or(b, c == i) for i, b in enumerate(bits)]
            else:
                for g, ss in s.cases:
                    sub = self.letters(ss)
                    if sub is None:
                        return None
                    any_ = True
                    ins = z3.And(s.k >= 0, s.k < s.n, g)
                    bits = [z3.Or(b, z3.Exists([s.k], z3.And(ins, x))) if not z3.is_false(S2(x)) else b for b, x in zip(bits, sub)]
        if not any_:
            return None
        return tuple(S2(b) for b in bits)

    def mkset(self, segs):
        b = self.letters(segs)
        if b is not None:
            return PSet(self.e, ('bits', b))
        return PSet(self.e, ('segs', tuple(segs)))

    def set_bits(self, st):
        if st[0] == 'bits':
            return st[1]
        if not st[1]:
            return (FALSE,) * 12
        return self.letters(st[1])

    def set_op(self, op, a, b):
        e = self.e
        x, y = e.read(a), e.read(b)
        p, q = self.set_bits(x), self.set_bits(y)
        if p is not None and q is not None and (x[0] == 'bits' or y[0] == 'bits'):
            f = {'BitAnd': lambda u, v: z3.And(u, v), 'BitOr': lambda u, v: z3.Or(u, v), 'Sub': lambda u, v: z3.And(u, z3.Not(v)),
                 'BitXor': lambda u, v: z3.Xor(u, v)}[op]
            return PSet(e, ('bits', tuple(S2(f(u, v)) for u, v in zip(p, q))))
        xs, ys = self.set_segs(x), self.set_segs(y)
        if op == 'BitOr':
            return PSet(e, ('segs', xs + ys))
        if op == 'BitAnd':
            return PSet(e, ('segs', self.filter_segs(xs, lambda v: self.contains_segs(v, ys))))
        if op == 'Sub':
            return PSet(e, ('segs', self.filter_segs(xs, lambda v: neg(self.contains_segs(v, ys)))))
        if op == 'BitXor':
            return PSet(e, ('segs', self.filter_segs(xs, lambda v: neg(self.contains_segs(v, ys))) +
                            self.filter_segs(ys, lambda v: neg(self.contains_segs(v, xs)))))
        raise PyRaise('TypeError')

    def filter_segs(self, segs, pred):
        e = self.e
        out = []
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    f = S2(pred(v))
                    if z3.is_true(f):
                        out.append(Items([v]))
                    elif not z3.is_false(f):
                        out.append(Fam(z3.If(f, z3.IntVal(1), z3.IntVal(0)), z3.Int('one!k'), [(TRUE, (Items([v]),))]))
            else:
                e.binders.append(s.k)
                try:
                    cases = []
                    for g, ss in s.cases:
                        if len(ss) == 1 and isinstance(ss[0], Items) and len(ss[0].vs) == 1:
                            f = S2(pred(ss[0].vs[0]))
                            cases.append((S2(z3.And(g, f)), ss))
                        else:
                            cases.append((g, self.filter_segs(ss, pred)))
                finally:
                    e.binders.pop()
                out.append(Fam(s.n, s.k, cases))
        return tuple(out)

    def contains_segs(self, x, segs):
        """formula: x occurs in the list"""
        e = self.e
        alts = []
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    alts.append(e.formula(lambda v=v: self.eq(v, x)))
            else:
                self.e.freshno += 1
                k2 = z3.Int(f'm!{self.e.freshno}')
                s2 = self.subst_binder(s, k2)
                for g, ss in s2.cases:
                    e.binders.append(k2)
                    nf = len(e.facts)
                    e.qf.push()
                    try:
                        e._add(z3.And(k2 >= 0, k2 < s2.n, g))
                        f = self.local_formula(lambda: self.contains_segs(x, ss), k2, z3.And(k2 >= 0, k2 < s2.n, g))
                    finally:
                        e.binders.pop()
                        e.qf.pop()
                    f = z3.And(k2 >= 0, k2 < s2.n, g, f)
                    if not has_quant(f):
                        f = S(f)
                    if z3.is_false(f):
                        continue
                    alts.append(self.one_point(f, k2))
        if not alts:
            return FALSE
        return S2(z3.Or(*alts))

    def local_formula(self, thunk, k, cond):
        """run thunk (giving a formula) with a binder; the facts it assumes are generalised over it"""
        e = self.e
        nf = len(e.facts)
        x = e.ctxs[-1] if e.ctxs else None
        nx = len(x.facts) if x else 0
        f = thunk()
        new = e.facts[nf:]
        del e.facts[nf:]
        if x:
            del x.facts[nx:]
        for h in new:
            q = z3.ForAll([k], z3.Implies(cond, h)) if k.decl().name() in consts(h) else z3.Implies(cond, h)
            if x:
                x.facts.append(q)
            e.facts.append(q)
        return f

    def one_point(self, f, k):
        """exists k. f, removed when k is fixed by f or the range is one position"""
        return z3.Exists([k], f)

    def subst_binder(self, s, k2):
        return Fam(s.n, k2, [(z3.substitute(g, (s.k, k2)), tuple(self.subst_seg(x, s.k, k2) for x in ss)) for g, ss in s.cases])

    def forall_segs(self, segs, pred):
        """formula: pred(v) for every element"""
        e = self.e
        acc = []
        for s in segs:
            if isinstance(s, Items):
                acc.extend(pred(v) for v in s.vs)
            else:
                e.freshno += 1
                k2 = z3.Int(f'q!{e.freshno}')
                s2 = self.subst_binder(s, k2)
                for g, ss in s2.cases:
                    cond = z3.And(k2 >= 0, k2 < s2.n, g)
                    e.binders.append(k2)
                    e.qf.push()
                    try:
                        e.qf.add(S(cond)) if not has_quant(cond) else None
                        f = self.local_formula(lambda: self.forall_segs(ss, pred), k2, cond)
                    finally:
                        e.binders.pop()
                        e.qf.pop()
                    if not z3.is_true(f):
                        acc.append(z3.ForAll([k2], z3.Implies(cond, f)))
        acc = [a for a in acc if not z3.is_true(a)]
        return z3.And(*acc) if len(acc) > 1 else (acc[0] if acc else TRUE)

    def subset(self, x, y):
        p, q = self.set_bits(x), self.set_bits(y)
        if p is not None and q is not None:
            return S2(z3.And(*[z3.Implies(u, v) for u, v in zip(p, q)]))
        ys = self.set_segs(y)
        return self.forall_segs(self.set_segs(x), lambda v: self.contains_segs(v, ys))

    def set_eq(self, x, y):
        p, q = self.set_bits(x), self.set_bits(y)
        if p is not None and q is not None:
            return S2(z3.And(*[u == v for u, v in zip(p, q)]))
        return z3.And(self.subset(x, y), self.subset(y, x))

    def set_len(self, st):
        e = self.e
        if st[0] == 'bits':
            return self.mk(z3.Sum([z3.If(b, z3.IntVal(1), z3.IntVal(0)) for b in st[1]]))
        segs = st[1]
        if self.onlyitems(segs):
            vs = self.flat(segs)
            if all(isinstance(v, HOST) or isinstance(v, tuple) for v in vs):
                try:
                    return len(set(vs))
                except TypeError:
                    pass
            if len(vs) <= 1:
                return len(vs)
            if len(vs) <= 4:
                tot = z3.IntVal(1)
                for i in range(1, len(vs)):
                    dup = z3.Or(*[e.formula(lambda i=i, j=j: self.eq(vs[i], vs[j])) for j in range(i)])
                    tot = tot + z3.If(dup, z3.IntVal(0), z3.IntVal(1))
                return self.mk(tot)
        d = self.distinct(segs)
        n = self.seglen(segs)
        if z3.is_true(d) or any(f.eq(d) for f in e.facts):
            return self.mk(n)

        def make():
            c = e.fresh('card')
            e.assume(z3.And(c >= 0, c <= n, z3.Implies(n > 0, c > 0)))
            e.assume(z3.Implies(c == n, d))
            e.assume(z3.Implies(d, c == n))
            return c
        return self.mk(e.remember(('card', self.skey(segs), tuple(self.zid(b) for b in e.binders)), make))

    def distinct(self, segs):
        """formula: no two elements are equal"""
        e = self.e
        acc = []
        done = []
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    f = self.contains_segs(v, tuple(done))
                    acc.append(neg(f))
                    done.append(Items([v]))
            else:
                if not s.simple():
                    raise Unsupported('distinctness of a filtered list')
                i, j = z3.Int(f'i!d{len(e.binders)}'), z3.Int(f'j!d{len(e.binders)}')
                a, b = self.subst(s.cases[0][1][0].vs[0], s.k, i), self.subst(s.cases[0][1][0].vs[0], s.k, j)
                cond = z3.And(i >= 0, i < j, j < s.n)
                f = self.under(cond, lambda: self.eq(a, b))
                acc.append(z3.ForAll([i, j], z3.Implies(cond, neg(f))))
                if done:
                    acc.append(self.forall_segs((s,), lambda v: neg(self.contains_segs(v, tuple(done)))))
                done.append(s)
        acc = [a for a in acc if not z3.is_true(a)]
        return z3.And(*acc) if len(acc) > 1 else (acc[0] if acc else TRUE)

    def set_update(self, s, v):
        e = self.e
        st = s.st
        segs = self.segs(v)
        if st[0] == 'bits':
            b = self.letters(segs) if segs else (FALSE,) * 12
            if b is None:
                raise Unsupported('mixed set')
            e.read(s)
            e.write(s, ('bits', tuple(S2(z3.Or(x, y)) for x, y in zip(st[1], b))))
            return
        for x in segs:
            e.write(s, ('segs', s.st[1] + (x,)))

    def contains(self, c, x):
        e = self.e
        if isinstance(c, DictRef):
            c = self.deref(c)
        if isinstance(c, PSet):
            st = e.read(c)
            if st[0] == 'bits' or (is_str(x) and self.set_bits(st) is not None):
                k = self.as_let(x)
                if k is None:
                    if isinstance(x, (str, SStr)):
                        return False
                    raise Unsupported('membership')
                b = self.set_bits(st)
                return self.mk(z3.Or(*[z3.And(k == i, bb) for i, bb in enumerate(b)]))
            return self.mk(self.contains_segs(x, st[1]))
        if isinstance(c, (PList, tuple)):
            return self.mk(self.contains_segs(x, self.segs(c)))
        if isinstance(c, PDict):
            return self.dict_has(c, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, SLet):
                return self.mk(z3.Or(*[x.e == CODE[ch] for ch in c if ch in CODE]))
        if isinstance(c, (Obj, AObj)):
            m, _ = c.cls.find('__contains__')
            if m is not None:
                return e.truth(e.call(m, [c, x]))
            return self.mk(self.contains_segs(x, self.segs(c)))
        raise Unsupported(f'membership in {type(c).__name__}')

    # ------------------------------------------------------------------ dictionaries
    def hostkey(self, v):
        if isinstance(v, HOST):
            return True
        if isinstance(v, tuple):
            return all(self.hostkey(x) for x in v)
        if isinstance(v, (ClassVal, BType)):
            return True
        return False

    def setitem(self, d, key, v):
        e = self.e
        if isinstance(d, PDict):
            st = d.st
            if self.hostkey(key) and not st[1] and e.local(d):
                c = dict(st[0])
                c[key] = v
                e.write(d, (c, st[1], st[2]))
            else:
                e.write(d, (st[0], st[1] + (('set', key, v),), st[2]))
            return
        if isinstance(d, PList):
            st = e.read(d)
            n = self.seglen(st)
            if isinstance(key, int) and self.onlyitems(st):
                vs = list(self.flat(st))
                if not -len(vs) <= key < len(vs):
                    raise PyRaise('IndexError')
                vs[key] = v
                e.write(d, (Items(vs),))
                return
            if isinstance(key, slice):
                raise Unsupported('slice assignment')
            return self.list_store(d, st, key, v)
        if isinstance(d, (Obj, AObj)):
            m, _ = d.cls.find('__setitem__')
            if m is not None:
                return e.call(m, [d, key, v])
            raise PyRaise('TypeError')
        raise Unsupported('item assignment')

    def list_store(self, d, st, key, v):
        raise Unsupported('assignment to a symbolic position')

    def getitem(self, o, key):
        e = self.e
        if isinstance(o, DictRef):
            o = self.deref(o)
        if isinstance(o, PDict):
            return self.dict_get(o, key)
        if isinstance(o, (Obj, AObj)):
            m, _ = o.cls.find('__getitem__')
            if m is None:
                raise PyRaise('TypeError')
            return e.call(m, [o, key])
        if is_str(o):
            return self.str_item(o, key)
        if isinstance(o, (tuple, PList)):
            if isinstance(key, slice):
                return self.slice(o, key)
            if isinstance(o, tuple) and isinstance(key, int):
                if not -len(o) <= key < len(o):
                    raise PyRaise('IndexError')
                return o[key]
            if not isinstance(key, (int, SInt)):
                raise PyRaise('TypeError')
            segs = self.segs(o)
            n = self.seglen(segs)
            t = I(key) if isinstance(key, int) else key.e
            if isinstance(key, int) and key < 0:
                t = S(n + key)
            if e.decide(S2(z3.Or(t < 0, t >= n))):
                if isinstance(key, SInt) and e.decide(S(z3.And(t < 0, t >= -n))):
                    t = S(n + t)
                else:
                    raise PyRaise('IndexError')
            return self.at(segs, S(t))
        raise Unsupported(f'item of {type(o).__name__}')

    def str_item(self, o, key):
        if isinstance(o, str) and isinstance(key, int):
            try:
                return o[key]
            except IndexError:
                raise PyRaise('IndexError')
        if isinstance(o, str) and isinstance(key, slice):
            return o[key]
        if isinstance(o, SLet):
            o = SStr([o])
        ps = list(o.parts)
        if isinstance(key, slice) and key.step is None:
            lo, hi = key.start, key.stop
            if lo in (None, 0) and hi == 1:
                return self.first_char(ps)[0]
            if isinstance(lo, int) and hi is None and lo >= 0:
                for _ in range(lo):
                    ps = self.first_char(ps)[1]
                return mkstr(ps)
        if key == 0:
            return self.first_char(ps)[0]
        raise Unsupported('position in a text')

    def first_char(self, ps):
        if not ps:
            return '', []
        p = ps[0]
        if isinstance(p, str):
            return p[0], ([p[1:]] if len(p) > 1 else []) + list(ps[1:])
        if isinstance(p, SLet):
            return p, list(ps[1:])
        if isinstance(p, Opq) and len(ps) == 1:
            return SStr([Opq(z3.Function('text_head', Text, Text)(p.e))]), [Opq(z3.Function('text_tail', Text, Text)(p.e))]
        raise Unsupported('first character of a text')

    def slice(self, o, key):
        e = self.e
        isl = isinstance(o, PList)
        segs = self.segs(o)
        lo, hi, st = key.start, key.stop, key.step
        host = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if host and self.onlyitems(segs):
            vs = self.flat(segs)[key]
            return PList(e, (Items(vs),) if vs else ()) if isl else tuple(vs)
        if not isl:
            raise Unsupported('slice of a tuple')
        if st == -1 and lo is None and hi is None:
            return PList(e, self.reverse(segs))
        if st not in (None, 1):
            raise Unsupported('slice step')
        n = self.seglen(segs)

        def bound(x, d):
            if x is None:
                return d
            t = self.num(x)
            t = z3.If(t < 0, t + n, t)
            return S(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
        a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
        m = S(z3.If(b > a, b - a, z3.IntVal(0)))
        if z3.is_int_value(S(a)) and S(a).as_long() == 0 and S(m).eq(S(n)):
            return PList(e, segs)
        k, rs = e.with_binder('s', m, lambda k: self.at(segs, S(a + k)))
        return PList(e, (self.family(m, k, rs),))

    def family(self, n, k, rs):
        cases = []
        for r in rs:
            if r.kind != 'ok' or r.writes:
                raise Unsupported('effects in an element')
            cases.append((r.guard, (Items([r.value]),)))
        return Fam(n, k, cases)

    def reverse(self, segs):
        out = []
        for s in reversed(segs):
            if isinstance(s, Items):
                out.append(Items(tuple(reversed(s.vs))))
            else:
                t = S(s.n - 1 - s.k)
                out.append(Fam(s.n, s.k, [(z3.substitute(g, (s.k, t)), self.reverse(tuple(self.subst_seg(x, s.k, t) for x in ss))) for g, ss in s.cases]))
        return tuple(out)

    def key_cases(self, d, key):
        """[(condition, host key)] for a symbolic key into a dictionary with concrete keys"""
        st = self.e.read(d)
        out = []
        for k in st[0]:
            q = self.e.truth(self.eq(k, key))
            if q is False:
                continue
            out.append((self.bexpr(q), k))
        return out

    def dict_has(self, d, key):
        st = self.e.read(d)
        if st[1]:
            return self.mk(self.contains_segs(key, self.dict_keys(d)))
        if self.hostkey(key):
            return key in st[0]
        if isinstance(key, Foreign):
            raise Unsupported('key')
        if isinstance(key, SLet) and all(c in st[0] for c in LET):
            return True
        cs = self.key_cases(d, key)
        return self.mk(z3.Or(*[c for c, _ in cs])) if cs else False

    def dict_get(self, d, key, default=None, soft=False):
        e = self.e
        st = e.read(d) if not (st_default(d) and not soft) else d.st
        if st[2] is not None and not soft:
            if not st[1] and self.hostkey(key) and key in st[0] and e.local(d):
                e.read(d)
                return st[0][key]
            if not st[1] and self.hostkey(key) and e.local(d):
                v = self.make_default(st[2])
                c = dict(st[0])
                c[key] = v
                e.write(d, (c, (), st[2]))
                return v
            return DictRef(d, key)
        if st[1]:
            return self.ops_get(d, key, default, soft)
        if self.hostkey(key):
            if key in st[0]:
                return st[0][key]
            if soft:
                return default
            raise PyRaise('KeyError')
        cs = self.key_cases(d, key)
        some = S2(z3.Or(*[c for c, _ in cs])) if cs else FALSE
        if isinstance(key, SLet) and all(c in st[0] for c in LET):
            some = TRUE
        if not e.decide(some):
            if soft:
                return default
            raise PyRaise('KeyError')
        return self.choose([(c, st[0][k]) for c, k in cs])

    def choose(self, alts):
        """the value selected by exclusive conditions, one of which holds"""
        e = self.e
        vs = [v for _, v in alts]
        if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vs):
            r = self.num(vs[-1])
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, self.num(v), r)
            return self.mk(r)
        if all(self.as_let(v) is not None if is_str(v) else False for v in vs):
            r = self.as_let(vs[-1])
            for c, v in reversed(alts[:-1]):
                r = z3.If(c, self.as_let(v), r)
            return SLet(S(r))
        if all(isinstance(v, PSet) for v in vs):
            bs = [self.set_bits(v.st) for v in vs]
            if all(b is not None for b in bs):
                out = []
                for i in range(12):
                    r = bs[-1][i]
                    for (c, _), b in reversed(list(zip(alts[:-1], bs[:-1]))):
                        r = z3.If(c, b[i], r)
                    out.append(S2(r))
                return PSet(e, ('bits', tuple(out)))
        for c, v in alts[:-1]:
            if e.decide(c):
                return v
        return alts[-1][1]

    def make_default(self, f):
        return self.e.call(f, [])

    def deref(self, r):
        """the value behind d[key] when it is read"""
        return self.ops_get(r.d, r.key, None, False)

    def ops_get(self, d, key, default, soft):
        e = self.e
        st = e.read(d)
        dn = st[2].name if isinstance(st[2], BType) else None
        if dn == 'int' or dn == 'Counter':
            tot = z3.IntVal(0)
            for k, v in st[0].items():
                q = self.bexpr(e.truth(self.eq(k, key)))
                tot = tot + z3.If(q, self.num(v), z3.IntVal(0))
            return self.mk(S2(tot + self.count_ops(st[1], key)))
        # the last 'set' that matches
        if all(o[0] == 'set' for o in st[1]):
            for o in reversed(st[1]):
                if e.decide(e.truth(self.eq(o[1], key))):
                    return o[2]
            d2 = PDict(e, (st[0], (), None))
            if st[2] is not None:
                if e.decide(e.truth(self.dict_has(d2, key))):
                    return self.dict_get(d2, key)
                return self.make_default(st[2])
            return self.dict_get(d2, key, default, soft)
        raise Unsupported('reading a dictionary built in a loop')

    def count_ops(self, ops, key):
        e = self.e
        tot = z3.IntVal(0)
        for o in ops:
            if o[0] == 'incr':
                q = e.formula(lambda: self.eq(o[1], key))
                tot = tot + z3.If(q, self.num(o[2]), z3.IntVal(0))
            elif o[0] == 'fam':
                _, n, k, cases = o
                e.binders.append(k)
                try:
                    body = z3.IntVal(0)
                    for g, sub in cases:
                        body = body + z3.If(g, self.count_ops(sub, key), z3.IntVal(0))
                finally:
                    e.binders.pop()
                tot = tot + self.sum_handle(n, k, S2(body))
            else:
                raise Unsupported('counting dictionary with other updates')
        return S2(tot)

    def dict_keys(self, d, read=True):
        """segments of the keys; only for dictionaries with keys that are set once, or as a set"""
        st = self.e.read(d) if read else d.st
        out = [Items(list(st[0]))] if st[0] else []
        out.extend(self.op_keys(st[1]))
        return tuple(out)

    def op_keys(self, ops):
        out = []
        for o in ops:
            if o[0] == 'fam':
                out.append(Fam(o[1], o[2], [(g, self.op_keys(s)) for g, s in o[3]]))
            else:
                out.append(Items([o[1]]))
        return tuple(out)

    def dict_app(self, r, segs):
        d = r.d
        st = d.st
        self.e.write(d, (st[0], st[1] + (('app', r.key, tuple(segs)),), st[2]))

    def augitem(self, op, o, key, rhs):
        e = self.e
        if isinstance(o, PDict) and o.st[2] is not None and not (self.hostkey(key) and not o.st[1] and e.local(o)):
            v = rhs()
            st = o.st
            if op == 'Add' and self.isnum(v):
                e.write(o, (st[0], st[1] + (('incr', key, v),), st[2]))
                return
            if op == 'Add' and isinstance(v, PList):
                self.dict_app(DictRef(o, key), self.segs(v))
                return
            raise Unsupported('dictionary update')
        old = self.getitem(o, key)
        self.setitem(o, key, self.iop(op, old, rhs()))

    def dict_update(self, d, v):
        e = self.e
        if not isinstance(v, PDict):
            raise Unsupported('dict.update')
        st = e.read(v)
        if st[1]:
            e.write(d, (d.st[0], d.st[1] + st[1], d.st[2]))
            if st[0]:
                raise Unsupported('dict.update')
            return
        for k, x in st[0].items():
            self.setitem(d, k, x)

    def dict_items(self, d):
        st = self.e.read(d)
        if st[1]:
            raise Unsupported('items of a dictionary built in a loop')
        return st[0].items()

    def dict_eq(self, a, b):
        e = self.e
        x, y = e.read(a), e.read(b)
        if x[1] or y[1]:
            raise Unsupported('dictionary comparison')
        if set(x[0]) != set(y[0]):
            return False
        return self.tuple_eq([x[0][k] for k in x[0]], [y[0][k] for k in x[0]])

    # ------------------------------------------------------------------ attributes of builtin values
    def attr(self, o, name):
        if isinstance(o, DictRef):
            f = getattr(self, 'r_' + name, None)
            if f is not None:
                return Builtin(name, lambda *a: f(o, *a))
            o = self.deref(o)
        if name == '__class__':
            return self.type_of(o)
        if isinstance(o, BType) and name == '__name__':
            return o.name
        for cls, pre in ((PDict, 'd_'), (PSet, 's_'), (PList, 'l_'), (tuple, 't_')):
            if isinstance(o, cls):
                f = getattr(self, pre + name, None)
                if f is None:
                    raise PyRaise('AttributeError') if not hasattr({'d_': dict, 's_': set, 'l_': list, 't_': tuple}[pre], name) else Unsupported(f'{cls.__name__}.{name}')
                return Builtin(name, lambda *a, **k: f(o, *a, **k))
        if is_str(o):
            f = getattr(self, 'c_' + name, None)
            if f is None:
                raise Unsupported(f'str.{name}')
            return Builtin(name, lambda *a, **k: f(o, *a, **k))
        if isinstance(o, BType):
            if o.name == 'dict' and name == 'fromkeys':
                raise Unsupported('dict.fromkeys')
        if isinstance(o, Builtin) and getattr(o, 'q', None):
            return self.modattr(ModVal(o.q, {}), name)
        if isinstance(o, Foreign) or o is None or self.isnum(o):
            if isinstance(o, (int, SInt, Fraction, float, SReal)) and name in ('numerator', 'denominator'):
                raise Unsupported('fraction')
            raise PyRaise('AttributeError')
        if hasattr(o, 'attr'):
            return o.attr(self.e, name)
        raise Unsupported(f'attribute {name} of {type(o).__name__}')

    def type_of(self, v):
        if isinstance(v, (Obj, AObj)):
            return v.cls
        if isinstance(v, bool) or isinstance(v, SBool):
            return self.types['bool']
        if isinstance(v, (int, SInt)):
            return self.types['int']
        if isinstance(v, (float, SReal)):
            return self.types['float']
        if is_str(v):
            return self.types['str']
        if isinstance(v, GenVal):
            raise Unsupported('type of a generator')
        if isinstance(v, PList):
            return self.types['list']
        if isinstance(v, tuple):
            return self.types['tuple']
        if isinstance(v, PDict):
            return v.st[2] is not None and self.types['defaultdict'] or self.types['dict']
        if isinstance(v, PSet):
            return self.types['set']
        if isinstance(v, (ClassVal, BType)):
            return self.types['type']
        if isinstance(v, Foreign):
            if not hasattr(v, 'type'):
                v.type = BType(v.name)
            return v.type
        if v is None:
            return BType('NoneType')
        raise Unsupported('type of a value')

    # lists
    def l_append(self, l, v):
        self.append(l, v)

    def l_extend(self, l, v):
        self.extend(l, v)

    def l_copy(self, l):
        return PList(self.e, self.segs(l))

    def l_count(self, l, x):
        return self.b_sum(PList(self.e, self.map_segs(self.segs(l), lambda v: self.eq(v, x))))

    t_count = l_count

    def l_index(self, l, x):
        segs = self.segs(l)
        off = 0
        for s in segs:
            if not isinstance(s, Items):
                raise Unsupported('list.index')
            for v in s.vs:
                if self.e.decide(self.e.truth(self.eq(v, x))):
                    return off
                off += 1
        raise PyRaise('ValueError')

    t_index = l_index

    def l_pop(self, l, i=-1):
        st = self.e.read(l)
        if not self.onlyitems(st) or not isinstance(i, int):
            raise Unsupported('list.pop')
        vs = list(self.flat(st))
        if not vs:
            raise PyRaise('IndexError')
        v = vs.pop(i)
        self.e.write(l, (Items(vs),) if vs else ())
        return v

    def l_insert(self, l, i, v):
        st = self.e.read(l)
        if i == 0:
            self.e.write(l, (Items([v]),) + st)
            return
        raise Unsupported('list.insert')

    def l_reverse(self, l):
        self.e.write(l, self.reverse(self.e.read(l)))

    def l_sort(self, l, key=None, reverse=False):
        self.e.write(l, self.b_sorted(l, key, reverse).st)

    # dictionaries
    def d_keys(self, d):
        return PSet(self.e, ('segs', self.dict_keys(d))) if d.st[1] else PList(self.e, self.dict_keys(d))

    def d_values(self, d):
        return PList(self.e, (Items([v for _, v in self.dict_items(d)]),) if d.st[0] else ())

    def d_items(self, d):
        return PList(self.e, (Items([(k, v) for k, v in self.dict_items(d)]),) if d.st[0] else ())

    def d_get(self, d, key, default=None):
        return self.dict_get(d, key, default, True)

    def d_update(self, d, v):
        self.dict_update(d, v)

    def d_copy(self, d):
        return PDict(self.e, self.e.read(d))

    # sets
    def s_add(self, s, v):
        e = self.e
        st = s.st
        k = self.as_let(v) if is_str(v) else None
        if st[0] == 'bits':
            e.read(s)
            e.write(s, ('bits', tuple(S2(z3.Or(b, k == i)) for i, b in enumerate(st[1]))))
        else:
            e.write(s, ('segs', st[1] + (Items([v]),)))

    def s_update(self, s, *vs):
        for v in vs:
            self.set_update(s, v)

    def toset(self, v):
        return v if isinstance(v, PSet) else self.mkset(self.segs(v))

    def s_isdisjoint(self, a, b):
        e = self.e
        x, y = e.read(a), e.read(self.toset(b))
        p, q = self.set_bits(x), self.set_bits(y)
        if p is not None and q is not None:
            return self.mk(z3.And(*[z3.Not(z3.And(u, v)) for u, v in zip(p, q)]))
        ys = self.set_segs(y)
        return self.mk(self.forall_segs(self.set_segs(x), lambda v: neg(self.contains_segs(v, ys))))

    def s_intersection(self, a, b):
        return self.set_op('BitAnd', a, self.toset(b))

    def s_union(self, a, *bs):
        for b in bs:
            a = self.set_op('BitOr', a, self.toset(b))
        return a

    def s_difference(self, a, b):
        return self.set_op('Sub', a, self.toset(b))

    def s_symmetric_difference(self, a, b):
        return self.set_op('BitXor', a, self.toset(b))

    def s_issubset(self, a, b):
        return self.order('<=', a, self.toset(b))

    def s_issuperset(self, a, b):
        return self.order('>=', a, self.toset(b))

    def s_copy(self, a):
        return PSet(self.e, self.e.read(a))

    # references into dictionaries
    def r_append(self, r, v):
        self.dict_app(r, (Items([v]),))

    def r_extend(self, r, v):
        self.dict_app(r, self.segs(v))

    def r_add(self, r, v):
        d = r.d
        st = d.st
        self.e.write(d, (st[0], st[1] + (('add', r.key, (Items([v]),)),), st[2]))

    def r_update(self, r, v):
        d = r.d
        st = d.st
        self.e.write(d, (st[0], st[1] + (('add', r.key, self.segs(v)),), st[2]))

    # strings
    def c_lower(self, s):
        if isinstance(s, str):
            return s.lower()
        if isinstance(s, SLet):
            return SLet(S(z3.If(s.e >= 6, s.e - 6, s.e)))
        return mkstr([p.lower() if isinstance(p, str) else self.c_lower(p) if isinstance(p, SLet) else p if isinstance(p, Dec) else self.no('lower') for p in s.parts])

    def c_upper(self, s):
        if isinstance(s, str):
            return s.upper()
        if isinstance(s, SLet):
            return SLet(S(z3.If(s.e < 6, s.e + 6, s.e)))
        return mkstr([p.upper() if isinstance(p, str) else self.c_upper(p) if isinstance(p, SLet) else p if isinstance(p, Dec) else self.no('upper') for p in s.parts])

    def no(self, w):
        raise Unsupported(w + ' of a text')

    def c_isupper(self, s):
        if isinstance(s, str):
            return s.isupper()
        if isinstance(s, SLet):
            return self.mk(s.e >= 6)
        if self.is_label(s.parts):
            return self.mk(self.as_let(s.parts[0]) >= 6)
        self.no('isupper')

    def c_islower(self, s):
        if isinstance(s, str):
            return s.islower()
        if isinstance(s, SLet):
            return self.mk(s.e < 6)
        self.no('islower')

    def c_isdigit(self, s):
        if isinstance(s, str):
            return s.isdigit()
        if isinstance(s, SLet):
            return False
        if all(isinstance(p, Dec) or (isinstance(p, str) and p.isdigit()) for p in s.parts):
            return True
        if len(s.parts) == 1 and isinstance(s.parts[0], Opq):
            return SBool(z3.Function('is_digits', Text, z3.BoolSort())(s.parts[0].e))
        self.no('isdigit')

    c_isdecimal = c_isdigit

    def c_strip(self, s):
        if isinstance(s, str):
            return s.strip()
        if isinstance(s, SLet):
            return s
        ps = list(s.parts)
        if isinstance(ps[0], str):
            ps[0] = ps[0].lstrip()
        if isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip()
        if any(isinstance(p, (Opq, Join)) for p in (ps[0], ps[-1])):
            self.no('strip')
        return mkstr(ps)

    def c_split(self, s, sep=None):
        if isinstance(s, str):
            r = s.split(sep)
            return PList(self.e, (Items(r),) if r else ())
        if len(s.parts) == 1 and isinstance(s.parts[0], Join):
            j = s.parts[0]
            if isinstance(sep, str) and (j.sep == sep or j.sep.strip() == sep):
                # precondition: the texts joined do not contain the separator and there is at least one
                pad = j.sep[len(sep):]
                if not pad:
                    return PList(self.e, j.segs)
                if len(j.segs) == 1 and isinstance(j.segs[0], Fam) and j.segs[0].simple() and j.sep == sep + pad:
                    f = j.segs[0]
                    at = lambda t: self.subst(f.cases[0][1][0].vs[0], f.k, t)
                    self.e.freshno += 1
                    k = z3.Int(f'k!{self.e.freshno}')
                    return PList(self.e, (Items([at(z3.IntVal(0))]),
                                          Fam(S2(f.n - 1), k, [(TRUE, (Items([mkstr([pad, at(k + 1)])]),))])))
        if isinstance(sep, str) and len(sep) == 1 and not sep.isalnum() and all(isinstance(p, (str, SLet, Dec)) for p in s.parts):
            out, cur = [], []
            for p in s.parts:
                if isinstance(p, str):
                    bits = p.split(sep)
                    cur.append(bits[0])
                    for b in bits[1:]:
                        out.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(p)
            out.append(mkstr(cur))
            return PList(self.e, (Items(out),))
        self.no('split')

    def c_join(self, sep, l):
        segs = self.segs(l)
        if self.onlyitems(segs):
            out = []
            for i, v in enumerate(self.flat(segs)):
                if not is_str(v):
                    if isinstance(v, KeyText):
                        raise Unsupported('join')
                    raise PyRaise('TypeError')
                if i:
                    out.append(sep)
                out.append(v)
            return mkstr(out)
        return mkstr([Join(sep, segs)])

    def c_format(self, s, *a, **k):
        if isinstance(s, str) and not k:
            out = []
            import string
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s):
                out.append(lit)
                if field is not None:
                    if spec or conv or not (field == '' or field.isdigit()):
                        self.no('format')
                    i = auto if field == '' else int(field)
                    auto += 1
                    out.append(self.tostr(a[i]))
            return mkstr(out)
        self.no('format')

    def c_startswith(self, s, p):
        if isinstance(s, str) and isinstance(p, str):
            return s.startswith(p)
        self.no('startswith')

    def c_count(self, s, p):
        if isinstance(s, str) and isinstance(p, str):
            return s.count(p)
        self.no('count')

    # ------------------------------------------------------------------ type constructors
    def construct(self, t, args, kw):
        e = self.e
        n = t.name
        if isinstance(t, ExcType):
            return Obj(e, ClassVal(n, [], None), {})
        if n == 'str':
            return self.tostr(args[0]) if args else ''
        if n == 'int':
            return self.to_int(args[0]) if args else 0
        if n == 'float':
            return self.to_float(args[0]) if args else 0.0
        if n == 'bool':
            return e.truth(args[0]) if args else False
        if n in ('list', 'deque'):
            return PList(e, self.segs(args[0]) if args else ())
        if n == 'tuple':
            if not args:
                return ()
            if isinstance(args[0], tuple):
                return args[0]
            s = self.segs(args[0])
            if self.onlyitems(s):
                return self.flat(s)
            return PList(e, s)          # an immutable view: the code never tests list against tuple
        if n in ('set', 'frozenset'):
            return self.mkset(self.segs(args[0])) if args else PSet(e, ('segs', ()))
        if n == 'dict':
            d = PDict(e, ({}, (), None))
            if args:
                if isinstance(args[0], PDict):
                    self.dict_update(d, args[0])
                else:
                    for s in self.segs(args[0]):
                        if not isinstance(s, Items):
                            raise Unsupported('dict')
                        for k, v in (e.unpack(x, 2) for x in s.vs):
                            self.setitem(d, k, v)
            for k, v in kw.items():
                self.setitem(d, k, v)
            return d
        if n == 'defaultdict':
            d = PDict(e, ({}, (), args[0] if args else None))
            if len(args) > 1:
                self.dict_update(d, args[1])
            return d
        if n == 'Counter':
            d = PDict(e, ({}, (), self.types['int']))
            if args and isinstance(args[0], PDict):
                self.dict_update(d, args[0])
                return d
            if args:
                for s in self.segs(args[0]):
                    self.count_seg(d, s)
            return d
        if n == 'range':
            return self.range(*args)
        if n == 'type':
            return self.type_of(args[0])
        if n == 'object':
            return Foreign('object')
        raise Unsupported(f'{n}()')

    def count_seg(self, d, s):
        e = self.e
        if isinstance(s, Items):
            for v in s.vs:
                st = d.st
                if self.hostkey(v) and not st[1]:
                    c = dict(st[0])
                    c[v] = c.get(v, 0) + 1
                    e.write(d, (c, (), st[2]))
                else:
                    e.write(d, (st[0], st[1] + (('incr', v, 1),), st[2]))
        else:
            st = d.st
            e.write(d, (st[0], st[1] + (self.count_fam(s),), st[2]))

    def count_fam(self, s):
        return ('fam', s.n, s.k, tuple((g, tuple(x for y in ss for x in (
            [('incr', v, 1) for v in y.vs] if isinstance(y, Items) else [self.count_fam(y)]))) for g, ss in s.cases))

    def to_int(self, v):
        if isinstance(v, (int, float, Fraction)):
            return int(v)
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return self.mk(self.num(v))
        if isinstance(v, SReal):
            return SInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise('ValueError')
        if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Dec):
            return self.mk(v.parts[0].e)
        if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Opq):
            e = self.e
            if e.decide(z3.Function('is_digits', Text, z3.BoolSort())(v.parts[0].e)):
                r = z3.Function('digits_value', Text, z3.IntSort())(v.parts[0].e)
                e.assume(r >= 0)
                return SInt(r)
            raise PyRaise('ValueError')
        if isinstance(v, (SLet,)):
            raise PyRaise('ValueError')
        if isinstance(v, Foreign) or v is None:
            raise PyRaise('TypeError')
        raise Unsupported('int()')

    def to_float(self, v):
        if isinstance(v, (int, float, Fraction)):
            return float(v)
        if isinstance(v, SReal):
            return v
        if isinstance(v, (SInt, SBool)):
            return SReal(z3.ToReal(self.num(v)))
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise PyRaise('ValueError')
        if isinstance(v, Foreign) or v is None or isinstance(v, (PList, tuple, PDict)):
            raise PyRaise('TypeError')
        raise Unsupported('float()')

    def range(self, a, b=None, st=1):
        e = self.e
        if b is None:
            a, b = 0, a
        if not all(isinstance(x, (int, SInt)) for x in (a, b, st)):
            raise PyRaise('TypeError')
        if all(isinstance(x, int) for x in (a, b, st)):
            r = list(range(a, b, st))
            if len(r) <= 64:
                return PList(e, (Items(r),) if r else ())
        x, y = self.num(a), self.num(b)
        e.freshno += 1
        k = z3.Int(f'r!{e.freshno}')
        if st == 1:
            n, v = z3.If(y > x, y - x, z3.IntVal(0)), x + k
        elif st == -1:
            n, v = z3.If(x > y, x - y, z3.IntVal(0)), x - k
        else:
            raise Unsupported('range step')
        return PList(e, (Fam(S(n), k, [(TRUE, (Items([self.mk(v)]),))]),))

    # ------------------------------------------------------------------ builtin functions
    def b_print(self, *a, **k):
        return None

    def b_len(self, v):
        return self.length(v)

    def b_repr(self, v):
        return self.tostr(v)

    def b_callable(self, v):
        return isinstance(v, (FuncVal, Bound, Builtin, ClassVal, BType))

    def b_getattr(self, o, n, *d):
        try:
            return self.e.getattr(o, n)
        except PyRaise as x:
            if d and x.typ == 'AttributeError':
                return d[0]
            raise

    def b_hasattr(self, o, n):
        try:
            self.e.getattr(o, n)
            return True
        except PyRaise:
            return False

    def b_isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(v, x) for x in t)
        if isinstance(t, ClassVal):
            return isinstance(v, (Obj, AObj)) and t in v.cls.mro
        if isinstance(v, Foreign):
            return t.name in getattr(v, 'types', ())
        if isinstance(v, DictRef):
            v = self.deref(v)
        n = getattr(t, 'name', None)
        if n == 'int':
            return isinstance(v, (int, SInt, bool, SBool))
        if n == 'float':
            return isinstance(v, (float, SReal))
        if n == 'bool':
            return isinstance(v, (bool, SBool))
        if n == 'str':
            return is_str(v)
        if n == 'list':
            return isinstance(v, PList) and not isinstance(v, GenVal)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n in ('dict', 'defaultdict', 'Counter'):
            return isinstance(v, PDict)
        if n == 'set':
            return isinstance(v, PSet)
        if n == 'Sequence':
            return is_str(v) or isinstance(v, tuple) or (isinstance(v, PList) and not isinstance(v, GenVal))
        if n == 'Iterable':
            return is_str(v) or isinstance(v, (tuple, PList, PDict, PSet)) or \
                (isinstance(v, (Obj, AObj)) and v.cls.find('__iter__')[0] is not None)
        if n == 'type':
            return isinstance(v, (ClassVal, BType))
        raise Unsupported(f'isinstance {n}')

    def b_hash(self, v):
        return HashVal(self.hash_key(v))

    def hash_key(self, v):
        if isinstance(v, (Obj, AObj)):
            m, _ = v.cls.find('__hash__')
            if m is None:
                return ('id', v)
            r = self.e.call(m, [v])
            return r.key if isinstance(r, HashVal) else r
        if isinstance(v, tuple):
            return tuple(self.hash_key(x) for x in v)
        return v

    def map_segs(self, segs, f):
        """elementwise image of a list"""
        e = self.e
        out = PList(e, ())
        env = EN.Env(e, None, None)
        e.loop(segs, lambda v: self.append(out, f(v)), env, set())
        return out.st

    def b_map(self, f, *ls):
        if len(ls) == 1:
            return GenVal(self.e, self.map_segs(self.segs(ls[0]), lambda v: self.e.call(f, [v])))
        z = self.b_zip(*ls)
        return GenVal(self.e, self.map_segs(z.st, lambda v: self.e.call(f, list(v))))

    def b_filter(self, f, l):
        e = self.e
        out = GenVal(e, ())
        env = EN.Env(e, None, None)

        def body(v):
            if e.decide(e.truth(e.call(f, [v]) if f is not None else v)):
                self.append(out, v)
        e.loop(self.segs(l), body, env, set())
        return out

    def b_zip(self, *ls):
        e = self.e
        ss = [self.segs(l) for l in ls]
        if not ss:
            return GenVal(e, ())
        if all(self.onlyitems(s) for s in ss):
            vs = list(zip(*[self.flat(s) for s in ss]))
            return GenVal(e, (Items(vs),) if vs else ())
        ns = [self.seglen(s) for s in ss]
        n = ns[0]
        for x in ns[1:]:
            if not S(x == n).eq(TRUE) and e.feasible(S2(x != n)):
                n = z3.If(x < n, x, n)
        n = S2(n)
        if all(len(s) == 1 and isinstance(s[0], Fam) and s[0].simple() for s in ss):
            k = z3.Int(f'z!{e.freshno}')
            e.freshno += 1
            return GenVal(e, (Fam(n, k, [(TRUE, (Items([tuple(self.subst(s[0].cases[0][1][0].vs[0], s[0].k, k) for s in ss)]),))]),))
        k, rs = e.with_binder('z', n, lambda k: tuple(self.at(s, k) for s in ss))
        return GenVal(e, (self.family(n, k, rs),))

    def b_enumerate(self, l, start=0):
        e = self.e
        segs = self.segs(l)
        out = []
        off = self.num(start)
        for s in segs:
            if isinstance(s, Items):
                out.append(Items([(self.mk(S(off + i)), v) for i, v in enumerate(s.vs)]))
                off = S(off + len(s.vs))
            else:
                l = self.famlen(s)
                if not S(l).eq(S(s.n)):
                    raise Unsupported('enumerate of a filtered list')
                cases = []
                for g, ss in s.cases:
                    if len(ss) != 1 or not isinstance(ss[0], Items) or len(ss[0].vs) != 1:
                        raise Unsupported('enumerate')
                    cases.append((g, (Items([(self.mk(S(off + s.k)), ss[0].vs[0])]),)))
                out.append(Fam(s.n, s.k, cases))
                off = S(off + l)
        return GenVal(e, tuple(out))

    def b_iter(self, v):
        return GenVal(self.e, self.segs(v))

    def b_reversed(self, v):
        return GenVal(self.e, self.reverse(self.segs(v)))

    def b_next(self, it, *default):
        """first element; for a set with more than one element, an arbitrary one"""
        e = self.e
        segs = self.segs(it)
        n = self.seglen(segs)
        if e.decide(S2(n == 0)):
            if default:
                return default[0]
            raise PyRaise('StopIteration')
        bits = self.letters(segs)
        if bits is not None and not self.onlyitems(segs):
            c = e.fresh('elem')
            e.assume(z3.Or(*[z3.And(c == i, b) for i, b in enumerate(bits)]))
            return SLet(c)
        return self.at(segs, z3.IntVal(0))

    def b_any(self, l):
        return self.quant(self.segs(l), True)

    def b_all(self, l):
        return self.quant(self.segs(l), False)

    def quant(self, segs, disj):
        f = self.quant_segs(segs, disj)
        return self.mk(f)

    def quant_segs(self, segs, disj):
        e = self.e
        acc = []
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    t = e.truth(v)
                    acc.append(self.bexpr(t))
            else:
                for g, ss in s.cases:
                    f = self.quant_segs(ss, disj)
                    ins = z3.And(s.k >= 0, s.k < s.n, g)
                    if disj:
                        if not z3.is_false(S2(f)):
                            acc.append(z3.Exists([s.k], z3.And(ins, f)))
                    elif not z3.is_true(S2(f)):
                        acc.append(z3.ForAll([s.k], z3.Implies(ins, f)))
        if not acc:
            return FALSE if disj else TRUE
        return S2(z3.Or(*acc) if disj else z3.And(*acc))

    def b_sum(self, l, start=0):
        e = self.e
        r = start
        for s in self.segs(l):
            if isinstance(s, Items):
                for v in s.vs:
                    r = self.binop('Add', r, v)
            else:
                r = self.binop('Add', r, self.sum_fam(s))
        return r

    def sum_fam(self, s):
        e = self.e
        body = None
        e.binders.append(s.k)
        try:
            for g, ss in s.cases:
                t = self.num(self.b_sum(PList(e, ss)))
                z = z3.IntVal(0) if t.sort() == z3.IntSort() else z3.RealVal(0)
                t = t if z3.is_true(g) else z3.If(g, t, z)
                body = t if body is None else body + t
        finally:
            e.binders.pop()
        if body is None:
            return 0
        return self.mk(self.sum_handle(s.n, s.k, S2(body)))

    def b_abs(self, v):
        if isinstance(v, (int, float, Fraction)):
            return abs(v)
        x = self.num(v)
        return self.mk(z3.If(x >= 0, x, -x))

    def minmax(self, a, op, key=None):
        if len(a) == 1:
            s = self.segs(a[0])
            if not self.onlyitems(s):
                raise Unsupported('min/max of a list of unknown length')
            a = self.flat(s)
            if not a:
                raise PyRaise('ValueError')
        r = a[0]
        for v in a[1:]:
            if self.isnum(r) and self.isnum(v):
                if not isinstance(r, (SInt, SReal)) and not isinstance(v, (SInt, SReal)):
                    r = min(r, v) if op == '<' else max(r, v)
                else:
                    x, y = self.num(r), self.num(v)
                    if x.sort() != y.sort():
                        raise Unsupported('min/max of mixed numbers')
                    r = self.mk(z3.If(y < x if op == '<' else y > x, y, x))
            elif self.e.decide(self.e.truth(self.order(op, v, r))):
                r = v
        return r

    def b_min(self, *a):
        return self.minmax(a, '<')

    def b_max(self, *a):
        return self.minmax(a, '>')

    def b_sorted(self, l, key=None, reverse=False):
        e = self.e
        segs = self.segs(l)
        if self.onlyitems(segs) and reverse is False:
            vs = list(self.flat(segs))
            if key is None and len(vs) <= 3:
                # insertion sort with decisions
                out = []
                for v in vs:
                    i = len(out)
                    while i > 0 and e.decide(e.truth(self.order('<', v, out[i - 1]))):
                        i -= 1
                    out.insert(i, v)
                return PList(e, (Items(out),) if out else ())
            if all(self.hostkey(v) for v in vs) and key is None:
                return PList(e, (Items(sorted(vs)),))
        if key is None and reverse is False:
            return PList(e, self.sorted_indices(segs))
        raise Unsupported('sorted with a key')

    def index_list(self, segs):
        """are all elements indices?"""
        for s in segs:
            for vs in ([s.vs] if isinstance(s, Items) else [q.vs for _, c in s.cases for q in c if isinstance(q, Items)]):
                for v in vs:
                    if not (isinstance(v, (AObj, Obj)) and v.cls.name == 'Index'):
                        return False
        return True

    def sorted_indices(self, segs):
        """the segments of a list of indices in ascending order: a permutation of the given list"""
        e = self.e
        if self.onlyitems(segs):
            return self.b_sorted(PList(e, segs)).st
        if not (len(segs) == 1 and segs[0].simple() and self.index_list(segs)) or e.binders:
            raise Unsupported('sorted')
        f = segs[0]

        def make():
            e.freshno += 1
            t = f'sorted!{e.freshno}'
            I = z3.IntSort()
            sp, num, p, q = [z3.Function(t + x, I, I) for x in ('.sp', '.num', '.p', '.q')]
            k, j = z3.Int(t + '.k'), z3.Int(t + '.j')
            n = f.n
            org = self.subst(f.cases[0][1][0].vs[0], f.k, p(k))
            ins = z3.And(k >= 0, k < n)
            osp, onum = self.expr(e.getattr(org, 'space')), self.num(e.getattr(org, 'number'))
            e.assume(z3.ForAll([k], z3.And(sp(k) >= 0, sp(k) < 12, num(k) >= 0), patterns=[sp(k)]))
            e.assume(z3.ForAll([k], z3.And(sp(k) >= 0, sp(k) < 12, num(k) >= 0), patterns=[num(k)]))
            for pat in (sp(k), num(k), p(k)):
                e.assume(z3.ForAll([k], z3.Implies(ins, z3.And(p(k) >= 0, p(k) < n, q(p(k)) == k, sp(k) == osp, num(k) == onum)), patterns=[pat]))
            e.assume(z3.ForAll([k], z3.Implies(ins, z3.And(q(k) >= 0, q(k) < n, p(q(k)) == k)), patterns=[q(k)]))
            osp2 = z3.substitute(self.expr(e.getattr(f.cases[0][1][0].vs[0], 'space')), (f.k, k))
            if z3.is_app(osp2) and osp2.num_args() == 1:
                e.assume(z3.ForAll([k], z3.Implies(ins, z3.And(q(k) >= 0, q(k) < n, p(q(k)) == k)), patterns=[osp2]))
            e.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < n), z3.Or(sp(k) < sp(j), z3.And(sp(k) == sp(j), num(k) <= num(j)))),
                               patterns=[z3.MultiPattern(sp(k), sp(j))]))
            kk = z3.Int(t + '!k')
            ix = AObj(self.cls_index(), space=SLet(sp(kk)), number=SInt(num(kk)))
            out = (Fam(n, kk, [(TRUE, (Items([ix]),))], tag=t),)
            e.sorted_src[t] = (f, sp, num)
            d = self.distinct(segs)
            e.assume(self.distinct(out) if any(x.eq(d) for x in e.facts) else z3.Implies(d, self.distinct(out)))
            return out
        return e.remember(('sorted', self.skey(segs)), make)

    def cls_index(self):
        for m in self.e.modules.values():
            c = m.env.st.get('Index') if m.env is not None else None
            if isinstance(c, ClassVal) and c.name == 'Index':
                return c
        raise Unsupported('class Index')

    def inversions(self, segs):
        """number of pairs i < j with element i after element j"""
        e = self.e
        if self.onlyitems(segs):
            vs = self.flat(segs)
            tot = z3.IntVal(0)
            for i in range(len(vs)):
                for j in range(i):
                    tot = tot + z3.If(e.formula(lambda: self.order('<', vs[i], vs[j])), z3.IntVal(1), z3.IntVal(0))
            return self.mk(S2(tot))
        if e.binders:
            raise Unsupported('inversions')

        def make():
            h = e.fresh('inv')
            e.assume(h >= 0)
            e.assume(z3.Implies(self.seglen(segs) <= 1, h == 0))
            return h
        return self.mk(e.remember(('inv', self.skey(segs)), make))

    # ------------------------------------------------------------------ library functions
    def m_math_factorial(self, n):
        if isinstance(n, int):
            if n < 0:
                raise PyRaise('ValueError')
            return math.factorial(n)
        if isinstance(n, SInt):
            e = self.e
            if e.decide(n.e < 0):
                raise PyRaise('ValueError')
            f = z3.Function('factorial', z3.IntSort(), z3.IntSort())
            e.assume(f(n.e) >= 1)
            return SInt(f(n.e))
        raise PyRaise('TypeError')

    def m_math_sqrt(self, n):
        e = self.e
        if isinstance(n, (int, float)):
            return math.sqrt(n)
        x = self.num(n)
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        if e.decide(x < 0):
            raise PyRaise('ValueError')
        f = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
        e.assume(f(x) >= 0)
        return SReal(f(x))

    def m_math_isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        x, y = self.num(a), self.num(b)
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        ab = lambda t: z3.If(t >= 0, t, -t)
        mx = lambda p, q: z3.If(p >= q, p, q)
        return self.mk(ab(x - y) <= mx(rv(rel_tol) * mx(ab(x), ab(y)), rv(abs_tol)))

    def m_multiprocessing_cpu_count(self):
        e = self.e
        if 'cpus' not in e.memo:
            e.memo['cpus'] = z3.Int('cpu_count')
        e.assume(e.memo['cpus'] >= 1)
        return SInt(e.memo['cpus'])

    def m_itertools_chain(self, *ls):
        out = GenVal(self.e, ())
        for l in ls:
            self.extend(out, l)
        return out

    def m_timeit_default_timer(self):
        return SReal(self.e.fresh('time', z3.RealSort()))


def st_default(d):
    return d.st[2] is not None


class HashVal:
    """hash(key): equal keys give equal hashes"""

    def __init__(self, key):
        self.key = key


class KeyText:
    """a text known only up to equality: same(eng, other) decides when two such texts are equal"""

    def __init__(self, kind, value, rel):
        self.kind, self.value, self.rel = kind, value, rel

    def same(self, eng, other):
        if self.kind != other.kind:
            raise Unsupported('texts of different kinds')
        return self.rel(eng, self.value, other.value)

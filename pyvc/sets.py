"""Deductive verifier for (recursive) generators and loops over sets, maps and sequences.

A function of /repo is parsed on every run and executed symbolically, path by path:
  set      z3 array Int -> Bool in a heap cell (add, remove, pop, &, |, -, -=, intersection, in-place change of arguments)
  map      z3 array Int -> Int or Int -> set in a heap cell, with the set of its keys
  list     an immutable base and the elements appended since (append, pop), its elements being distinct
  sequence length and element function (list comprehensions, slices, enumerate, accumulate, zip)
The ghost variable X is an arbitrary set: `count` counts how often it has been handed out.  A recursive call is replaced
by its contract: it hands out X once if X is in the specified family and not otherwise, and leaves its arguments as they
were.  Recursion ends because the set argument of the call is strictly contained in that of the caller (finite sets)."""
import ast
import os
import time

import z3

from loops import Prover, Path as _P, REPO
from values import Unsupported

I, B = z3.IntSort(), z3.BoolSort()
SET = z3.ArraySort(I, B)
ARR = z3.ArraySort(I, I)
MSET = z3.ArraySort(I, SET)
EMPTY = z3.K(I, z3.BoolVal(False))


def isin(x, s):
    return z3.Select(s, x)


def subset(a, b):
    return z3.IsSubset(a, b)


def union(a, b):
    return z3.SetUnion(a, b)


def inter(a, b):
    return z3.SetIntersect(a, b)


def minus(a, b):
    return z3.SetDifference(a, b)


def single(x):
    return z3.Store(EMPTY, x, z3.BoolVal(True))


class Ref:
    def __init__(self, cell, kind):
        self.cell, self.kind = cell, kind


class Obj:
    """opaque object: attributes and methods given by contract"""
    def __init__(self, attrs=None, methods=None, term=None):
        self.attrs, self.methods, self.term = attrs or {}, methods or {}, term


class MapV:
    """read-only map: get(ver, path, key) -> value"""
    def __init__(self, get, keys=None):
        self.get, self.keys = get, keys


class Seq:
    def __init__(self, n, get):
        self.n, self.get = n, get


class Keys:
    def __init__(self, pred):
        self.pred = pred


class FamSet:
    """sets indexed by the keys: the union is what can be done with it"""
    def __init__(self, pred, k, val):
        self.pred, self.k, self.val = pred, k, val


class GenVal:
    """a generator obtained from a call under contract"""
    def __init__(self, times):
        self.times = times


class Cell:
    def __init__(self, val, keys=None, appended=()):
        self.val, self.keys, self.appended = val, keys, tuple(appended)


class Path:
    def __init__(self, env, heap, facts, count):
        self.env, self.heap, self.facts, self.count = dict(env), dict(heap), list(facts), count

    def copy(self):
        return Path(self.env, self.heap, self.facts, self.count)


class SetContract:
    """name, path; start(ver) -> (env, [Cell...] facts) builds the arguments; family(ver, path, args) -> formula
    'X is in the family' for a call; requires(ver, path, args); loops; methods"""
    def __init__(self, name, path, start, family=None, requires=None, loops=None, measure=None, globals=None, at_end=None, hints=None,
                 at_return=None):
        self.name, self.path, self.start, self.family, self.requires = name, path, start, family, requires
        self.loops, self.measure, self.globals = loops or {}, measure, globals or {}
        self.at_end, self.hints, self.at_return = at_end, hints or (lambda ver, p: []), at_return


class SetVerifier:
    def __init__(self, con, prover):
        self.con, self.pr = con, prover
        tree = ast.parse(open(os.path.join(REPO, con.path)).read())
        cls, _, name = con.name.rpartition('.')
        body = tree.body
        if cls:
            cs = [x for x in body if isinstance(x, ast.ClassDef) and x.name == cls]
            body = cs[0].body if len(cs) == 1 else []
        fn = [x for x in body if isinstance(x, ast.FunctionDef) and x.name == name]
        if len(fn) != 1:
            raise Unsupported(f'{con.name} is not in {con.path}')
        self.fn = fn[0]
        self.n = 0
        self.popped = []
        self.steps = []
        self.pos = {}          # position of each enclosing loop
        self.live = False
        self.defs = []          # definitions of names introduced: true on every path
        self.loop_no = {}

        def number(stmts):
            for s in stmts:
                if isinstance(s, (ast.For, ast.While)):
                    self.loop_no[s] = len(self.loop_no)
                for f in ('body', 'orelse'):
                    if not isinstance(s, ast.FunctionDef):
                        number(getattr(s, f, []) or [])
        number(self.fn.body)
        if len(self.loop_no) != len(con.loops):
            raise Unsupported(f'{con.name} has {len(self.loop_no)} loops, its contract {len(con.loops)} invariants')
        self.X = z3.Const('X', SET)

    # ---------------------------------------------------------------- helpers
    def fresh(self, name, sort=I):
        self.n += 1
        return z3.Const(f'{name}${self.n}', sort)

    def goal(self, what, p, f):
        self.pr.prove(f'{self.con.name}: {what}', p.facts + self.defs, f, hints=self.con.hints(self, p))

    def new(self, p, kind, val, keys=None, appended=()):
        self.n += 1
        c = (kind, self.n)
        p.heap[c] = Cell(val, keys, appended)
        return Ref(c, kind)

    def cell(self, p, r):
        return p.heap[r.cell]

    def put(self, p, r, val=None, keys=None, appended=None):
        c = p.heap[r.cell]
        p.heap[r.cell] = Cell(c.val if val is None else val, c.keys if keys is None else keys,
                              c.appended if appended is None else appended)

    def setval(self, v, p):
        if isinstance(v, Ref) and v.kind == 'set':
            return self.cell(p, v).val
        if isinstance(v, Seq):                          # the elements of a range
            x, i = self.fresh('x'), self.fresh('i')
            u = self.fresh('elements', SET)
            self.defs.append(z3.ForAll([x], isin(x, u) == z3.Exists([i], z3.And(i >= 0, i < v.n, x == v.get(i)))))
            return u
        if isinstance(v, Ref) and v.kind == 'list':
            c = self.cell(p, v)
            s = c.val
            for x in c.appended:
                s = z3.Store(s, x, z3.BoolVal(True))
            return s
        if z3.is_expr(v) and v.sort() == SET:
            return v
        raise Unsupported('not a set')

    def num(self, v):
        if isinstance(v, bool) or v is None or not z3.is_expr(v):
            raise Unsupported(f'number expected, got {type(v).__name__}')
        return v

    def merge(self, p, q):
        """q evaluated an expression conditionally: it may create objects but not change any"""
        if any(q.heap[c] is not p.heap[c] for c in p.heap) or q.env.keys() != p.env.keys():
            raise Unsupported('effect in a condition')
        p.heap.update(q.heap)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, p):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return z3.BoolVal(e.value)
            if isinstance(e.value, int):
                return z3.IntVal(e.value)
            if e.value is None:
                return None
            raise Unsupported('constant')
        if isinstance(e, ast.Name):
            if e.id in p.env:
                return p.env[e.id]
            if e.id in self.con.globals:
                return self.con.globals[e.id]
            raise Unsupported(f'name {e.id}')
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, p)
            if isinstance(o, Obj):
                if e.attr in o.attrs:
                    v = o.attrs[e.attr]
                    return v(self, p) if callable(v) and not isinstance(v, (Obj, Seq, MapV)) else v
            raise Unsupported(f'attribute {e.attr}')
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, p) for x in e.elts)
        if isinstance(e, ast.List):
            if not e.elts:
                return self.new(p, 'list', EMPTY)
            vs = [self.num(self.ev(x, p)) for x in e.elts]
            return Seq(z3.IntVal(len(vs)), lambda i, vs=vs: self.pick(vs, i))
        if isinstance(e, ast.UnaryOp):
            v = self.num(self.ev(e.operand, p))
            return z3.Not(v) if isinstance(e.op, ast.Not) else -v
        if isinstance(e, ast.BoolOp):
            vs, q = [], p.copy()
            for x in e.values:
                v = self.ev(x, q)
                if not z3.is_bool(v):
                    raise Unsupported('condition')
                vs.append(v)
                q.facts.append(v if isinstance(e.op, ast.And) else z3.Not(v))
            self.merge(p, q)
            return z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs)
        if isinstance(e, ast.Compare):
            vs = [self.ev(x, p) for x in [e.left] + e.comparators]
            out = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                if isinstance(op, (ast.In, ast.NotIn)):
                    f = isin(self.num(a), self.setval(b, p)) if not isinstance(b, Keys) else b.pred(a)
                    out.append(f if isinstance(op, ast.In) else z3.Not(f))
                    continue
                if isinstance(op, (ast.Is, ast.IsNot)):
                    if a is None or b is None:
                        r = (a is None) == (b is None)
                        out.append(z3.BoolVal(r if isinstance(op, ast.Is) else not r))
                        continue
                    raise Unsupported('is')
                a, b = self.num(a), self.num(b)
                out.append({ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                            ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]())
            return z3.And(*out) if len(out) > 1 else out[0]
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, p), self.ev(e.right, p)
            if isinstance(a, Ref) or isinstance(b, Ref):
                if isinstance(a, Ref) and a.kind == 'set' or isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                    x, y = self.setval(a, p), self.setval(b, p)
                    f = {ast.BitAnd: inter, ast.BitOr: union, ast.Sub: minus}.get(type(e.op))
                    if f:
                        return self.new(p, 'set', f(x, y))
                raise Unsupported('operator on objects')
            if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(e.op, ast.Add):
                return Seq(a.n + b.n, lambda i, a=a, b=b: z3.If(i < a.n, a.get(i), b.get(i - a.n)))
            if z3.is_expr(a) and a.sort() == SET:
                f = {ast.BitAnd: inter, ast.BitOr: union, ast.Sub: minus}.get(type(e.op))
                return self.new(p, 'set', f(a, self.setval(b, p)))
            a, b = self.num(a), self.num(b)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.FloorDiv) and z3.is_int_value(b) and b.as_long() > 0:
                return a / b
            raise Unsupported('operator')
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, p)
            vs = []
            for cond, x in ((c, e.body), (z3.Not(c), e.orelse)):
                q = p.copy()
                q.facts.append(cond)
                vs.append(self.num(self.ev(x, q)))
                self.merge(p, q)
            return z3.If(c, *vs)
        if isinstance(e, ast.Subscript):
            return self.subscript(self.ev(e.value, p), e.slice, p)
        if isinstance(e, ast.Call):
            return self.call(e, p)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) != 1:
                raise Unsupported('comprehension')
            g = e.generators[0]
            it = self.ev(g.iter, p)
            if isinstance(it, Seq) and not g.ifs:
                def get(i, it=it, e=e, g=g, p=p):
                    q = p.copy()
                    q.facts += [i >= 0, i < it.n]
                    self.assign(g.target, it.get(i), q)
                    return self.ev(e.elt, q)
                return Seq(it.n, get)
            if isinstance(it, Keys) and not g.ifs and isinstance(g.target, ast.Name):
                k = self.fresh('key')
                q = p.copy()
                q.facts.append(it.pred(k))
                q.env[g.target.id] = k
                v = self.ev(e.elt, q)
                q.env = p.env
                self.merge(p, q)
                return FamSet(it.pred, k, v)
            raise Unsupported('comprehension')
        if isinstance(e, ast.DictComp):
            if len(e.generators) != 1 or e.generators[0].ifs:
                raise Unsupported('comprehension')
            g = e.generators[0]
            it = self.ev(g.iter, p)
            if isinstance(it, Keys) and isinstance(g.target, ast.Name) and isinstance(e.key, ast.Name) and e.key.id == g.target.id:
                k = self.fresh('key')
                q = p.copy()
                q.facts.append(it.pred(k))
                q.env[g.target.id] = k
                v = self.num(self.ev(e.value, q))
                arr = z3.Lambda([k], v) if not z3.is_int_value(v) else z3.K(I, v)
                return self.new(p, 'dict', arr, keys=it.pred)
            if isinstance(it, Seq):
                # keys of a sequence: the value of a key is that of its last position
                arr = self.fresh('map', ARR)
                i, j = self.fresh('i'), self.fresh('j')
                q = p.copy()
                q.facts += [i >= 0, i < it.n]
                self.assign(g.target, it.get(i), q)
                kx, vx = self.num(self.ev(e.key, q)), self.num(self.ev(e.value, q))
                later = z3.substitute(kx, (i, j))
                self.defs.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it.n, z3.ForAll([j], z3.Implies(z3.And(j > i, j < it.n), later != kx))),
                                                         z3.Select(arr, kx) == vx)))
                kk = self.fresh('k')
                return self.new(p, 'dict', arr, keys=lambda x: z3.Exists([i], z3.And(i >= 0, i < it.n, x == kx)))
            raise Unsupported('comprehension')
        raise Unsupported(type(e).__name__)

    def pick(self, vs, i):
        i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
        if z3.is_int_value(i):
            return vs[i.as_long()]
        r = vs[-1]
        for k, v in reversed(list(enumerate(vs[:-1]))):
            r = z3.If(i == k, v, r)
        return r

    def subscript(self, o, sl, p):
        if isinstance(o, Seq):
            if isinstance(sl, ast.Slice):
                if sl.step is not None:
                    raise Unsupported('step')
                def clip(i):
                    j = z3.If(i < 0, i + o.n, i)
                    return z3.simplify(z3.If(j < 0, 0, z3.If(j > o.n, o.n, j)))
                lo = clip(self.num(self.ev(sl.lower, p))) if sl.lower else z3.IntVal(0)
                hi = clip(self.num(self.ev(sl.upper, p))) if sl.upper else o.n
                return Seq(z3.simplify(z3.If(hi >= lo, hi - lo, 0)), lambda i, o=o, lo=lo: o.get(z3.simplify(i + lo)))
            i = self.num(self.ev(sl, p))
            self.goal('index in range', p, z3.And(i >= -o.n, i < o.n))
            return o.get(z3.simplify(z3.If(i < 0, i + o.n, i)))
        i = self.ev(sl, p)
        if isinstance(o, tuple):
            if z3.is_int_value(i) and -len(o) <= i.as_long() < len(o):
                return o[i.as_long()]
            raise Unsupported('tuple index')
        if isinstance(o, MapV):
            return o.get(self, p, i)
        if isinstance(o, Ref) and o.kind in ('dict', 'mset'):
            c = self.cell(p, o)
            if c.keys is not None:
                self.goal('key present', p, c.keys(i))
            return z3.Select(c.val, i)
        raise Unsupported('subscript')

    def call(self, e, p):
        f = e.func
        if e.keywords:
            raise Unsupported('keyword arguments')
        if isinstance(f, ast.Name):
            n = f.id
            if n == 'print':
                return None
            if n in self.con.globals and callable(self.con.globals[n]):
                return self.con.globals[n](self, p, [self.ev(a, p) for a in e.args])
            if n == self.con.name.split('.')[-1]:
                return self.recur([self.ev(a, p) for a in e.args], p)
            if n == 'len':
                v = self.ev(e.args[0], p)
                if isinstance(v, Seq):
                    return v.n
                if isinstance(v, Obj) and 'len' in v.attrs:
                    return v.attrs['len']
                if isinstance(v, Ref) and v.kind in ('set', 'list'):
                    s = self.setval(v, p)
                    c = self.fresh('len')
                    self.defs += [c >= 0, (c == 0) == (s == EMPTY)]
                    return c
                raise Unsupported('len')
            if n == 'bisect_right' and len(e.args) == 2:
                v, x = self.ev(e.args[0], p), self.num(self.ev(e.args[1], p))
                if isinstance(v, Seq):
                    i, j, r = self.fresh('i'), self.fresh('j'), self.fresh('bisect')
                    self.goal('bisection of a sorted list', p, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < v.n), v.get(i) <= v.get(j))))
                    p.facts += [r >= 0, r <= v.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), v.get(i) <= x)),
                                z3.ForAll([i], z3.Implies(z3.And(i >= r, i < v.n), v.get(i) > x)),
                                z3.Implies(r > 0, v.get(r - 1) <= x), z3.Implies(r < v.n, v.get(r) > x)]
                    return r
            if n == 'set':
                if not e.args:
                    return self.new(p, 'set', EMPTY)
                v = self.ev(e.args[0], p)
                if isinstance(v, FamSet):
                    u = self.fresh('union', SET)
                    x = self.fresh('x')
                    self.defs.append(z3.ForAll([x], isin(x, u) == z3.Exists([v.k], z3.And(v.pred(v.k), isin(x, self.setval(v.val, p)))), patterns=[isin(x, u)]))
                    return self.new(p, 'set', u)
                return self.new(p, 'set', self.setval(v, p))
            if n == 'chain' and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
                return self.ev(e.args[0].value, p)
            if n in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                v = self.ev(e.args[0], p)
                if isinstance(v, FamSet):
                    q = z3.Exists if n == 'any' else z3.ForAll
                    return q([v.k], z3.And(v.pred(v.k), v.val) if n == 'any' else z3.Implies(v.pred(v.k), v.val))
                if isinstance(v, Seq):
                    i = self.fresh('i')
                    b = v.get(i)
                    r = z3.And(i >= 0, i < v.n)
                    return z3.Exists([i], z3.And(r, b)) if n == 'any' else z3.ForAll([i], z3.Implies(r, b))
            if n == 'enumerate':
                v = self.ev(e.args[0], p)
                st = self.num(self.ev(e.args[1], p)) if len(e.args) > 1 else z3.IntVal(0)
                if isinstance(v, Seq):
                    return Seq(v.n, lambda i, v=v, st=st: (z3.simplify(i + st), v.get(i)))
            if n == 'zip' and len(e.args) == 2:
                a, b = self.ev(e.args[0], p), self.ev(e.args[1], p)
                if isinstance(a, Seq) and isinstance(b, Seq):
                    return Seq(z3.simplify(z3.If(a.n <= b.n, a.n, b.n)), lambda i: (a.get(i), b.get(i)))
            if n == 'list' and len(e.args) == 1:
                v = self.ev(e.args[0], p)
                if isinstance(v, (Seq, Keys)):
                    return v
            if n == 'accumulate' and len(e.args) == 1:
                v = self.ev(e.args[0], p)
                if isinstance(v, Seq):
                    acc = z3.Function(f'acc{self.n}', I, I)
                    self.n += 1
                    i = self.fresh('i')
                    self.defs += [z3.Implies(v.n > 0, acc(0) == v.get(z3.IntVal(0))),
                                z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < v.n), acc(i) == acc(i - 1) + v.get(i)), patterns=[acc(i)])]
                    return Seq(v.n, lambda i, acc=acc: acc(i))
            if n == 'range' and len(e.args) in (1, 2):
                a = [self.num(self.ev(x, p)) for x in e.args]
                lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
                return Seq(z3.simplify(z3.If(hi >= lo, hi - lo, 0)), lambda i, lo=lo: z3.simplify(lo + i))
            raise Unsupported('call of ' + n)
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, p)
            m = f.attr
            if isinstance(o, Obj) and m == self.con.name.split('.')[-1] and o is p.env.get('self'):
                return self.recur([o] + [self.ev(a, p) for a in e.args], p)
            if isinstance(o, Obj) and m in o.methods:
                return o.methods[m](self, p, [self.ev(a, p) for a in e.args])
            if isinstance(o, MapV) and m == 'keys' and o.keys:
                return Keys(o.keys)
            if isinstance(o, Ref):
                c = self.cell(p, o)
                args = [self.ev(a, p) for a in e.args]
                if o.kind == 'set':
                    if m == 'pop' and not args:
                        self.goal('pop from a non-empty set', p, c.val != EMPTY)
                        t = self.fresh('popped')
                        self.popped.append(t)
                        p.facts.append(isin(t, c.val))
                        self.put(p, o, z3.Store(c.val, t, z3.BoolVal(False)))
                        return t
                    if m == 'add':
                        self.put(p, o, z3.Store(c.val, self.num(args[0]), z3.BoolVal(True)))
                        return None
                    if m == 'remove':
                        self.goal('removed element is present', p, isin(args[0], c.val))
                        self.put(p, o, z3.Store(c.val, self.num(args[0]), z3.BoolVal(False)))
                        return None
                    if m == 'discard':
                        self.put(p, o, z3.Store(c.val, self.num(args[0]), z3.BoolVal(False)))
                        return None
                    fs = {'intersection': inter, 'union': union, 'difference': minus}
                    if m in fs and len(args) == 1:
                        return self.new(p, 'set', fs[m](c.val, self.setval(args[0], p)))
                    if m == 'copy':
                        return self.new(p, 'set', c.val)
                    if m in ('issubset', 'issuperset', 'isdisjoint'):
                        y = self.setval(args[0], p)
                        return {'issubset': lambda: subset(c.val, y), 'issuperset': lambda: subset(y, c.val),
                                'isdisjoint': lambda: inter(c.val, y) == EMPTY}[m]()
                if o.kind == 'list':
                    if m == 'append':
                        x = self.num(args[0])
                        self.goal('a list of distinct elements', p, z3.Not(isin(x, self.setval(o, p))))
                        self.put(p, o, appended=c.appended + (x,))
                        return None
                    if m == 'pop' and not args and c.appended:
                        self.put(p, o, appended=c.appended[:-1])
                        return c.appended[-1]
                    if m == 'copy':
                        return self.new(p, 'list', c.val, appended=c.appended)
                if o.kind == 'dict' and m == 'keys':
                    return Keys(c.keys)
            raise Unsupported('method ' + m)
        raise Unsupported('call')

    def recur(self, args, p):
        con = self.con
        if con.family is None:
            raise Unsupported('recursion')
        for n, f in enumerate(con.requires(self, p, args)):
            self.goal(f'precondition {n + 1} of the recursive call', p, f)
        a, b = con.measure(self, p, args), con.measure(self, self.entry, self.args)
        self.goal('recursion ends', p, z3.And(subset(a, b), a != b))
        return GenVal(con.family(self, p, args))

    # ---------------------------------------------------------------- statements
    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Seq) and z3.is_int_value(v.n):
                v = tuple(v.get(z3.IntVal(i)) for i in range(v.n.as_long()))
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, v):
                self.assign(x, y, p)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, p)
            k = self.num(self.ev(t.slice, p))
            if isinstance(o, Ref) and o.kind == 'dict':
                c = self.cell(p, o)
                keys = c.keys
                self.put(p, o, z3.Store(c.val, k, self.num(v)), keys=(None if keys is None else (lambda x, keys=keys, k=k: z3.Or(keys(x), x == k))))
                return
            raise Unsupported('assignment to an element')
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, p)
            if o is p.env.get('self') and isinstance(o, Obj):
                o.attrs[t.attr] = v
                return
            raise Unsupported('assignment to an attribute')
        else:
            raise Unsupported('assignment')

    def hand_out(self, v, p):
        if not isinstance(v, Ref):
            raise Unsupported('yield')
        p.count = p.count + [self.setval(v, p) == self.X]

    def block(self, stmts, p, k):
        if not stmts:
            return k(p)
        s, rest = stmts[0], stmts[1:]
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return self.block(rest, p, k)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            self.hand_out(self.ev(s.value.value, p), p)
            return self.block(rest, p, k)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, p)
            if not isinstance(v, GenVal):
                raise Unsupported('yield from')
            p.count = p.count + [v.times]
            return self.block(rest, p, k)
        if isinstance(s, ast.Expr):
            # d[i].add(j) on a map of sets
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add' and isinstance(c.func.value, ast.Subscript):
                o = self.ev(c.func.value.value, p)
                if isinstance(o, Ref) and o.kind == 'mset':
                    i = self.num(self.ev(c.func.value.slice, p))
                    x = self.num(self.ev(c.args[0], p))
                    m = self.cell(p, o).val
                    self.put(p, o, z3.Store(m, i, z3.Store(z3.Select(m, i), x, z3.BoolVal(True))))
                    return self.block(rest, p, k)
            self.ev(c, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, p)
            for t in s.targets:
                self.assign(t, v, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                o = p.env.get(s.target.id)
                if isinstance(o, Ref) and o.kind == 'set':
                    f = {ast.BitAnd: inter, ast.BitOr: union, ast.Sub: minus}.get(type(s.op))
                    if f is None:
                        raise Unsupported('set operator')
                    self.put(p, o, f(self.cell(p, o).val, self.setval(self.ev(s.value, p), p)))
                    return self.block(rest, p, k)
                if isinstance(o, Ref):
                    raise Unsupported('in-place operator')
            t = ast.Name(s.target.id, ast.Load()) if isinstance(s.target, ast.Name) else ast.Subscript(s.target.value, s.target.slice, ast.Load())
            v = self.ev(ast.BinOp(t, s.op, s.value), p)
            self.assign(s.target, v, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.If):
            c = self.ev(s.test, p)
            if isinstance(c, Ref):
                c = self.setval(c, p) != EMPTY
            if not z3.is_bool(c):
                raise Unsupported('condition')
            for cond, body in ((c, s.body), (z3.Not(c), s.orelse)):
                q = p.copy()
                q.facts.append(cond)
                if self.feasible(q):
                    self.block(list(body), q, lambda r: self.block(rest, r, k))
            return
        if isinstance(s, ast.Return):
            v = self.ev(s.value, p) if s.value is not None else None
            if isinstance(v, GenVal):
                p.count = p.count + [v.times]
                return self.finish(p, None)
            return self.finish(p, v)
        if isinstance(s, ast.Continue):
            return self.cont(p)
        if isinstance(s, ast.For):
            return self.loop(s, rest, p, k)
        raise Unsupported(type(s).__name__)

    def feasible(self, p):
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(p.facts + self.defs)
        return s.check() != z3.unsat

    def touched(self, stmts, p):
        """names assigned and cells changed in the statements"""
        names, cells = set(), set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, (ast.YieldFrom, ast.Yield)):
                    raise Unsupported('yield in a loop')
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.For, ast.comprehension)) else []
                for t in ts:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            if isinstance(t, ast.Name) or isinstance(t, ast.Tuple):
                                names.add(y.id)
                            v = p.env.get(y.id)
                            if isinstance(v, Ref):
                                cells.add(v.cell)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    for y in ast.walk(x.func.value):
                        if isinstance(y, ast.Name) and isinstance(p.env.get(y.id), Ref):
                            cells.add(p.env[y.id].cell)
        return names, cells

    def loop(self, s, rest, p, k):
        if s.orelse:
            raise Unsupported('loop else')
        no = self.loop_no[s]
        inv = self.con.loops[no]
        it = self.ev(s.iter, p)
        names, cells = self.touched(s.body, p)
        isset = isinstance(it, Ref) and it.kind == 'set'
        if isset:
            if it.cell in cells:
                raise Unsupported('the set iterated over is changed')
            whole = self.cell(p, it).val
        elif not isinstance(it, Seq):
            raise Unsupported('loop over ' + type(it).__name__)

        def invs(q, pos):
            try:
                return inv(self, q, pos)
            except KeyError as x:
                raise Unsupported(f'the invariant of loop {no} needs {x}')
        start = EMPTY if isset else z3.IntVal(0)
        for n, f in enumerate(invs(p, start)):
            self.goal(f'loop {no} invariant {n + 1} on entry', p, f)
        h = p.copy()
        for c in cells:
            if c not in h.heap:
                continue
            o = h.heap[c]
            if o.appended:
                raise Unsupported('list changed in a loop')
            h.heap[c] = Cell(self.fresh('h', o.val.sort()), o.keys)
        for x in names:
            if x in h.env and z3.is_expr(h.env[x]):
                h.env[x] = self.fresh(x, h.env[x].sort())
            elif x in h.env and not isinstance(h.env[x], Ref):
                h.env.pop(x)
        pos = self.fresh('visited', SET) if isset else self.fresh('pos')
        h.facts.append(subset(pos, whole) if isset else z3.And(pos >= 0, pos <= it.n))
        h.facts += invs(h, pos)
        b = h.copy()
        if isset:
            x = self.fresh('item')
            b.facts.append(z3.And(isin(x, whole), z3.Not(isin(x, pos))))
            nxt = z3.Store(pos, x, z3.BoolVal(True))
            self.steps.append((pos, x))
        else:
            b.facts.append(pos < it.n)
            x = it.get(pos)
            nxt = z3.simplify(pos + 1)
        self.assign(s.target, x, b)
        old = getattr(self, 'cont', None)

        def again(r):
            for n, f in enumerate(invs(r, nxt)):
                self.goal(f'loop {no} invariant {n + 1} after an iteration', r, f)
        self.cont = again
        self.pos[no] = pos
        if self.feasible(b):
            self.block(list(s.body), b, again)
        self.cont = old
        h.facts.append(pos == (whole if isset else it.n))
        self.block(rest, h, k)

    def exactly(self, p, fam):
        """X is handed out once if it is in the family, otherwise never"""
        t0 = time.time()
        name = f'{self.con.name}: every member of the family is handed out exactly once and nothing else'
        parts = lambda f: f.children() if z3.is_and(f) else [f]
        hints = self.con.hints(self, p)
        base = p.facts + self.defs

        def pv(hyps, f, ms):
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(base + hyps + hints)
            s.add(z3.Not(f))
            return s.check() == z3.unsat
        ms = self.pr.ms
        bad = ''
        cases = [[]]
        for t in self.popped:
            cases = [c + [l] for c in cases for l in (isin(t, self.X), z3.Not(isin(t, self.X)))]
        for i, a in enumerate(p.count):
            for b in p.count[:i]:
                if not bad and not all(pv(c + [a, b], z3.BoolVal(False), ms) for c in cases):
                    bad = 'the same set may be handed out twice'
            for n, f in enumerate(parts(fam)):
                if not bad and not all(pv(c + [a], f, ms) for c in cases):
                    bad = f'a set that does not satisfy condition {n + 1} of the family may be handed out'
        for c in cases:
            if bad:
                break
            if pv(c + [fam], z3.BoolVal(False), 300):
                continue
            self.live = True
            if not any(all(pv(c + [fam], f, m) for f in parts(a)) for m in (700, ms) for a in p.count):
                bad = 'a member of the family may be missed'
        self.pr.results.append((name, 'unknown' if bad else 'discharged', bad))
        self.pr.time += time.time() - t0
        self.pr.times.append((round(time.time() - t0, 2), name, 0))

    def finish(self, p, v):
        con = self.con
        if con.family is not None:
            self.exactly(p, con.family(self, self.entry, self.args))
        for name in self.fn_args:
            v0 = self.entry.env[name]
            if isinstance(v0, Ref):
                c0, c1 = self.entry.heap[v0.cell], p.heap[v0.cell]
                if c0.val is not c1.val:
                    self.goal(f'{name} is left as it was', p, c0.val == c1.val)
                if len(c0.appended) != len(c1.appended) or any(not x.eq(y) for x, y in zip(c0.appended, c1.appended)):
                    self.pr.results.append((f'{con.name}: {name} is left as it was', 'unknown', 'a different list'))
                    self.pr.times.append((0, '', 0))
        if con.at_return is not None:
            for n, f in con.at_return(self, p, v):
                self.goal(n, p, f)

    def run(self):
        p = Path({}, {}, [], [])
        env, facts = self.con.start(self, p)
        self.fn_args = [a.arg for a in self.fn.args.args]
        ds = self.fn.args.defaults
        for a, d in zip(self.fn_args[len(self.fn_args) - len(ds):], ds):
            if a not in env:
                raise Unsupported('default argument')
        if set(self.fn_args) != set(env) or self.fn.args.vararg or self.fn.args.kwonlyargs:
            raise Unsupported(f'parameters of {self.con.name}')
        p.env.update(env)
        p.facts += facts
        self.entry = p.copy()
        self.args = [env[a] for a in self.fn_args]
        if self.con.requires:
            p.facts += self.con.requires(self, p, self.args)
            self.entry = p.copy()
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(p.facts)
        if s.check() == z3.unsat:
            raise Unsupported('vacuous: the precondition is contradictory')
        self.block(list(self.fn.body), p, lambda q: self.finish(q, None))
        if self.con.family is not None and not self.live:
            self.pr.results.append((f'{self.con.name}: the family is not empty', 'unknown', 'vacuous: no path admits a member of the family'))
            self.pr.times.append((0, '', 0))

"""Deductive verifier for loops over integer arrays: symbolic execution of a function parsed from /repo, with loop
invariants, ghost functions on finite segments of an array, and lemmas proved by induction.

A list of totally ordered elements is an array of integers (the order of indices is proved total in C01), an offset and a
length.  Subset: assignments, +=, if, while, for over range(n), continue, return, yield of a slice, calls of functions
under contract.  Anything else is Unsupported.  Obligations: every subscript in range, precondition of every call, each
loop invariant on entry and after each iteration, a variant for recursion and while, the postcondition at each return."""
import ast
import os
import time

import z3

from values import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
I = z3.IntSort()
A = z3.ArraySort(I, I)
K0 = z3.K(I, z3.IntVal(0))
# ghost functions of a segment [lo, hi) of an array
MS = z3.Function('ms', A, I, I, A)          # multiset: element -> multiplicity
SUM = z3.Function('seg_sum', A, I, I, I)
INV = z3.Function('inversions', A, I, I, I)
GT = z3.Function('greater', A, I, I)        # number of elements of a multiset greater than v
CROSS = z3.Function('cross', A, A, I)       # number of pairs (x in M, y in N) with x > y
PLUS = z3.Function('plus', I, I, I)


def munion(m, n):
    return z3.Map(z3.Function('plus', I, I, I), m, n)


class LV:
    """a list: array, offset, length"""
    def __init__(self, arr, off, n):
        self.arr, self.off, self.n = arr, off, n

    def __getitem__(self, i):
        return z3.Select(self.arr, z3.simplify(self.off + i))

    @property
    def ms(self):
        return MS(self.arr, self.off, z3.simplify(self.off + self.n))

    def part(self, lo, hi):
        return MS(self.arr, z3.simplify(self.off + lo), z3.simplify(self.off + hi))

    def sum(self, hi):
        return SUM(self.arr, self.off, z3.simplify(self.off + hi))

    def sorted(self, hi=None):
        i, j = z3.Ints('i! j!')
        n = self.n if hi is None else hi
        return z3.ForAll([i, j], z3.Implies(z3.And(self.off <= i, i < j, j < self.off + n), z3.Select(self.arr, i) <= z3.Select(self.arr, j)))


def subterms(es):
    seen, out, st = set(), [], list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        out.append(e)
        if z3.is_quantifier(e):
            continue                                    # bound variables: no ground instances
        st.extend(e.children())
    return out


def ground(e):
    return not any(z3.is_var(x) for x in subterms([e]))


def instances(es, done):
    """instances of the defining equations of the ghost functions for the terms that occur"""
    out = []

    def add(key, f):
        if key not in done:
            done.add(key)
            out.append(f)
    for e in subterms(es):
        if not z3.is_app(e):
            continue
        d = e.decl().name()
        if d in ('ms', 'seg_sum', 'inversions') and e.num_args() == 3:
            a, lo, hi = e.children()
            k = z3.simplify(hi - 1)
            last = z3.Select(a, k)
            f = {'ms': MS, 'seg_sum': SUM, 'inversions': INV}[d]
            if d == 'ms':
                m = MS(a, lo, k)
                add((e.get_id(), 'u'), z3.If(hi <= lo, e == K0, e == z3.Store(m, last, z3.Select(m, last) + 1)))
            elif d == 'seg_sum':
                add((e.get_id(), 'u'), z3.If(hi <= lo, e == 0, e == SUM(a, lo, k) + last))
            else:
                add((e.get_id(), 'u'), z3.If(hi <= lo, e == 0, e == INV(a, lo, k) + GT(MS(a, lo, k), last)))
            if a.decl().kind() == z3.Z3_OP_STORE:
                b, p, _ = a.children()
                add((e.get_id(), 'f'), z3.Implies(z3.Or(p < lo, p >= hi), e == f(b, lo, hi)))
        elif d == 'greater':
            m, v = e.children()
            if m.decl().name() == 'ms':
                a, lo, hi = m.children()
                k = z3.simplify(hi - 1)
                add((e.get_id(), 'u'), z3.If(hi <= lo, e == 0, e == GT(MS(a, lo, k), v) + z3.If(z3.Select(a, k) > v, 1, 0)))
        elif d == 'cross':
            m, n = e.children()
            if n.decl().name() == 'ms':
                a, lo, hi = n.children()
                k = z3.simplify(hi - 1)
                add((e.get_id(), 'u'), z3.If(hi <= lo, e == 0, e == CROSS(m, MS(a, lo, k)) + GT(m, z3.Select(a, k))))
    return out


class Prover:
    def __init__(self, ms=15000):
        self.ms = ms
        self.time = 0.0
        self.times = []
        self.results = []           # (name, status, detail)

    def prove(self, name, hyps, goal, rounds=2, hints=()):
        t = time.time()
        hyps = list(hyps) + list(hints)
        i, j = z3.Ints('pi pj')
        base = hyps + [z3.ForAll([i, j], PLUS(i, j) == i + j), z3.Not(goal)]
        r, s = z3.unknown, None
        for n in range(rounds + 1):
            s = z3.Solver()
            s.set('timeout', (1500, 4000, self.ms)[min(n, 2)])
            fs = list(base)
            done = set()
            new = fs
            for _ in range(n):
                new = instances(fs, done)
                fs = fs + new
            s.add(fs)
            r = s.check()
            if r == z3.unsat:
                break
        self.time += time.time() - t
        self.times.append((round(time.time() - t, 2), name, n))
        st = 'discharged' if r == z3.unsat else 'unknown'
        self.results.append((name, st, '' if st == 'discharged' else f'z3: {r} ' + (s.reason_unknown() if r == z3.unknown else 'no proof of the obligation was found')))
        return st == 'discharged'


class Return(Exception):
    pass


class Path:
    def __init__(self, env, facts):
        self.env, self.facts = dict(env), list(facts)

    def copy(self):
        p = Path(self.env, self.facts)
        return p


class Contract:
    """requires(args) -> [formula]; ensures(args, result) -> [formula]; result(fresh) -> value; loops: {n: invariant}
    measure(args) -> integer term for recursion"""

    def __init__(self, name, path, args, requires, ensures=None, result=None, loops=None, variants=None, measure=None, hints=None,
                 at_yield=None, ghost=None, after_loop=None):
        self.name, self.path, self.args, self.requires, self.ensures = name, path, args, requires, ensures
        self.result, self.loops, self.variants, self.measure = result, loops or {}, variants or {}, measure
        self.hints = hints or (lambda where, env: [])
        self.at_yield = at_yield
        self.ghost = ghost or {}


class LoopVerifier:
    def __init__(self, con, contracts, prover):
        self.con, self.contracts, self.pr = con, contracts, prover
        src = open(os.path.join(REPO, con.path)).read()
        tree = ast.parse(src)
        fn = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == con.name.split('.')[-1]]
        if '.' in con.name:
            cl = [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == con.name.split('.')[0]]
            fn = [x for c in cl for x in c.body if isinstance(x, ast.FunctionDef) and x.name == con.name.split('.')[1]]
        if len(fn) != 1:
            raise Unsupported(f'{con.name} is not in {con.path}')
        self.fn = fn[0]
        self.n = 0
        self.loop_no = {}
        for x in ast.walk(self.fn):
            if isinstance(x, (ast.For, ast.While)):
                pass
        def number(stmts):
            for s in stmts:
                if isinstance(s, (ast.For, ast.While)):
                    self.loop_no[s] = len(self.loop_no)
                for f in ('body', 'orelse'):
                    if hasattr(s, f) and not isinstance(s, ast.FunctionDef):
                        number(getattr(s, f))
        number(self.fn.body)
        if len(self.loop_no) != len(con.loops):
            raise Unsupported(f'{con.name} has {len(self.loop_no)} loops, its contract {len(con.loops)} invariants')

    def fresh(self, name, sort=I):
        self.n += 1
        return z3.Const(f'{name}${self.n}', sort)

    def goal(self, what, p, f, where=''):
        self.pr.prove(f'{self.con.name}: {what}', p.facts, f, hints=self.con.hints(where or what, p.env))

    # -------------------------------------------------- expressions
    def ev(self, e, p):
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return z3.IntVal(e.value)
        if isinstance(e, ast.Name):
            if e.id not in p.env:
                raise Unsupported(f'name {e.id}')
            return p.env[e.id]
        if isinstance(e, ast.BinOp):
            a = self.ev(e.left, p) if not isinstance(e.left, ast.List) else e.left
            if isinstance(e.left, ast.List) and isinstance(e.op, ast.Mult) and len(e.left.elts) == 1:
                v = self.ev(e.left.elts[0], p)
                n = self.ev(e.right, p)
                return LV(z3.K(I, v), z3.IntVal(0), z3.If(n >= 0, n, 0))
            b = self.ev(e.right, p)
            if isinstance(a, LV) or isinstance(b, LV):
                raise Unsupported('arithmetic on lists')
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.FloorDiv):
                if not (z3.is_int_value(b) and b.as_long() > 0):
                    raise Unsupported('division')
                return a / b
            raise Unsupported(ast.dump(e.op))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.ev(e.operand, p)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, p), self.ev(e.comparators[0], p)
            if isinstance(a, LV) or isinstance(b, LV):
                raise Unsupported('comparison of lists')
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(e.ops[0])]()
        if isinstance(e, ast.BoolOp):
            vs, q = [], p.copy()
            for v in e.values:
                vs.append(self.ev(v, q))
                q.facts.append(vs[-1] if isinstance(e.op, ast.And) else z3.Not(vs[-1]))
            return z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return z3.Not(self.ev(e.operand, p))
        if isinstance(e, ast.Subscript):
            l = self.ev(e.value, p)
            if not isinstance(l, LV):
                raise Unsupported('subscript')
            if isinstance(e.slice, ast.Slice):
                if e.slice.step is not None:
                    raise Unsupported('step')
                lo = self.clip(self.ev(e.slice.lower, p), l.n) if e.slice.lower else z3.IntVal(0)
                hi = self.clip(self.ev(e.slice.upper, p), l.n) if e.slice.upper else l.n
                return LV(l.arr, z3.simplify(l.off + lo), z3.simplify(z3.If(hi >= lo, hi - lo, 0)))
            i = self.ev(e.slice, p)
            return z3.Select(l.arr, z3.simplify(l.off + self.index(i, l, p)))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
                l = self.ev(e.args[0], p)
                if not isinstance(l, LV):
                    raise Unsupported('len')
                return l.n
            if isinstance(e.func, ast.Name) and e.func.id in ('min', 'max') and len(e.args) == 2 and not e.keywords:
                a, b = self.ev(e.args[0], p), self.ev(e.args[1], p)
                if isinstance(a, LV) or isinstance(b, LV):
                    raise Unsupported('min of lists')
                return z3.If(a <= b, a, b) if e.func.id == 'min' else z3.If(a >= b, a, b)
            if isinstance(e.func, ast.Name) and e.func.id in self.contracts and not e.keywords:
                return self.call(self.contracts[e.func.id], [self.ev(a, p) for a in e.args], p)
            raise Unsupported('call ' + ast.dump(e.func)[:60])
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, p)
            vs = []
            for cond, x in ((c, e.body), (z3.Not(c), e.orelse)):
                q = p.copy()
                q.facts.append(cond)
                vs.append(self.ev(x, q))
            if any(isinstance(v, (LV, tuple)) for v in vs):
                raise Unsupported('conditional list')
            return z3.If(c, vs[0], vs[1])
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, p) for x in e.elts)
        raise Unsupported(type(e).__name__)

    def clip(self, i, n):
        j = z3.If(i < 0, i + n, i)
        return z3.If(j < 0, 0, z3.If(j > n, n, j))

    def index(self, i, l, p):
        ok = z3.And(i >= -l.n, i < l.n)
        self.goal('index in range', p, ok)
        p.facts.append(ok)
        return z3.If(i < 0, i + l.n, i)

    def call(self, c, args, p):
        if len(args) != len(c.args):
            raise Unsupported('arguments of ' + c.name)
        for f in c.requires(*args):
            self.goal(f'precondition of {c.name}', p, f)
        if c is self.con:
            if c.measure is None:
                raise Unsupported('recursion without a measure')
            m, m0 = c.measure(*args), c.measure(*[self.args[a] for a in c.args])
            self.goal('recursion ends', p, z3.And(m >= 0, m < m0))
        r = c.result(self.fresh)
        p.facts.extend(c.ensures(args, r))
        return r

    # -------------------------------------------------- statements
    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, ast.Tuple):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, v):
                self.assign(x, y, p)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice):
            name = t.value.id
            l = p.env.get(name)
            if not isinstance(l, LV) or name in self.args:
                raise Unsupported('assignment to an element of an argument')
            if any(k != name and isinstance(w, LV) and w is l for k, w in p.env.items()):
                raise Unsupported('aliased list')
            if isinstance(v, LV):
                raise Unsupported('list of lists')
            i = self.index(self.ev(t.slice, p), l, p)
            p.env[name] = LV(z3.Store(l.arr, z3.simplify(l.off + i), v), l.off, l.n)
        else:
            raise Unsupported('assignment')

    def block(self, stmts, p, k):
        """execute and hand every path that falls through to k(path); loops give k_continue by self.cont"""
        if not stmts:
            return k(p)
        s, rest = stmts[0], stmts[1:]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return self.block(rest, p, k)
        if isinstance(s, ast.Pass):
            return self.block(rest, p, k)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            v = s.value.value
            if self.con.at_yield is None or not (isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice)):
                raise Unsupported('yield')
            val = self.ev(v, p)
            self.con.at_yield(self, p, val)
            return self.block(rest, p, k)
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            v = self.ev(s.value, p)
            if isinstance(s.value, ast.Name) and isinstance(v, LV):
                v = LV(v.arr, v.off, v.n)
                raise Unsupported('aliased list')
            self.assign(s.targets[0], v, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                e = ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)
            else:
                raise Unsupported('augmented assignment')
            self.assign(s.target, self.ev(e, p), p)
            return self.block(rest, p, k)
        if isinstance(s, ast.If):
            c = self.ev(s.test, p)
            for cond, body in ((c, s.body), (z3.Not(c), s.orelse)):
                q = p.copy()
                q.facts.append(cond)
                if not self.feasible(q):
                    continue
                self.block(list(body), q, lambda r: self.block(rest, r, k))
            return
        if isinstance(s, ast.Return):
            v = self.ev(s.value, p) if s.value is not None else None
            if self.con.ensures is None:
                return
            for n, f in enumerate(self.con.ensures([self.args[a] for a in self.con.args], v)):
                self.goal(f'postcondition {n + 1}', p, f, 'post')
            return
        if isinstance(s, ast.Continue):
            return self.cont(p)
        if isinstance(s, ast.Break):
            return self.brk(p)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, rest, p, k)
        raise Unsupported(type(s).__name__)

    def feasible(self, p):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(p.facts)
        return s.check() != z3.unsat

    def modified(self, stmts):
        names, elems = set(), set()
        for s in stmts:
            for x in ast.walk(s):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.For)) else []
                for t in ts:
                    for y in ast.walk(t) if isinstance(t, ast.Tuple) else [t]:
                        if isinstance(y, ast.Name):
                            names.add(y.id)
                        elif isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name):
                            elems.add(y.value.id)
        return names, elems

    def loop(self, s, rest, p, k):
        if s.orelse:
            raise Unsupported('loop else')
        no = self.loop_no[s]
        inv = self.con.loops[no]
        names, elems = self.modified(s.body)
        counter = None
        if isinstance(s, ast.For):
            if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and
                    len(s.iter.args) == 1 and isinstance(s.target, ast.Name)):
                raise Unsupported('for loop')
            counter = s.target.id
            if counter in names:
                raise Unsupported('loop counter assigned')
            top = self.ev(s.iter.args[0], p)
            q = p.copy()
            q.env[counter] = z3.IntVal(0)
        else:
            q = p

        def invs(env):
            try:
                return inv(env, self.args)
            except KeyError as x:
                raise Unsupported(f'the invariant of loop {no} needs {x}')
        for n, f in enumerate(invs(q.env)):
            self.goal(f'loop {no} invariant {n + 1} on entry', q, f, f'loop{no}')
        # an arbitrary iteration
        h = q.copy()
        for x in sorted(names | elems):
            if x in h.env:
                v = h.env[x]
                if isinstance(v, LV):
                    if x in names:
                        raise Unsupported('list reassigned in a loop')
                    h.env[x] = LV(self.fresh(x, A), v.off, v.n)
                elif isinstance(v, tuple):
                    raise Unsupported('tuple in a loop')
                else:
                    h.env[x] = self.fresh(x)
        for x in list(h.env):
            if x.startswith('ghost_'):
                v = h.env[x]
                h.env[x] = LV(self.fresh(x, A), self.fresh(x + 'o'), self.fresh(x + 'n')) if isinstance(v, LV) else self.fresh(x)
        if counter:
            kk = self.fresh(counter)
            h.env[counter] = kk
            h.facts += [kk >= 0, kk <= z3.If(top >= 0, top, 0)]
        h.facts += invs(h.env)
        b = h.copy()
        if counter:
            b.facts.append(kk < top)
        else:
            b.facts.append(self.ev(s.test, b))
        entry = dict(b.env)
        old = getattr(self, 'cont', None)

        def again(r):
            e = dict(r.env)
            if counter:
                e[counter] = kk + 1
            r2 = Path(e, r.facts)
            for n, f in enumerate(invs(e)):
                self.goal(f'loop {no} invariant {n + 1} after an iteration', r2, f, f'loop{no}')
            if no in self.con.variants:
                v = self.con.variants[no]
                self.goal(f'loop {no} ends', r2, z3.And(v(entry) >= 0, v(e) < v(entry)))
        old_brk = getattr(self, 'brk', None)

        def leave(r):
            c, d = self.cont, self.brk
            self.cont, self.brk = old, old_brk
            self.block(rest, r, k)
            self.cont, self.brk = c, d
        self.cont, self.brk = again, leave
        if self.feasible(b):
            self.block(list(s.body), b, again)
        self.cont, self.brk = old, old_brk
        # after the loop
        a = h
        if counter:
            a.facts.append(kk >= top)
            a.env[counter] = kk - 1
        else:
            a.facts.append(z3.Not(self.ev(s.test, a)))
        self.block(rest, a, k)

    def run(self):
        self.args = {}
        p = Path({}, [])
        names = [a.arg for a in self.fn.args.args]
        if names != list(self.con.args) or self.fn.args.defaults:
            raise Unsupported(f'parameters of {self.con.name}: {names}')
        for a, kind in self.con.args.items():
            self.args[a] = self.fresh(a) if kind == 'int' else LV(self.fresh(a, A), z3.IntVal(0), self.fresh(a + '_n'))
            if kind != 'int':
                p.facts.append(self.args[a].n >= 0)
        p.env.update(self.args)
        for g, mk in self.con.ghost.items():
            p.env['ghost_' + g] = mk(self)
        p.facts += self.con.requires(*self.args.values())

        def end(q):
            if self.con.ensures is not None and self.con.at_yield is None:
                self.pr.results.append((f'{self.con.name}: returns a value', 'unknown', 'a path ends without return'))
            elif self.con.at_yield is not None:
                for n, f in enumerate(self.con.ensures([self.args[a] for a in self.con.args], q.env) if self.con.ensures else []):
                    self.goal(f'at the end {n + 1}', q, f, 'post')
        self.block(list(self.fn.body), p, end)

"""Symbolic interpreter of the Python subset used by dsrg_generator: it executes the functions parsed from /repo on
symbolic arguments of unbounded size and hands the proof obligations of their contracts to z3.

A path is a sequence of decisions on symbolic conditions; `explore` runs a thunk once for every feasible sequence.
A loop over a list of symbolic length is executed once at an arbitrary position k and summarised: the appended
elements, dictionary updates, sums and flags become families indexed by k; an exit from the loop is taken at the
first position that satisfies its condition.  What cannot be treated exactly raises Unsupported (never guessed)."""
import ast
import builtins as pybuiltins
import os
import time
from fractions import Fraction

import z3

from values import *

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'dsrg_generator'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def S(e):
    return z3.simplify(e)


def I(v):
    return v if z3.is_expr(v) else z3.IntVal(v)


INEXACT = {'sum', 'fd', 'card', 'sometext', 'textlen', 'text_lt', 'str_real', 'factorial', 'sqrt', 'is_digits', 'digits_value',
           'text_head', 'text_tail', 'is_empty', 'text', 'time', 'opaque', 'abs', 'sorted', 'inv'}


class Ctx:
    def __init__(self, prefix, mark):
        self.prefix = prefix
        self.trace = []
        self.mark = mark            # objects born before are shared with the other paths
        self.guards = []            # decided literals
        self.facts = []             # other assumptions of this path
        self.journal = {}           # id -> (object, old state)
        self.reads = set()
        self.new = []               # alternative prefixes found


class Result:
    def __init__(self, guards, facts, kind, value, writes, reads):
        self.guards, self.facts, self.kind, self.value, self.writes, self.reads = guards, facts, kind, value, writes, reads

    @property
    def guard(self):
        return z3.And(*self.guards) if len(self.guards) > 1 else (self.guards[0] if self.guards else TRUE)


class Engine:
    FEAS_MS = 400

    def __init__(self):
        self.tickno = 0
        self.freshno = 0
        self.ctxs = []
        self.binders = []           # active binder constants
        self.qf = z3.Solver()       # quantifier-free part of the current assumptions
        self.qf.set('timeout', self.FEAS_MS)
        self.facts = []             # all assumptions of the current path, outermost first
        self.exact = True
        self.solver_time = 0.0
        self.n_queries = 0
        self.modules = {}
        self.contracts = {}
        self.under_proof = set()
        self.used_contracts = set()
        self.inlined = set()
        self.touched = {}           # functions of /repo executed: name -> syntax tree
        self.members = {}
        self.memo = {}
        self.keep = []
        self.sums = {}              # handle name -> (n, k, body)
        self.sorted_src = {}        # name of a sorted list -> (family, space, number)
        self.assumed = set()
        self.depth = 0
        self.deadline = None
        import builtin_lib
        self.lib = builtin_lib.Lib(self)

    # ------------------------------------------------------------------ basics
    def tick(self):
        self.tickno += 1
        return self.tickno

    def fresh(self, name, sort=None, binders=True):
        """a fresh constant, or a function of the active binders"""
        self.freshno += 1
        sort = z3.IntSort() if sort is None else sort
        nm = f"{name}!{self.freshno}"
        if binders and self.binders:
            f = z3.Function(nm, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(nm, sort)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = S(f) if not has_quant(f) else f
        if z3.is_true(f):
            return
        if self.ctxs:
            self.ctxs[-1].facts.append(f)
        self._add(f)
        if z3.is_false(f):
            raise Infeasible()

    def _add(self, f):
        self.facts.append(f)
        if not has_quant(f):
            self.qf.add(f)

    def feasible(self, f):
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if has_quant(f):
            return True
        t = time.time()
        self.n_queries += 1
        r = self.qf.check(f)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def decide(self, c):
        """the truth value of a condition on this path"""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.e
        if not has_quant(c):
            c = S(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.ctxs:
            raise Unsupported('decision outside an exploration')
        x = self.ctxs[-1]
        i = len(x.trace)
        if has_quant(c):
            for f in self.facts:
                if f.eq(c):
                    return True
                if z3.is_not(f) and f.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(f):
                    return False
        nc = S(z3.Not(c)) if not has_quant(c) else neg(c)
        if i < len(x.prefix):
            b, forced = x.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the exploration')
            t_ok = self.feasible(c)
            f_ok = self.feasible(nc)
            if not t_ok and not f_ok:
                raise Infeasible()
            forced = not (t_ok and f_ok)
            b = t_ok
            if not forced:
                x.new.append(x.trace + [(False, False)])
        x.trace.append((b, forced))
        lit = c if b else nc
        if not forced:
            x.guards.append(lit)
            self._add(lit)
        return b

    def explore(self, thunk, limit=4000):
        """run thunk on every feasible path; the effects on older objects are recorded and undone"""
        out = []
        work = [[]]
        mark = self.tickno
        while work:
            prefix = work.pop()
            x = Ctx(prefix, mark)
            nf = len(self.facts)
            self.qf.push()
            self.ctxs.append(x)
            kind = value = None
            try:
                try:
                    kind, value = 'ok', thunk()
                except PyRaise as e:
                    kind, value = 'raise', e
                except ReturnSig as e:
                    kind, value = 'return', e.v
                except BreakSig:
                    kind = 'break'
                except ContinueSig:
                    kind = 'ok'
                except Infeasible:
                    kind = None
            finally:
                self.ctxs.pop()
                writes = {i: (o, old, o.st) for i, (o, old) in x.journal.items()}
                for o, old in x.journal.values():
                    o.st = old
                self.qf.pop()
                del self.facts[nf:]
            work.extend(x.new)
            if kind is not None:
                out.append(Result(x.guards, x.facts, kind, value, writes, x.reads))
            if len(out) > limit:
                raise Unsupported('too many paths')
        return out

    def write(self, o, st):
        if self.ctxs:
            for x in self.ctxs:
                if o.birth <= x.mark and id(o) not in x.journal:
                    x.journal[id(o)] = (o, o.st)
        o.st = st

    def local(self, o):
        return not self.ctxs or o.birth > self.ctxs[-1].mark

    def read(self, o):
        """note that the contents of a mutable object are read"""
        for x in self.ctxs:
            if o.birth <= x.mark:
                x.reads.add(id(o))
        return o.st

    def remember(self, key, make):
        """make() once for a key; the facts it assumes hold on every path that uses the result"""
        hit = self.memo.get(key)
        if hit is not None:
            v, facts = hit
            have = {f.get_id() for f in self.facts}
            for f in facts:
                if f.get_id() not in have:
                    self.assume(f)
            return v
        nf = len(self.facts)
        v = make()
        self.memo[key] = (v, self.facts[nf:])
        return v

    def formula(self, thunk):
        """the boolean value of thunk as one formula (no effects, no exception)"""
        rs = self.explore(thunk)
        alts = []
        for r in rs:
            if r.kind != 'ok' or r.writes:
                raise Unsupported('a condition has effects or may raise')
            v = self.truth(r.value)
            if v is False:
                continue
            f = TRUE if v is True else v.e
            alts.append(z3.And(*r.guards, f) if r.guards else f)
            self.reassert(r)
        if not alts:
            return FALSE
        f = z3.Or(*alts) if len(alts) > 1 else alts[0]
        return f if has_quant(f) else S(f)

    def reassert(self, r, extra=()):
        """facts found on a path hold whenever its guards do"""
        for f in r.facts:
            g = list(r.guards) + list(extra)
            h = z3.Implies(z3.And(*g), f) if g else f
            self.assume(h)

    def with_binder(self, name, n, thunk):
        """run explore(thunk(k)) for an arbitrary 0 <= k < n; returns k and the results; facts are generalised"""
        self.freshno += 1
        k = z3.Int(f"{name}!{self.freshno}")
        inside = z3.And(k >= 0, k < n)
        nf = len(self.facts)
        self.qf.push()
        self.binders.append(k)
        try:
            self._add(inside)
            rs = self.explore(lambda: thunk(k))
        finally:
            self.binders.pop()
            self.qf.pop()
            del self.facts[nf:]
        for r in rs:
            for f in r.facts:
                self.assume(z3.ForAll([k], z3.Implies(z3.And(inside, *r.guards), f)))
        return k, rs

    # ------------------------------------------------------------------ proving
    def prove(self, goal, ms=8000):
        """(status, detail) of: the current assumptions imply goal"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            return 'discharged', ''
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        for f in self.facts:
            s.add(f)
        ng = neg(goal)
        s.add(ng)
        self.n_queries += 1
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return 'discharged', ''
        quant = any(has_quant(f) for f in self.facts) or has_quant(ng)
        if r == z3.sat and not quant and not self.abstracted(self.facts + [ng]):
            m = s.model()
            self.last_model = {}
            for d in m.decls():
                if d.arity() == 0:
                    x = m[d]
                    self.last_model[d.name()] = x.as_long() if z3.is_int_value(x) else z3.is_true(x) if z3.is_bool(x) else \
                        float(x.as_fraction()) if z3.is_rational_value(x) else str(x)
            return 'refuted', 'counterexample ' + ', '.join(f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0)[:600]
        r2 = self.congruence(s, goal)
        if r2:
            return 'discharged', ''
        return 'unknown', f"z3: {r} ({s.reason_unknown() if r == z3.unknown else 'model of an abstraction'}) for {str(goal)[:300]}"

    def abstracted(self, fs):
        """do the formulas mention a constant or function of which only some facts are known?"""
        for f in fs:
            for c in consts(f):
                if c.split('!')[0].split(':')[0] in INEXACT:
                    return True
        return False

    def congruence(self, s, goal):
        """sum handles over pointwise equal bodies are equal"""
        names = {str(d) for d in consts(goal)} & set(self.sums)
        for f in self.facts:
            names |= {str(d) for d in consts(f)} & set(self.sums)
        names = sorted(names)
        found = False
        for i, a in enumerate(names):
            for b in names[:i]:
                (na, ka, ea), (nb, kb, eb) = self.sums[a], self.sums[b]
                k = z3.Int('cong!k')
                f = z3.Or(na != nb, z3.And(k >= 0, k < na, z3.substitute(ea, (ka, k)) != z3.substitute(eb, (kb, k))))
                t = time.time()
                q = z3.Solver()
                q.set('timeout', 2000)
                q.add(self.facts)
                q.add(f)
                r = q.check()
                self.solver_time += time.time() - t
                if r == z3.unsat:
                    s.add(z3.Int(a) == z3.Int(b))
                    found = True
        if not found:
            return False
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    # ------------------------------------------------------------------ modules
    def load(self, name):
        """module dsrg_generator.<name> of /repo, executed by this interpreter"""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(REPO, *name.split('.'), '__init__.py')
        with open(path) as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        mod = ModVal(name, None)
        env = Env(self, None, mod)
        mod.env = env
        self.modules[name] = mod
        if name != PKG:
            for st in tree.body:
                self.exec(st, env)
        return mod

    def modattr(self, mod, name):
        st = mod.env.st
        if name in st:
            return st[name]
        if mod.name == PKG:
            return self.load(PKG + '.' + name)
        raise PyRaise('AttributeError')

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported('recursion without a contract')
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, Bound):
            return self._call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, FuncVal):
            c = self.contracts.get(f.qual)
            if c is not None and f.qual not in self.under_proof:
                self.used_contracts.add(f.qual)
                return c(self, self.bind(f, args, kw))
            if f.qual not in self.under_proof:
                self.inlined.add(f.qual)
            return self.run(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, BType):
            return self.lib.construct(f, args, kw)
        if isinstance(f, (StaticM,)):
            return self._call(f.f, args, kw)
        if isinstance(f, (Obj, AObj)):
            m, o = f.cls.find('__call__')
            if m is not None:
                return self._call(m, [f] + list(args), kw)
        raise Unsupported(f'call of {f}')

    def instantiate(self, cls, args, kw):
        for c in cls.mro:
            if not isinstance(c, ClassVal):
                continue
            q = c.name + '.<new>'
            con = self.contracts.get(q)
            if con is not None and q not in self.under_proof:
                r = con(self, cls, list(args), kw)
                if r is not NotImplemented:
                    self.used_contracts.add(q)
                    return r
        if any(isinstance(c, ExcType) for c in cls.mro):
            return Obj(self, cls, {})
        o = Obj(self, cls, {})
        init, _ = cls.find('__init__')
        if init is not None:
            if init.qual not in self.under_proof:
                self.inlined.add(init.qual)
            self.run(init, [o] + list(args), kw)
        elif args or kw:
            raise PyRaise('TypeError')
        return o

    def bind(self, f, args, kw):
        """argument names -> values"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError')
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for n, v in kw.items():
            if n in out and n in names:
                raise PyRaise('TypeError')
            if n in names or n in kwonly:
                out[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                raise PyRaise('TypeError')
        if a.kwarg is not None:
            d = PDict(self, (dict(extra), (), None))
            out[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise('TypeError')
                out[n] = f.defaults[j]
        for n, dv in zip(kwonly, f.kwdefaults):
            if n not in out:
                if dv is None:
                    raise PyRaise('TypeError')
                out[n] = dv
        return out

    def run(self, f, args, kw=None):
        """execute the body of f"""
        if f.module is not None and f.module.name.startswith('dsrg'):
            self.touched[f.qual] = f.node
        b = self.bind(f, args, kw or {})
        env = Env(self, f.env, f.module)
        env.st = b
        env.func = f
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if is_generator(f.node):
            g = GenVal(self, ())
            env.gen = g
            try:
                self.block(f.node.body, env)
            except ReturnSig:
                pass
            return g
        try:
            self.block(f.node.body, env)
        except ReturnSig as r:
            return r.v
        return None

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.exec(st, env)

    def setname(self, env, name, v):
        e = env
        if name in getattr(env, 'nonlocals', ()):
            e = env.parent
            while e is not None and name not in e.st:
                e = e.parent
        st = dict(e.st)
        st[name] = v
        self.write(e, st)

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.st:
                v = e.st[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"{name}: {v.why}")
                return v
            e = e.parent
            while e is not None and e.cls is not None:      # class scopes are not enclosing scopes
                e = e.parent
        v = self.lib.builtin(name)
        if v is None:
            raise PyRaise('NameError')
        return v

    def exec(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__}')
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'print':
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Nonlocal(self, st, env):
        env.nonlocals = set(getattr(env, 'nonlocals', ())) | set(st.names)

    def x_Global(self, st, env):
        raise Unsupported('global')

    def x_Import(self, st, env):
        for a in st.names:
            if a.name.startswith(PKG):
                m = self.load(a.name)
            else:
                m = self.lib.module(a.name if a.asname else a.name.split('.')[0])
            self.setname(env, a.asname or a.name.split('.')[0], m)

    def x_ImportFrom(self, st, env):
        name = st.module or ''
        if st.level:
            base = env.module.name.split('.')[:-st.level]
            name = '.'.join(base + ([name] if name else []))
        if name.startswith(PKG):
            m = self.load(name)
            for a in st.names:
                if a.name == '*':
                    for k, v in m.env.st.items():
                        if not k.startswith('_'):
                            self.setname(env, k, v)
                else:
                    self.setname(env, a.asname or a.name, self.modattr(m, a.name))
        else:
            m = self.lib.module(name)
            for a in st.names:
                self.setname(env, a.asname or a.name, self.lib.modattr(m, a.name))

    def mkfunc(self, node, env, qual, owner=None):
        d = [self.eval(x, env) for x in node.args.defaults]
        kd = [self.eval(x, env) if x is not None else None for x in node.args.kw_defaults]
        return FuncVal(node, env, env.module, qual, d, kd, owner)

    def x_FunctionDef(self, st, env):
        if env.cls is not None:
            qual = f"{env.cls.name}.{st.name}"
        elif env.func is not None:
            qual = f"{env.func.qual}.{st.name}"
        else:
            qual = st.name
        f = self.mkfunc(st, env, qual, env.cls)
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                f = Prop(f)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                f = StaticM(f)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                f = ClassM(f)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = self.lookup(env, d.value.id)
                f = Prop(old.fget, f)
            else:
                f = self.call(self.eval(d, env), [f])
        self.setname(env, st.name, f)

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        c = ClassVal(st.name, bases, env.module)
        e = Env(self, env, env.module)
        e.cls = c
        for s in st.body:
            self.exec(s, e)
        c.attrs = dict(e.st)
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.setname(env, st.name, v)

    def x_Return(self, st, env):
        raise ReturnSig(self.eval(st.value, env) if st.value is not None else None)

    def x_Raise(self, st, env):
        if st.exc is None:
            raise PyRaise(getattr(env, 'handling', 'RuntimeError'))
        e = st.exc
        t = e.func if isinstance(e, ast.Call) else e        # messages are not evaluated
        v = self.eval(t, env)
        if isinstance(v, (ClassVal, ExcType)):
            raise PyRaise(v.name)
        if isinstance(v, Obj):
            raise PyRaise(v.cls.name, v)
        raise Unsupported('raise')

    def x_Assert(self, st, env):
        if not self.decide(self.truth(self.eval(st.test, env))):
            raise PyRaise('AssertionError')

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_If(self, st, env):
        if self.decide(self.truth(self.eval(st.test, env))):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t.elts)
            for a, b in zip(t.elts, vs):
                self.assign(a.value if isinstance(a, ast.Starred) else a, b, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self.eval(t.value, env), self.eval_slice(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, elts=()):
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported('starred target')
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError')
            return v
        segs = self.lib.segs(v)
        if self.decide(self.lib.seglen(segs) != n):
            raise PyRaise('ValueError')
        return [self.lib.at(segs, z3.IntVal(i)) for i in range(n)]

    def x_AugAssign(self, st, env):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            old = self.lookup(env, t.id)
            rhs = self.eval(st.value, env)
            self.setname(env, t.id, self.lib.iop(type(st.op).__name__, old, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.lib.iop(type(st.op).__name__, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            key = self.eval_slice(t.slice, env)
            self.lib.augitem(type(st.op).__name__, o, key, lambda: self.eval(st.value, env))
        else:
            raise Unsupported('augmented assignment')

    def x_Delete(self, st, env):
        raise Unsupported('del')

    def x_While(self, st, env):
        for _ in range(200):
            if not self.decide(self.truth(self.eval(st.test, env))):
                self.block(st.orelse, env)
                return
            try:
                self.block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported('while loop without an invariant')

    def x_Try(self, st, env):
        try:
            self.block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None or self.lib.exc_match(e.typ, self.eval(h.type, env)):
                    if h.name:
                        self.setname(env, h.name, e.obj if e.obj is not None else Foreign('exception'))
                    old = getattr(env, 'handling', None)
                    env.handling = e.typ
                    try:
                        self.block(h.body, env)
                    finally:
                        env.handling = old
                    break
            else:
                self.block(st.finalbody, env)
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.block(st.finalbody, env)
            raise
        else:
            self.block(st.orelse, env)
        self.block(st.finalbody, env)

    def x_With(self, st, env):
        ms = []
        for it in st.items:
            m = self.eval(it.context_expr, env)
            v = self.call(self.getattr(m, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ms.append(m)
        try:
            self.block(st.body, env)
        finally:
            for m in reversed(ms):
                self.call(self.getattr(m, '__exit__'), [None, None, None])

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        segs = self.lib.segs(it)
        inv = self.invariant_for(st, env)
        if inv is not None:
            return inv(self, st, segs, env)

        def body(v):
            self.assign(st.target, v, env)
            self.block(st.body, env)
        names = assigned(st.target) | assigned_in(st.body)
        broke = self.loop(segs, body, env, names)
        if not broke:
            self.block(st.orelse, env)

    def invariant_for(self, st, env):
        return None

    def loop(self, segs, body, env, names):
        """run body on every element; True if the loop was left by break"""
        for s in segs:
            if isinstance(s, Items):
                for v in s.vs:
                    try:
                        body(v)
                    except ContinueSig:
                        pass
                    except BreakSig:
                        return True
            else:
                n = S(s.n)
                if z3.is_int_value(n) and n.as_long() <= 3:
                    for i in range(n.as_long()):
                        if self.loop(self.case_at(s, z3.IntVal(i)), body, env, names):
                            return True
                elif self.loop_fam(s, body, env, names):
                    return True
        return False

    def case_at(self, fam, t):
        """the elements of a family at position t (decides the case)"""
        for i, (g, segs) in enumerate(fam.cases):
            g2 = z3.substitute(g, (fam.k, t))
            if self.decide(g2):
                return tuple(self.lib.subst_seg(x, fam.k, t) for x in segs)
        return ()

    def loop_fam(self, fam, body, env, names):
        saved = {}
        place = {}
        st = dict(env.st)
        for nm in sorted(names):
            if nm not in st:
                continue
            v = st[nm]
            saved[nm] = v
            if isinstance(v, (bool, SBool)):
                c = self.fresh('acc_' + nm, z3.BoolSort())
                place[nm] = c
                st[nm] = SBool(c)
            elif isinstance(v, (int, SInt)):
                c = self.fresh('acc_' + nm)
                place[nm] = c
                st[nm] = SInt(c)
            elif isinstance(v, (float, SReal)):
                c = self.fresh('acc_' + nm, z3.RealSort())
                place[nm] = c
                st[nm] = SReal(c)
            elif isinstance(v, (PList, PDict, PSet)):
                pass
            else:
                st[nm] = Poison('value carried from one iteration to the next')
        keep_env = env.st

        def one(t, catch=True):
            inner = self.case_at(fam, t)
            return self.loop(inner, body, env, names)

        def thunk(k):
            self.write(env, dict(st))
            if one(k):
                raise BreakSig()
        k, rs = self.with_binder('k', fam.n, thunk)
        normal = [r for r in rs if r.kind == 'ok']
        exits = [r for r in rs if r.kind != 'ok']
        n = fam.n
        if exits:
            E = z3.Or(*[r.guard for r in exits]) if len(exits) > 1 else exits[0].guard
            ins = z3.And(k >= 0, k < n)
            some = z3.Exists([k], z3.And(ins, E))
            if z3.is_true(E):
                some = S(n > 0)
            if self.decide(some):
                k0 = self.fresh('first')
                self.assume(z3.And(k0 >= 0, k0 < n, z3.substitute(E, (k, k0))))
                if not z3.is_true(E):
                    self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < k0), neg(E))))
                else:
                    self.assume(k0 == 0)
                self.apply_effects(fam, k, k0, normal, env, names, saved, place)
                if one(k0):
                    return True
                raise Infeasible()
            if not z3.is_true(E):
                self.assume(z3.ForAll([k], z3.Implies(ins, neg(E))))
        self.apply_effects(fam, k, n, normal, env, names, saved, place)
        return False

    def apply_effects(self, fam, k, n, rs, env, names, saved, place):
        touched = {}
        reads = set()
        for r in rs:
            reads |= r.reads
            for i, (o, old, new) in r.writes.items():
                touched[i] = (o, old)
        for i, (o, old) in touched.items():
            if o is env:
                continue
            if i in reads:
                raise Unsupported('an object is read and modified in the same loop')
            if isinstance(o, Env):
                raise Unsupported('assignment to an enclosing scope in a loop')
            if isinstance(o, PList) or (isinstance(o, PSet) and old[0] == 'segs'):
                osegs = old if isinstance(o, PList) else old[1]
                cases = []
                for r in rs:
                    new = r.writes[i][2] if i in r.writes else old
                    nsegs = new if isinstance(o, PList) else (new[1] if new[0] == 'segs' else None)
                    if nsegs is None or len(nsegs) < len(osegs) or any(a is not b for a, b in zip(osegs, nsegs)):
                        raise Unsupported('a list is changed other than by appending in a loop')
                    cases.append((r.guard, nsegs[len(osegs):]))
                cases = [(g, s) for g, s in cases if s]
                seg = Fam(n, k, cases)
                cur = o.st if isinstance(o, PList) else o.st[1]
                self.write(o, cur + (seg,) if isinstance(o, PList) else ('segs', cur + (seg,)))
            elif isinstance(o, PDict):
                cases = []
                for r in rs:
                    new = r.writes[i][2] if i in r.writes else old
                    if new[0] is not old[0] or len(new[1]) < len(old[1]) or any(a is not b for a, b in zip(old[1], new[1])):
                        raise Unsupported('a dictionary is changed other than by updates in a loop')
                    cases.append((r.guard, new[1][len(old[1]):]))
                cases = [(g, s) for g, s in cases if s]
                cur = o.st
                self.write(o, (cur[0], cur[1] + (('fam', n, k, tuple(cases)),), cur[2]))
            else:
                raise Unsupported(f'{type(o).__name__} modified in a loop')
        # names
        st = dict(env.st)
        for nm in sorted(names):
            vals = []
            for r in rs:
                new = r.writes[id(env)][2] if id(env) in r.writes else None
                vals.append((r, new.get(nm) if new is not None else None))
            if nm not in saved:
                st[nm] = Poison('assigned in a loop')
                continue
            v0 = saved[nm]
            if nm in place:
                st[nm] = self.accumulate(nm, place[nm], v0, vals, k, n)
            elif isinstance(v0, (PList, PDict, PSet)):
                st[nm] = v0 if all(v is v0 or v is None for _, v in vals) else Poison('assigned in a loop')
            else:
                st[nm] = Poison('assigned in a loop') if rs else v0
        self.write(env, st)

    def accumulate(self, nm, c, v0, vals, k, n):
        same = []
        for r, v in vals:
            e = self.lib.expr(v) if v is not None and not isinstance(v, Poison) else None
            same.append(e is not None and e.eq(c))
        if all(same):
            return v0
        if any(c.decl().name() in {str(d) for d in consts(r.guard)} for r, _ in vals):
            return Poison('loop-carried condition')
        if c.sort() == z3.BoolSort():
            flips = []
            target = None
            for (r, v), s in zip(vals, same):
                if s:
                    continue
                if not isinstance(v, bool) or (target is not None and target != v):
                    return Poison('flag')
                target = v
                flips.append(r.guard)
            ex = z3.Exists([k], z3.And(k >= 0, k < n, z3.Or(*flips)))
            e0 = self.lib.bexpr(v0)
            return SBool(z3.Or(e0, ex) if target else z3.And(e0, z3.Not(ex)))
        total = None
        for r, v in vals:
            if isinstance(v, Poison) or v is None:
                return Poison('accumulator')
            e = self.lib.expr(v)
            if e.sort() != c.sort():
                return Poison('accumulator changes type')
            d = S(e - c)
            if c.decl().name() in {str(x) for x in consts(d)}:
                return Poison('accumulator is not a sum')
            d = z3.If(r.guard, d, z3.IntVal(0) if c.sort() == z3.IntSort() else z3.RealVal(0))
            total = d if total is None else total + d
        h = self.lib.sum_handle(n, k, S(total) if not has_quant(total) else total)
        return self.lib.mk(S(self.lib.expr(v0) + h))

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def eval_slice(self, e, env):
        if isinstance(e, ast.Index):            # pragma: no cover
            return self.eval(e.value, env)
        return self.eval(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Tuple(self, e, env):
        return tuple(self.spread(e.elts, env))

    def spread(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, tuple):
                    out.extend(v)
                else:
                    for s in self.lib.segs(v):
                        if not isinstance(s, Items):
                            raise Unsupported('* of a list of unknown length')
                        out.extend(s.vs)
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = PList(self, ())
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.lib.extend(out, self.eval(x.value, env))
                else:
                    self.lib.append(out, self.eval(x, env))
            return out
        vs = [self.eval(x, env) for x in e.elts]
        return PList(self, (Items(vs),) if vs else ())

    def e_Set(self, e, env):
        return self.lib.mkset((Items([self.eval(x, env) for x in e.elts]),))

    def e_Dict(self, e, env):
        d = PDict(self, ({}, (), None))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(d, self.eval(v, env))
            else:
                self.lib.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, (env.func.qual if env.func else '') + '.<lambda>')

    def e_IfExp(self, e, env):
        if self.decide(self.truth(self.eval(e.test, env))):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        conj = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, SBool):
                # keep one formula when the rest has no effect and cannot fail
                rest = self.quiet_bool(e.values[i + 1:], env, conj, t.e)
                if rest is not None and isinstance(v, SBool):
                    return SBool(S2(z3.And(t.e, rest) if conj else z3.Or(t.e, rest)))
            b = self.decide(t)
            if conj and not b:
                return v if not isinstance(v, SBool) else False
            if not conj and b:
                return v if not isinstance(v, SBool) else True
        return v

    def quiet_bool(self, rest, env, conj, first):
        """the remaining operands as a formula, or None; they are evaluated where the first operand allows it"""
        def thunk():
            if self.decide(first) != conj:
                return not conj
            v = None
            for x in rest:
                v = self.truth(self.eval(x, env))
                if not isinstance(v, (bool, SBool)):
                    raise Unsupported('not boolean')
                b = self.decide(v)
                if b != conj:
                    return b
            return b
        try:
            rs = self.explore(thunk, 64)
        except Unsupported:
            return None
        alts = []
        for r in rs:
            if r.kind != 'ok' or r.writes or r.facts:
                return None
            if r.value is True:
                alts.append(r.guard)
        return S2(z3.Or(*alts)) if alts else FALSE

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(neg(t.e))
        if isinstance(e.op, ast.USub):
            return self.lib.binop('Sub', 0 if not isinstance(v, (float, SReal)) else 0.0, v) if not isinstance(v, (int, float)) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.lib.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = None
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(x, env)
            v = self.lib.compare(type(op).__name__, left, right)
            left = right
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if t is False:
                return False
            if acc is None or acc is True:
                acc = t
            elif t is not True:
                acc = SBool(S2(z3.And(acc.e, t.e)))
        return acc

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            o = self.super_object(env)
            return o
        f = self.eval(e.func, env)
        args = self.spread(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PDict) or d.st[1]:
                    raise Unsupported('**')
                kw.update(d.st[0])
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def super_object(self, env):
        e = env
        while e.func is None or e.func.owner is None:
            e = e.parent
            if e is None:
                raise Unsupported('super')
        first = e.func.node.args.args[0].arg
        return Super(e.st[first], e.func.owner)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        return self.lib.getitem(v, self.eval_slice(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None:
                    raise Unsupported('format specification')
                parts.append(self.lib.tostr(self.eval(x.value, env)))
        return mkstr(parts)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def comp(self, gens, env, emit):
        g = gens[0]
        segs = self.lib.segs(self.eval(g.iter, env))

        def body(v):
            self.assign(g.target, v, env)
            for c in g.ifs:
                if not self.decide(self.truth(self.eval(c, env))):
                    return
            if len(gens) > 1:
                self.comp(gens[1:], env, emit)
            else:
                emit()
        names = set()
        for x in gens:
            names |= assigned(x.target)
        self.loop(segs, body, env, names)

    def e_ListComp(self, e, env, typ=PList):
        out = typ(self, ())
        x = Env(self, env, env.module)
        x.func = None
        # the outermost iterable is evaluated in the enclosing scope; scopes nest so this is the same here
        self.comp(e.generators, x, lambda: self.lib.append(out, self.eval(e.elt, x)))
        return out

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env, GenVal)

    def e_SetComp(self, e, env):
        return self.lib.mkset(self.e_ListComp(e, env).st)

    def e_DictComp(self, e, env):
        d = PDict(self, ({}, (), None))
        x = Env(self, env, env.module)
        self.comp(e.generators, x, lambda: self.lib.setitem(d, self.eval(e.key, x), self.eval(e.value, x)))
        return d

    def genlist(self, env):
        e = env
        while e.gen is None:
            e = e.parent
        return e.gen

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self.lib.append(self.genlist(env), self.lib.snapshot(v))
        return None

    def e_YieldFrom(self, e, env):
        self.lib.extend(self.genlist(env), self.eval(e.value, env))
        return None

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.st:
                return o.st[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            return self.classattr(o, o.cls, name)
        if isinstance(o, AObj):
            if name == '__class__':
                return o.cls
            if name in o.view:
                return o.view[name]
            for c in o.cls.mro:
                t = self.members.get(c.name)
                if t and name in t:
                    return t[name](self, o)
            return self.classattr(o, o.cls, name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            v, _ = o.find(name)
            if v is None:
                raise PyRaise('AttributeError')
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, Super):
            mro = (o.obj if isinstance(o.obj, ClassVal) else o.obj.cls).mro
            for c in mro[mro.index(o.after) + 1:]:
                if not isinstance(c, ClassVal):
                    continue
                if isinstance(o.obj, AObj):
                    t = self.members.get(c.name)
                    if t and name in t:
                        return t[name](self, o.obj)
                if name in c.attrs:
                    return self.bindattr(c.attrs[name], o.obj)
            raise PyRaise('AttributeError')
        if isinstance(o, ModVal):
            if o.attrs is None:
                return self.modattr(o, name)
            return self.lib.modattr(o, name)
        return self.lib.attr(o, name)

    def classattr(self, o, cls, name):
        v, _ = cls.find(name)
        if v is None:
            if isinstance(o, AObj) and name.startswith('_') and not name.startswith('__'):
                raise Unsupported(f'private attribute {name} of an abstract {cls.name}')
            raise PyRaise('AttributeError')
        return self.bindattr(v, o)

    def bindattr(self, v, o):
        if isinstance(v, Prop):
            return self.call(v.fget, [o])
        if isinstance(v, FuncVal):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, o.cls if not isinstance(o, ClassVal) else o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, _ = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyRaise('AttributeError')
                self.call(p.fset, [o, v])
                return
            st = dict(o.st)
            st[name] = v
            self.write(o, st)
        elif isinstance(o, ClassVal):
            raise Unsupported('class attribute assignment')
        elif isinstance(o, AObj):
            raise Unsupported(f'assignment to {name} of an abstract object')
        else:
            raise Unsupported('attribute assignment')

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """bool or SBool"""
        if isinstance(v, (bool, SBool)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, SInt) or isinstance(v, SReal):
            return SBool(S(v.e != 0))
        if isinstance(v, str):
            return v != ''
        if isinstance(v, SLet):
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, (SLet, Dec)) or (isinstance(p, str) and p) for p in v.parts):
                return True
            raise Unsupported('truth of a text')
        if isinstance(v, (PList, PSet, PDict)):
            n = self.lib.length(v)
            return n != 0 if isinstance(n, int) else SBool(S(n.e != 0))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Obj, AObj)):
            for nm in ('__bool__', '__len__'):
                m, _ = v.cls.find(nm)
                if m is not None:
                    return self.truth(self.call(m, [v]))
            return True
        if isinstance(v, (ClassVal, FuncVal, Bound, Builtin, BType)):
            return True
        raise Unsupported(f'truth of {type(v).__name__}')


# ---------------------------------------------------------------------- helpers
_hq = {}
_keep = []


def has_quant(e):
    """does the expression contain a quantifier?"""
    if not z3.is_expr(e):
        return False
    i = e.get_id()
    if i in _hq:
        return _hq[i]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _hq[i] = r
    _keep.append(e)
    return r


def neg(e):
    if z3.is_not(e):
        return e.arg(0)
    if has_quant(e):
        return z3.Not(e)
    return S(z3.Not(e))


def S2(e):
    return e if has_quant(e) else S(e)


_cs = {}


def consts(e):
    """names of the uninterpreted constants and functions in e"""
    i = e.get_id()
    if i in _cs:
        return _cs[i]
    out = set()
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        for c in e.children():
            out |= consts(c)
    elif z3.is_quantifier(e):
        out |= consts(e.body())
    _cs[i] = out
    _keep.append(e)
    return out


def source_hash(nodes):
    """fingerprint of function bodies, without comments and docstrings"""
    import ast
    import hashlib
    out = []
    for name, node in sorted(nodes.items()):
        if isinstance(node, ast.Lambda):
            out.append(ast.dump(node))
            continue
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        out.append(name + ast.dump(node.args) + ''.join(ast.dump(x) for x in body))
    return hashlib.sha1('\n'.join(out).encode()).hexdigest()[:16]


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    if not hasattr(node, '_is_gen'):
        node._is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(node))
    return node._is_gen


def walk_scope(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def assigned(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def assigned_in(body):
    out = set()
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out

"""Contracts and proof obligations.

A contract is a Python function in /verif/contracts/spec_*.py written over public attributes (the view of an object);
it is executed by the same symbolic interpreter.  The obligations of a function f under a scenario (symbolic arguments
satisfying the precondition) are, on every path through the body of f parsed from /repo:
  post    the result equals the result of the contract (objects by class and view, lists element by element)
  raises  f raises exactly when the contract does, with the same exception type
  frame   no argument is changed
A call inside the body is replaced by the contract of the callee when it has one, otherwise the callee is executed too
("inlined")."""
import ast
import os
import sys
import time
import traceback

import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Engine, S, S2, TRUE, FALSE, has_quant, neg, consts
from values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(HERE, 'contracts')

# the view of an object: the public attributes that determine it
VIEW = {
    'Index': ('space', 'number'),
    'Indices': ('indices',),
    'IndicesPair': ('upper_indices', 'lower_indices'),
    'Tensor': ('upper_indices', 'lower_indices', 'name', 'priority'),
    'SQOperator': ('upper_indices', 'lower_indices'),
    'Term': ('list_of_tensors', 'sq_op', 'coeff'),
    'MOSpaceCounter': ('counter', 'n_spaces'),
}


class Failed(Exception):
    pass


class Obligation:
    def __init__(self, oid, props, qual, scenario, run=None, sizes=(0, 1, 2, 3), note='', ms=8000, opaque=(), inline=(),
                 unordered=False, limit=60, post=None):
        self.oid, self.props, self.qual, self.scenario, self.run_ = oid, props, qual, scenario, run
        self.sizes, self.note, self.ms = sizes, note, ms
        self.inline = inline
        self.unordered = unordered
        self.limit = limit
        self.post = post


class Verifier:
    def __init__(self):
        self.e = Engine()
        self.specs = {}
        e = self.e
        e.members_default = self.member
        self.size = None
        self.real_objects = False
        e.lib.bi['View'] = Builtin('View', self.b_view)
        e.lib.bi['distinct'] = Builtin('distinct', self.b_distinct)
        e.lib.bi['ascending'] = Builtin('ascending', lambda l: e.lib.b_sorted(l))
        e.lib.bi['inversions'] = Builtin('inversions', lambda l: e.lib.inversions(e.lib.segs(l)))
        e.lib.bi['forall'] = Builtin('forall', self.b_forall)
        for m in ('mo_space', 'Index', 'Indices', 'IndicesPair', 'Tensor', 'SQOperator', 'Term', 'sqop_contraction',
                  'phys_op_contraction', 'helper.integer_partition', 'helper.file_utils', 'helper.multiprocess_helper'):
            e.load('dsrg_generator.' + m)
        for fn in sorted(os.listdir(CONTRACTS)):
            if fn.startswith('spec_') and fn.endswith('.py'):
                self.load_spec(os.path.join(CONTRACTS, fn))

    # ------------------------------------------------------------------ contracts
    def load_spec(self, path):
        e = self.e
        tree = ast.parse(open(path).read(), path)
        mod = ModVal('spec:' + os.path.basename(path), None)
        env = Env(e, None, mod)
        mod.env = env
        for st in tree.body:
            e.exec(st, env)
        for name, v in env.st.items():
            if isinstance(v, ClassVal) and name.startswith('spec_'):
                for a, f in v.attrs.items():
                    if isinstance(f, StaticM):
                        f = f.f
                    if isinstance(f, Prop):
                        f = f.fget
                    if isinstance(f, FuncVal):
                        self.register(f"{name[5:]}.{a}", f)
            elif isinstance(v, FuncVal) and name.startswith('new_'):
                self.register(name[4:] + '.<new>', v)
            elif isinstance(v, FuncVal) and name.startswith('spec_'):
                self.register(name[5:], v)

    def register(self, qual, f):
        self.specs[qual] = f
        e = self.e
        if qual.endswith('.<new>'):
            def con(eng, cls, args, kw, f=f):
                return eng.run(f, [cls] + list(args), kw)
        else:
            def con(eng, b, f=f):
                return eng.run(f, [], dict(b))
        e.contracts[qual] = con

    def b_view(self, cls, **kw):
        return AObj(cls, **kw)

    def b_distinct(self, l):
        return self.e.lib.mk(self.e.lib.distinct(self.e.lib.segs(l)))

    def b_forall(self, f, l):
        e = self.e
        return e.lib.mk(e.lib.forall_segs(e.lib.segs(l), lambda v: e.lib.bexpr(e.truth(e.call(f, [v])))))

    def member(self, o, name):
        return o.view.get(name)

    def func(self, qual):
        """function or method of /repo by qualified name 'Class.method' or 'function'; with 'module:' in front if needed"""
        e = self.e
        modname = None
        q = qual
        if ':' in qual:
            modname, q = qual.split(':')
        parts = q.split('.')
        for name, mod in e.modules.items():
            if not name.startswith('dsrg_generator') or (modname and name != 'dsrg_generator.' + modname):
                continue
            v = mod.env.st.get(parts[0])
            if v is None:
                continue
            if isinstance(v, FuncVal) and len(parts) == 1:
                return v
            if isinstance(v, ClassVal) and len(parts) == 2:
                f = v.attrs.get(parts[1])
                if f is None:
                    f, _ = v.find(parts[1])
                if f is None:
                    continue
                while isinstance(f, (StaticM, ClassM)):
                    f = f.f
                if isinstance(f, Prop):
                    f = f.fget
                return f
        raise Failed(f'{qual} is not in /repo')

    def cls(self, name):
        for mod in self.e.modules.values():
            v = mod.env.st.get(name)
            if isinstance(v, ClassVal):
                return v
        raise Failed(f'class {name} is not in /repo')

    # ------------------------------------------------------------------ symbolic arguments
    def int(self, name, lo=None):
        c = z3.Int(name)
        if lo is not None:
            self.e.assume(c >= lo)
        return SInt(c)

    def bool(self, name):
        return SBool(z3.Bool(name))

    def real(self, name):
        return SReal(z3.Real(name))

    def letter(self, name, lo=0, hi=12):
        c = z3.Int(name)
        self.e.assume(z3.And(c >= lo, c < hi))
        return SLet(c)

    def text(self, name):
        return SStr((Opq(z3.Const(name, Text)),))

    def idx(self, name, lo=0, hi=12):
        sp, num = z3.Int(name + '.sp'), z3.Int(name + '.num')
        self.e.assume(z3.And(sp >= lo, sp < hi, num >= 0))
        return AObj(self.cls('Index'), space=SLet(sp), number=SInt(num))

    def idxlist(self, name, distinct=True, hi=12, n=None):
        """list of indices of any length (of length self.size when that is set)"""
        e = self.e
        if self.size is not None or n is not None:
            m = self.size if n is None else n
            vs = [self.idx(f'{name}{i}', hi=hi) for i in range(m)]
            l = PList(e, (Items(vs),) if vs else ())
        else:
            n = z3.Int(name + '.n')
            e.assume(n >= 0)
            sp = z3.Function(name + '.sp', z3.IntSort(), z3.IntSort())
            num = z3.Function(name + '.num', z3.IntSort(), z3.IntSort())
            k = z3.Int(name + '!k')
            e.assume(z3.ForAll([k], z3.And(sp(k) >= 0, sp(k) < hi, num(k) >= 0), patterns=[sp(k)]))
            e.assume(z3.ForAll([k], z3.And(sp(k) >= 0, sp(k) < hi, num(k) >= 0), patterns=[num(k)]))
            ix = AObj(self.cls('Index'), space=SLet(sp(k)), number=SInt(num(k)))
            l = PList(e, (Fam(n, k, [(TRUE, (Items([ix]),))], tag=name),))
        if distinct:
            e.assume(e.lib.distinct(l.st))
        return l

    def labels(self, name):
        """list of accepted labels"""
        l = self.idxlist(name, distinct=False)
        segs = []
        lab = lambda a: SStr((a.view['space'], Dec(a.view['number'].e)))
        for s in l.st:
            if isinstance(s, Items):
                segs.append(Items([lab(a) for a in s.vs]))
            else:
                segs.append(Fam(s.n, s.k, [(TRUE, (Items([lab(s.cases[0][1][0].vs[0])]),))]))
        return PList(self.e, tuple(segs))

    def joined(self, name):
        """'g0, g1, ...' with at least one label"""
        l = self.labels(name)
        self.e.assume(self.e.lib.seglen(l.st) >= 1)
        if self.size is not None:
            return self.e.lib.c_join(', ', l)
        return SStr((Join(', ', l.st),))

    def require(self, cond):
        """part of the precondition"""
        self.e.assume(self.e.lib.bexpr(self.e.truth(cond)))

    def lst(self, xs):
        xs = list(xs)
        return PList(self.e, (Items(xs),) if xs else ())

    def set(self, xs):
        return self.e.lib.mkset((Items(list(xs)),))

    def indices(self, name, kind='IndicesSpinOrbital', real=False, n=None):
        l = self.idxlist(name, hi=6 if kind == 'IndicesSpinOrbital' else 12, n=n)
        c = self.cls(kind)
        if real:
            return self.construct(c, [l])
        return AObj(c, indices=l)

    def construct(self, c, args, kw=None):
        """object built by the real constructor"""
        e = self.e
        old = e.under_proof
        e.under_proof = old | {k.name + '.<new>' for k in c.mro if isinstance(k, ClassVal)}
        try:
            return e.instantiate(c, args, kw or {})
        finally:
            e.under_proof = old

    def pair(self, name, kind='IndicesSpinOrbital', cls='IndicesPair', real=False, **kw):
        u, l = self.indices(name + 'u', kind), self.indices(name + 'l', kind)
        if real:
            return self.construct(self.cls(cls), [u, l])
        return AObj(self.cls(cls), upper_indices=u, lower_indices=l, **kw)

    def built(self, thunk):
        """an object of a class: a refusal by the constructor is outside the scenario"""
        try:
            return thunk()
        except PyRaise:
            raise Infeasible()

    def op(self, name, cls='SecondQuantizedOperator', kind='IndicesSpinOrbital', nu=None, nl=None):
        c = self.cls(cls)
        u, l = self.indices(name + '.u', kind, n=nu), self.indices(name + '.l', kind, n=nl)
        if self.real_objects:
            return self.built(lambda: self.construct(c, [u, l]))
        return self.built(lambda: self.e.instantiate(c, [u, l], {}))

    def tensor(self, name, cls='Tensor', kind='IndicesSpinOrbital', n=None, nu=None, nl=None, fixed=False):
        c = self.cls(cls)
        u, l = self.indices(name + '.u', kind, n=nu if nu is not None else n), self.indices(name + '.l', kind, n=nl if nl is not None else n)
        kw = {} if fixed else {'name': self.text(name + '.name'), 'priority': self.int(name + '.prio')}
        if self.real_objects:
            return self.built(lambda: self.construct(c, [u, l], kw))
        return self.built(lambda: self.e.instantiate(c, [u, l], kw))

    # ------------------------------------------------------------------ equivalence of values
    def fields(self, c):
        for k in c.mro:
            if k.name in VIEW:
                return VIEW[k.name]
        return None

    def equiv(self, a, b):
        """formula: the two values are the same"""
        e, lib = self.e, self.e.lib
        if a is b:
            return TRUE
        if isinstance(a, DictRef):
            a = lib.deref(a)
        if isinstance(b, DictRef):
            b = lib.deref(b)
        if isinstance(a, (Obj, AObj)) and isinstance(b, (Obj, AObj)):
            if a.cls is not b.cls:
                return FALSE
            fs = self.fields(a.cls)
            if fs is None:
                raise Unsupported(f'no view of {a.cls.name}')
            return self.conj([self.equiv(e.getattr(a, f), e.getattr(b, f)) for f in fs])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return self.conj([self.equiv(x, y) for x, y in zip(a, b)])
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            return self.equiv_segs(lib.segs(a), lib.segs(b))
        if isinstance(a, PSet) and isinstance(b, PSet):
            return lib.set_eq(a.st, b.st)
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.equiv_dict(a, b)
        if a is None or b is None or isinstance(a, (ClassVal, BType)) or isinstance(b, (ClassVal, BType)):
            return FALSE
        if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, SBool) and not isinstance(b, SBool):
            return FALSE
        from builtin_lib import HashVal
        if isinstance(a, HashVal) and isinstance(b, HashVal):
            return lib.bexpr(e.truth(lib.eq(a.key, b.key)))
        if type(a).__name__ in HANDLED or type(b).__name__ in HANDLED or isinstance(a, (int, float, str)):
            r = e.truth(lib.eq(a, b))
            return z3.BoolVal(r) if isinstance(r, bool) else r.e
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    def conj(self, fs):
        fs = [f for f in fs if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            return FALSE
        return z3.And(*fs) if len(fs) > 1 else (fs[0] if fs else TRUE)

    def equiv_segs(self, s1, s2):
        e, lib = self.e, self.e.lib
        s1 = tuple(s for s in s1 if not (isinstance(s, Items) and not s.vs))
        s2 = tuple(s for s in s2 if not (isinstance(s, Items) and not s.vs))
        if lib.onlyitems(s1) and lib.onlyitems(s2):
            return self.equiv(lib.flat(s1), lib.flat(s2))
        if lib.skey(s1) == lib.skey(s2):
            return TRUE
        # segment by segment
        if len(s1) == len(s2) and all(type(a) is type(b) and (isinstance(a, Fam) or len(a.vs) == len(b.vs))
                                      for a, b in zip(s1, s2)):
            return self.conj([self.equiv_seg(a, b) for a, b in zip(s1, s2)])
        n1, n2 = lib.seglen(s1), lib.seglen(s2)
        e.freshno += 1
        i = z3.Int(f'i!{e.freshno}')
        f = lib.under(z3.And(i >= 0, i < n1, i < n2),
                      lambda: e.lib.mk(self.equiv(lib.at(s1, i), lib.at(s2, i))), i)
        return z3.And(n1 == n2, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n1), f)))

    def equiv_seg(self, a, b):
        e, lib = self.e, self.e.lib
        if isinstance(a, Items):
            return self.conj([self.equiv(x, y) for x, y in zip(a.vs, b.vs)])
        e.freshno += 1
        k = z3.Int(f'i!{e.freshno}')
        a2, b2 = lib.subst_binder(a, k), lib.subst_binder(b, k)
        fs = []
        ins = z3.And(k >= 0, k < a.n)
        pieces = []
        for g, x in a2.cases:
            for h, y in b2.cases:
                cond = z3.And(ins, g, h)
                q = lib.under(cond, lambda: e.lib.mk(self.equiv_segs(x, y)), k)
                if not z3.is_true(q):
                    pieces.append(z3.Implies(z3.And(g, h), q))
        ga = z3.Or(*[g for g, x in a2.cases if x]) if a2.cases else FALSE
        gb = z3.Or(*[g for g, x in b2.cases if x]) if b2.cases else FALSE
        pieces.append(ga == gb)
        body = S2(z3.And(*pieces))
        q = TRUE if z3.is_true(body) else z3.ForAll([k], z3.Implies(ins, body))
        return self.conj([S2(a.n == b.n), q])

    def equiv_dict(self, a, b):
        lib = self.e.lib
        if not a.st[1] and not b.st[1]:
            ka, kb = a.st[0], b.st[0]
            zero = (lambda v: isinstance(v, int) and v == 0)
            keys = set(ka) | set(kb)
            fs = []
            for k in sorted(keys, key=repr):
                if k not in ka or k not in kb:
                    return FALSE
                fs.append(self.equiv(ka[k], kb[k]))
            return self.conj(fs)
        ops1, ops2 = a.st[1], b.st[1]
        if len(ops1) != len(ops2) or list(a.st[0]) != list(b.st[0]):
            raise Unsupported('dictionaries built differently')
        fs = [self.equiv(a.st[0][k], b.st[0][k]) for k in a.st[0]]
        for o1, o2 in zip(ops1, ops2):
            fs.append(self.equiv_op(o1, o2))
        return self.conj(fs)

    def equiv_op(self, o1, o2):
        lib, e = self.e.lib, self.e
        if o1 is o2:
            return TRUE
        if o1[0] != o2[0]:
            raise Unsupported('dictionaries built differently')
        if o1[0] in ('set', 'incr'):
            return self.conj([self.equiv(o1[1], o2[1]), self.equiv(o1[2], o2[2])])
        if o1[0] in ('app', 'add'):
            return self.conj([self.equiv(o1[1], o2[1]), self.equiv_segs(o1[2], o2[2])])
        if o1[0] == 'fam':
            e.freshno += 1
            k = z3.Int(f'i!{e.freshno}')
            _, n1, k1, c1 = o1
            _, n2, k2, c2 = o2
            ins = z3.And(k >= 0, k < n1)
            pieces = []
            for g, x in c1:
                g = z3.substitute(g, (k1, k))
                xs = [self.op_subst(o, k1, k) for o in x]
                for h, y in c2:
                    h = z3.substitute(h, (k2, k))
                    ys = [self.op_subst(o, k2, k) for o in y]
                    if len(xs) != len(ys):
                        pieces.append(z3.Not(z3.And(g, h)))
                        continue
                    q = lib.under(z3.And(ins, g, h), lambda: lib.mk(self.conj([self.equiv_op(p, q) for p, q in zip(xs, ys)])), k)
                    pieces.append(z3.Implies(z3.And(g, h), q))
            ga = z3.Or(*[z3.substitute(g, (k1, k)) for g, x in c1]) if c1 else FALSE
            gb = z3.Or(*[z3.substitute(g, (k2, k)) for g, x in c2]) if c2 else FALSE
            pieces.append(ga == gb)
            return self.conj([S2(n1 == n2), z3.ForAll([k], z3.Implies(ins, S2(z3.And(*pieces))))])
        raise Unsupported('dictionary operation')

    def op_subst(self, o, k, t):
        lib = self.e.lib
        if o[0] in ('set', 'incr'):
            return (o[0], lib.subst(o[1], k, t), lib.subst(o[2], k, t))
        if o[0] in ('app', 'add'):
            return (o[0], lib.subst(o[1], k, t), tuple(lib.subst_seg(s, k, t) for s in o[2]))
        raise Unsupported('nested dictionary updates')

    # ------------------------------------------------------------------ frames
    def reach(self, v, out, seen):
        if isinstance(v, (PList, PSet, PDict, Obj)):
            if id(v) in seen:
                return
            seen.add(id(v))
            out.append((v, v.st))
            if isinstance(v, PList):
                self.reach(v.st, out, seen)
            elif isinstance(v, PSet):
                if v.st[0] == 'segs':
                    self.reach(v.st[1], out, seen)
            elif isinstance(v, PDict):
                for x in v.st[0].values():
                    self.reach(x, out, seen)
            else:
                for x in v.st.values():
                    self.reach(x, out, seen)
        elif isinstance(v, AObj):
            for x in v.view.values():
                self.reach(x, out, seen)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.reach(x, out, seen)
        elif isinstance(v, Items):
            self.reach(v.vs, out, seen)
        elif isinstance(v, Fam):
            for _, s in v.cases:
                self.reach(s, out, seen)

    def same_state(self, o, old):
        if o.st is old:
            return TRUE
        e = self.e
        if isinstance(o, PList):
            return self.equiv_segs(o.st, old)
        if isinstance(o, PSet):
            return e.lib.set_eq(o.st, old)
        if isinstance(o, PDict):
            p = PDict(e, old)
            return self.equiv_dict(o, p)
        if isinstance(o, Obj):
            fs = []
            for k in set(o.st) | set(old):
                if k not in o.st or k not in old:
                    raise Unsupported(f'attribute {k} appears or disappears')
                if o.st[k] is not old[k]:
                    fs.append(self.equiv(o.st[k], old[k]))
            return self.conj(fs)
        return FALSE

    # ------------------------------------------------------------------ one obligation
    def outcome(self, thunk):
        try:
            return 'ok', thunk()
        except PyRaise as x:
            return 'raise', x.typ

    def attempt(self, ob, size):
        """list of (part, status, detail) over the paths"""
        e = self.e
        self.size = size
        res = []
        stats = {'paths': 0, 'ok': 0, 'canary': None}

        def note(part, goal):
            st, d = e.prove(goal, ob.ms)
            res.append((part, st, d))
            if st == 'refuted' and stats.get('model') is None:
                stats['model'] = e.last_model

        def thunk():
            try:
                sc = ob.scenario(self)
            except PyRaise as x:
                if e.prove(FALSE, ob.ms)[0] == 'discharged':
                    raise Infeasible()
                raise Failed(f'the scenario cannot be built: {x}')
            args, kw = sc if isinstance(sc, tuple) and len(sc) == 2 and isinstance(sc[1], dict) else (sc, {})
            if stats['canary'] is None:
                t, _ = e.prove(FALSE, 1500)
                stats['canary'] = t != 'discharged'
            if ob.run_ is not None:
                for part, goal in ob.run_(self, *args, **kw):
                    if isinstance(goal, bool):
                        goal = z3.BoolVal(goal)
                    elif isinstance(goal, SBool):
                        goal = goal.e
                    note(part, goal)
                stats['paths'] += 1
                stats['ok'] += 1
                return
            before = []
            self.reach((tuple(args), tuple(kw.values())), before, set())
            if ob.qual.endswith('.<new>'):
                c = args[0]
                body = lambda: self.construct(c, args[1:], kw)
                sp = lambda: e.run(self.specs[ob.qual], list(args), kw)
            else:
                f = self.func(ob.qual)
                q = ob.qual.split(':')[-1]
                body = lambda: self.run_body(f, args, kw)
                sp = lambda: e.run(self.specs[q], list(args), kw)
            k1, r1 = self.outcome(body)
            for o, old in before:
                if o.st is not old:
                    note('frame', self.same_state(o, old))
                    e.write(o, old)
            k2, r2 = self.outcome(sp)
            stats['paths'] += 1
            if k1 != k2:
                note('raises', FALSE)
                res[-1] = (res[-1][0], res[-1][1], f"code: {k1} {r1 if k1 == 'raise' else ''}, contract: {k2} "
                           f"{r2 if k2 == 'raise' else ''}; " + res[-1][2])
                return
            if k1 == 'raise':
                if r1 != r2:
                    note('raises', FALSE)
                    res[-1] = (res[-1][0], res[-1][1], f'code raises {r1}, contract {r2}; ' + res[-1][2])
                else:
                    res.append(('raises', 'discharged', ''))
                return
            stats['ok'] += 1
            note('post', self.equiv(r1, r2) if ob.post is None else ob.post(self, r1, r2))

        e.exact = True
        e.memo = {k: v for k, v in e.memo.items() if isinstance(k, str)}
        e.sums = {}
        old = e.under_proof
        e.under_proof = {ob.qual.split(':')[-1]} | set(ob.inline)
        e.deadline = time.time() + ob.limit
        try:
            rs = e.explore(thunk)
        finally:
            e.under_proof = old
            e.deadline = None
        for r in rs:
            if r.kind == 'raise':
                raise Failed(f'{r.value} outside the function')
        if stats['paths'] == 0 or not stats['canary']:
            raise Failed('vacuous: the precondition of the scenario is contradictory')
        return res, stats

    def run_body(self, f, args, kw):
        return self.e.run(f, list(args), kw)

    def check(self, ob):
        """obligation -> dict"""
        e = self.e
        t0 = time.time()
        s0 = e.solver_time
        e.used_contracts, e.inlined, e.touched = set(), set(), {}
        out = {'id': ob.oid, 'props': ob.props, 'function': ob.qual, 'status': 'unknown', 'detail': '', 'parts': {}}
        why = ''
        try:
            self.real_objects = False
            try:
                res, stats = self.attempt(ob, None)
            except Unsupported as x:
                if 'private attribute' not in str(x):
                    raise
                self.real_objects = True
                res, stats = self.attempt(ob, None)
            parts = {}
            for p, s, d in res:
                o = parts.get(p, ('discharged', ''))
                if s == 'refuted' or (s == 'unknown' and o[0] != 'refuted'):
                    o = (s, d)
                parts[p] = o
            out['parts'] = {p: s for p, (s, d) in parts.items()}
            out['paths'] = stats['paths']
            st = 'discharged'
            for p, (s, d) in parts.items():
                if s == 'refuted':
                    st, why = s, f'{p}: {d}'
                    break
                if s == 'unknown':
                    st, why = s, f'{p}: {d}'
            out['status'] = st
            if st == 'refuted':
                out['model'], out['size'] = stats.get('model'), None
        except (Unsupported, Failed, z3.Z3Exception, RecursionError) as x:
            out['status'] = 'unsupported'
            why = f'{type(x).__name__}: {x}'
        except Exception as x:
            out['status'] = 'unsupported'
            tb = traceback.extract_tb(x.__traceback__)[-1]
            why = f'engine error {type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno}'
        out['detail'] = why
        out['inlined'] = sorted(e.inlined)
        out['source'] = engine.source_hash(e.touched)
        out['contracts_used'] = sorted(e.used_contracts)
        if out['status'] != 'discharged' and ob.sizes:
            done = []
            for n in ob.sizes:
                try:
                    res, stats = self.attempt(ob, n)
                except (Unsupported, Failed, z3.Z3Exception, RecursionError) as x:
                    out['bounded'] = f'size {n}: {x}'[:200]
                    break
                except Exception as x:
                    out['bounded'] = f'size {n}: engine error {x}'[:200]
                    break
                bad = [(p, d) for p, s, d in res if s == 'refuted']
                if bad:
                    out['status'] = 'refuted'
                    out['model'], out['size'] = stats.get('model'), n
                    out['detail'] = f'lists of length {n}: {bad[0][0]}: {bad[0][1]} (unbounded: {why[:160]})'
                    break
                if all(s == 'discharged' for _, s, _ in res):
                    done.append(n)
                else:
                    out['bounded'] = f'size {n} undecided'
                    break
            if done and out['status'] != 'refuted':
                out['bounded_sizes'] = done
        out['time'] = round(time.time() - t0, 2)
        out['solver_time'] = round(e.solver_time - s0, 2)
        return out


HANDLED = {'SInt', 'SReal', 'SBool', 'SLet', 'SStr', 'KeyText', 'Fraction', 'int', 'float', 'str', 'bool'}

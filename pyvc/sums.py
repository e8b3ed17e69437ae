"""Deductive verifier for functions that assemble lists of terms (sums of operators).

A function of /repo is parsed on every run and executed symbolically, path by path.
  list     sequence of pieces in a heap cell: One(element) or Fam(n, j, guard, pieces) = for j in range(n): if guard: pieces
  value    of a list of terms: the sum of the values of its elements, a real number (an arbitrary linear functional of the
           operator a list stands for: an identity between the reals is an identity between the operators)
  sums     sum over j < n of e(j) is normalised (sums of monomials, factors that do not depend on j taken out) and named
A loop over a list whose body only appends to lists, multiplies or adds to numbers is summarised without an invariant; a
loop over range(...) that carries state needs one.  Calls are replaced by the contract of the callee; arguments are bound
by the signature and defaults found in /repo."""
import ast
import os

import z3

from loops import REPO
from values import Unsupported

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
Elem = z3.DeclareSort('Elem')
TV = z3.Function('value', Elem, R)
TRUE = z3.BoolVal(True)
IND = z3.Function('indicator', B, R)      # 1 if the condition holds, 0 otherwise
PARITY = z3.Function('minus_one_to', I, R)


class One:
    def __init__(self, v):
        self.v = v


ALL = z3.Int('#all')        # number of elements of a family over a sort (a set): for all j with the guard


class Fam:
    def __init__(self, n, j, guard, pieces):
        self.n, self.j, self.guard, self.pieces = n, j, guard, tuple(pieces)


def in_range(s):
    """the condition on the binder of a family"""
    return z3.And(s.j >= 0, s.j < s.n) if s.j.sort() == I else TRUE


class Upd:
    """the element at a position is replaced"""
    def __init__(self, i, v):
        self.i, self.v = i, v


class Ref:
    def __init__(self, cell, kind='list'):
        self.cell, self.kind = cell, kind


class O:
    """object given by its attributes and methods (values or functions of (ver, path, args, kw)); key: z3 term or None;
    value: its value if it is a term"""
    def __init__(self, attrs=None, methods=None, key=None, value=None, cls=None):
        self.attrs, self.methods, self.key, self.value, self.cls = attrs or {}, methods or {}, key, value, cls


class Fn:
    """callable under contract: f(ver, path, bound arguments)"""
    def __init__(self, f, path=None, name=None):
        self.f, self.path, self.name = f, path, name


class Opaque:
    """a value nothing is known of and nothing may depend on"""


class Typ:
    def __init__(self, name, call=None, attrs=None):
        self.name, self.call, self.attrs = name, call, attrs or {}


class Path:
    def __init__(self, env, heap, facts, binders, conds=()):
        self.env, self.heap, self.facts, self.binders, self.conds = dict(env), dict(heap), list(facts), list(binders), list(conds)
        self.module = None

    def copy(self):
        q = Path(self.env, self.heap, self.facts, self.binders, self.conds)
        q.module = self.module
        return q

    def branch(self, cond):
        self.facts.append(cond)
        self.conds.append(cond)


class SumContract:
    def __init__(self, name, path, start, post, globals=None, raises=None, invariants=None, tag='', element=None, item=None, disjoint=None, member=None, numbers=False, labels=None, state=None, covers=None, letters=None):
        self.letters = letters      # sort of the letters of the spaces: texts of the code are constants of this sort
        self.item, self.disjoint, self.member, self.numbers = item, disjoint, member, numbers      # numbers: an empty {} holds numbers
        # labels: an empty {} maps keys of this sort to labels; state: invariant of the loops that change dictionaries, given the
        # dictionaries before the loop and the keys covered so far; covers: the keys an element of a loop covers
        self.labels, self.state, self.covers = labels, state, covers
        self.name, self.path, self.start, self.post, self.element = name, path, start, post, element
        self.globals, self.raises, self.invariants, self.tag = globals or {}, raises or (lambda ver: {}), invariants, tag


def consts_in(e, acc=None, seen=None):
    """uninterpreted constants in order of first occurrence"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return acc
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.append(e)
    for c in e.children():
        consts_in(c, acc, seen)
    return acc


_trees = {}


def conjuncts(g):
    """the conditions a guard consists of"""
    g = z3.simplify(g)
    if z3.is_true(g):
        return []
    if z3.is_and(g):
        return [c for x in g.children() for c in conjuncts(x)]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [c for x in g.arg(0).children() for c in conjuncts(z3.Not(x))]
    e = g.arg(0) if z3.is_not(g) else g
    if z3.is_eq(e) and e.arg(0).sexpr() > e.arg(1).sexpr():
        e = e.arg(1) == e.arg(0)
        return [z3.Not(e) if z3.is_not(g) else e]
    return [g]


def uniq(cs):
    out = {}
    for c in cs:
        out[c.sexpr()] = c
    return [out[k] for k in sorted(out)]


def structure(v):
    """a value without families as a term built from its parts (None if it has families)"""
    if z3.is_expr(v):
        return v if v.sort() == Elem else z3.Function(f'of_{v.sort()}', v.sort(), Elem)(v)
    if isinstance(v, O):
        return v.key if v.key is not None and v.key.sort() == Elem else None
    if isinstance(v, One):
        v = ('#', v.v)
    if isinstance(v, (str, bool, int)) or v is None:
        return z3.Const('text ' + repr(v), Elem)
    if isinstance(v, Text):
        v = ('#text',) + v.parts
    if isinstance(v, tuple):
        xs = [structure(x) for x in v]
        if any(x is None for x in xs):
            return None
        return z3.Function(f'tuple{len(xs)}', *([Elem] * (len(xs) + 1)))(*xs)
    return None


def tree_of(path):
    f = os.path.join(REPO, path)
    if f not in _trees:
        _trees[f] = ast.parse(open(f).read())
    return _trees[f]


def find(path, name):
    cls, _, n = name.rpartition('.')
    body = tree_of(path).body
    if cls:
        cs = [x for x in body if isinstance(x, ast.ClassDef) and x.name == cls]
        body = cs[0].body if len(cs) == 1 else []
    fn = [x for x in body if isinstance(x, ast.FunctionDef) and x.name == n]
    if len(fn) != 1:
        raise Unsupported(f'{name} is not in {path}')
    return fn[0]


class SumVerifier:
    def __init__(self, con, prover):
        self.con, self.pr = con, prover
        self.fn = find(con.path, con.name)
        self.n = 0
        self.named = {}        # normalised sum -> function
        self.rules = {}        # function name -> (parameters, value)
        self.paths = 0
        self.empty_sums = []   # a sum over nothing is zero
        self.blind = set()
        self.quiet = 0
        self.sums = {}
        self.stored = set()

    # ---------------------------------------------------------------- helpers
    def fresh(self, name, sort=I):
        self.n += 1
        return z3.Const(f'{name}${self.n}', sort)

    def func(self, name, *sorts):
        self.n += 1
        return z3.Function(f'{name}${self.n}', *sorts)

    def goal(self, what, p, f):
        if self.quiet:
            return
        st, seen, ind = [f], set(), []
        while st:
            x = st.pop()
            if x.get_id() not in seen and z3.is_app(x):
                seen.add(x.get_id())
                if x.decl().eq(IND):
                    ind.append((x, z3.If(x.arg(0), z3.RealVal(1), z3.RealVal(0))))
                st.extend(x.children())
        if ind:
            f = z3.substitute(f, *ind)
        self.pr.prove(f'{self.con.name}{self.con.tag}: {what}', p.facts + self.empty_sums, f)

    def entails(self, p, f, ms=1500):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(p.facts)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def valid(self, f, ms=500):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def new(self, p, pieces, kind='list'):
        self.n += 1
        p.heap[(kind, self.n)] = pieces if kind != 'list' else tuple(pieces)
        return Ref((kind, self.n), kind)

    def pieces(self, v, p):
        if isinstance(v, O) and '#items' in v.attrs:
            return v.attrs['#items']
        if isinstance(v, Ref) and v.kind == 'list':
            if v.cell in self.blind or any(isinstance(x, Upd) for x in p.heap[v.cell]):
                raise Unsupported('a list under construction is read')
            return p.heap[v.cell]
        if isinstance(v, tuple) and all(isinstance(x, (One, Fam)) for x in v) and v:
            return v
        if isinstance(v, (tuple, list)):
            return tuple(One(x) for x in v)
        raise Unsupported('not a list')

    # ---------------------------------------------------------------- substitution
    def sub(self, v, a, b):
        """a -> b in a value"""
        if z3.is_expr(v):
            return z3.substitute(v, (a, b))
        if isinstance(v, tuple):
            return tuple(self.sub(x, a, b) for x in v)
        if isinstance(v, One):
            return One(self.sub(v.v, a, b))
        if isinstance(v, Fam):
            j = self.fresh('j', v.j.sort())
            g, ps, n = self.sub(v.guard, v.j, j), self.sub(v.pieces, v.j, j), v.n
            return Fam(self.sub(n, a, b), j, self.sub(g, a, b), self.sub(ps, a, b))
        if isinstance(v, O):
            f = lambda x: self.sub(x, a, b) if z3.is_expr(x) or isinstance(x, (tuple, One, Fam, O, Lazy, Text, Rank)) else x
            return O({k: f(x) for k, x in v.attrs.items()}, {k: (lambda ver, p, args, kw, m=m: self.sub_result(m(ver, p, args, kw), p, a, b)) for k, m in v.methods.items()},
                     f(v.key) if v.key is not None else None, f(v.value) if v.value is not None else None, v.cls)
        if isinstance(v, Text):
            return Text(self.sub(v.parts, a, b))
        if isinstance(v, Rank):
            return Rank(v.pieces, z3.substitute(v.j, (a, b)), v.off)
        if isinstance(v, Lazy):
            return Lazy(lambda ver, p, v=v: self.sub_result(v.f(ver, p), p, a, b))
        return v

    def sub_result(self, v, p, a, b):
        if isinstance(v, Ref):
            if v.cell[0] != 'list':
                raise Unsupported('result of a method of an element')
            r = self.new(p, self.sub(p.heap[v.cell], a, b))
            return Ref(r.cell, v.kind)
        return self.sub(v, a, b)

    def seq(self, n, get):
        """list of n elements get(j)"""
        j = self.fresh('j')
        return (Fam(n, j, TRUE, (One(get(j)),)),)

    # ---------------------------------------------------------------- values
    def norm(self, e):
        """apply the rules (values of lists under contract)"""
        for _ in range(20):
            todo = []
            st, seen = [e], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().name() in self.rules:
                    par, val = self.rules[x.decl().name()]
                    todo.append((x, z3.substitute(val, *[(a, b) for a, b in zip(par, x.children())]) if par else val))
                    continue
                st.extend(x.children())
            if not todo:
                return z3.simplify(e, som=True)
            e = z3.substitute(e, *todo)
        raise Unsupported('values defined in a circle')

    def total(self, n, j, guard, e):
        """sum over j < n with guard of e"""
        e = self.norm(e)
        out = []
        terms = e.children() if z3.is_add(e) else [e]
        for t in terms:
            fs = t.children() if z3.is_mul(t) else [t]
            atoms = conjuncts(guard) + [c for f in fs if z3.is_app(f) and f.decl().eq(IND) for c in conjuncts(f.arg(0))]
            if any(z3.is_false(c) for c in atoms):
                continue
            fs = [f for f in fs if not (z3.is_app(f) and f.decl().eq(IND))]
            on = lambda x: any(c.eq(j) for c in consts_in(x))
            dep = [f for f in fs if on(f)]
            ind = [f for f in fs if not on(f)] + [IND(c) for c in uniq(atoms) if not on(c)]
            here = uniq([c for c in atoms if on(c)])
            if any(z3.is_rational_value(f) and f.as_fraction() == 0 for f in ind):
                continue
            r = z3.RealVal(1)
            if dep:
                r = dep[0]
                for f in dep[1:]:
                    r = r * f
            s = self.name_sum(n, j, z3.And(*here) if len(here) > 1 else here[0] if here else TRUE, r)
            for f in ind:
                s = f * s
            out.append(s)
        if not out:
            return z3.RealVal(0)
        return z3.simplify(sum(out[1:], out[0]), som=True)

    def name_sum(self, n, j, guard, r, kind='sum'):
        if kind == 'sum' and z3.is_rational_value(r) and z3.is_true(z3.simplify(guard)):
            return z3.ToReal(n) * r if not z3.is_int_value(n) else z3.RealVal(n.as_long()) * r
        binder = z3.Const('#j', j.sort())
        guard = uniq(conjuncts(guard))
        guard = z3.And(*guard) if len(guard) > 1 else guard[0] if guard else TRUE
        parts = [z3.substitute(x, (j, binder)) for x in (z3.simplify(n), guard, r)]
        par = []
        for x in parts:
            for c in consts_in(x):
                if c.decl().name().startswith('j$') and not any(c.eq(y) for y in par):
                    par.append(c)
        gen = [z3.Const(f'#{i}', x.sort()) for i, x in enumerate(par)]
        key = (kind,) + tuple(z3.substitute(x, *list(zip(par, gen))).sexpr() if par else x.sexpr() for x in parts)
        if key not in self.named:
            # the same sum under an equivalent condition
            gp = [z3.substitute(x, *list(zip(par, gen))) if par else x for x in parts]
            for k2, (n2, g2, f2) in self.sums.items():
                if (k2[0], k2[3]) == (key[0], key[3]) and f2.arity() == len(par) and all(f2.domain(i) == x.sort() for i, x in enumerate(par)):
                    if self.valid(z3.And(n2 == gp[0], g2 == gp[1])):
                        self.named[key] = f2
                        break
        if key not in self.named:
            self.n += 1
            self.named[key] = z3.Function(f'{kind}{len(self.named)}', *([x.sort() for x in par] + [R if kind != 'count' else I]))
            self.sums[key] = (gp[0], gp[1], self.named[key])
            if not par:
                self.empty_sums.append(z3.Implies(n <= 0, self.named[key]() == (1 if kind == 'product' else 0)))
        f = self.named[key]
        return f(*par)

    def measure(self, pieces, m):
        """sum of m(element) over a list"""
        out = z3.RealVal(0)
        for s in pieces:
            if isinstance(s, One):
                out = out + m(s.v)
            else:
                rest = [x for x in s.pieces if not self.conditional(x)]
                if rest:
                    out = out + self.total(s.n, s.j, s.guard, self.measure(rest, m))
                for x in s.pieces:
                    if self.conditional(x):
                        out = out + self.measure((Fam(s.n, s.j, z3.simplify(z3.And(s.guard, x.guard)), x.pieces),), m)
        return self.norm(out)

    def comp_map(self, pieces, f):
        """f applied to every element"""
        out = []
        for s in pieces:
            if isinstance(s, One):
                out.append(One(f(s.v)))
            else:
                s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                out.append(Fam(s.n, s.j, s.guard, self.comp_map(s.pieces, f)))
        return tuple(out)

    def conditional(self, x):
        return isinstance(x, Fam) and z3.is_int_value(x.n) and x.n.as_long() == 1

    def value(self, pieces):
        def m(v):
            if isinstance(v, O) and v.value is not None:
                return v.value
            raise Unsupported('an element without a value')
        return self.measure(pieces, m)

    def length(self, pieces, p=None):
        out = z3.IntVal(0)
        for s in pieces:
            if isinstance(s, One):
                out = out + 1
            elif any(self.conditional(x) for x in s.pieces):
                for x in s.pieces:
                    out = out + self.length((Fam(s.n, s.j, z3.simplify(z3.And(s.guard, x.guard)), x.pieces),) if self.conditional(x) else (Fam(s.n, s.j, s.guard, (x,)),), p)
            else:
                inner = self.length(s.pieces, p)
                if z3.is_true(z3.simplify(s.guard)) and not any(c.eq(s.j) for c in consts_in(inner)):
                    out = out + s.n * inner
                else:
                    t = self.total(s.n, s.j, s.guard, z3.ToReal(inner))
                    c = z3.ToInt(t)
                    if p is not None:
                        p.facts += [c >= 0, z3.ToReal(c) == t]
                        if z3.is_int_value(z3.simplify(inner)) and z3.simplify(inner).as_long() > 0:
                            p.facts.append((c == 0) == z3.Not(z3.Exists([s.j], z3.And(in_range(s), s.guard))))
                    out = out + c
        return z3.simplify(out)

    def result(self, p, name, value, more=None):
        """fresh list of terms with the given value (an expression that may depend on the open binders)"""
        bs = list(p.binders)
        ln = self.func(name + '.len', *([I] * len(bs) + [I]))
        at = self.func(name, *([I] * (len(bs) + 1) + [Elem]))
        n = ln(*bs)
        p.facts.append(n >= 0)
        j = self.fresh('j')
        t = self.total(n, j, TRUE, TV(at(*(bs + [j]))))
        args = t.children()
        self.rules[t.decl().name()] = (args, value)
        if more:
            more(n, lambda j: at(*(bs + [j])))
        return (Fam(n, j, TRUE, (One(self.con.element(self, at(*(bs + [j])))),)),)

    def key(self, v):
        """canonical text of a value, bound variables renamed"""
        if z3.is_expr(v):
            v = self.norm(v) if v.sort() == R else z3.simplify(v)
            return v.sexpr()
        if isinstance(v, tuple):
            return '(' + ' '.join(self.key(x) for x in v) + ')'
        if isinstance(v, One):
            return '[' + self.key(v.v) + ']'
        if isinstance(v, Fam):
            g, ps = v.guard, v.pieces
            while len(ps) == 1 and self.conditional(ps[0]):
                g, ps = z3.And(g, ps[0].guard), ps[0].pieces
            self.depth = getattr(self, 'depth', 0) + 1
            b = z3.Const(f'#b{self.depth}', v.j.sort())
            r = f'fam({self.key(v.n)}|{" ".join(c.sexpr() for c in uniq(conjuncts(self.sub(g, v.j, b))))}|{self.key(self.sub(ps, v.j, b))})'
            self.depth -= 1
            return r
        if isinstance(v, O):
            if v.key is not None:
                return self.key(v.key)
            raise Unsupported('an object without a key')
        if isinstance(v, (str, bool, int)) or v is None:
            return repr(v)
        if isinstance(v, Text):
            return 'text' + self.key(v.parts)
        raise Unsupported(f'key of {type(v).__name__}')

    def encode(self, v, sort=Elem, unordered=False):
        """the value as a term: equal terms for equal values"""
        if not unordered and sort == Elem:
            x = structure(v)
            if x is not None:
                return x
        bs = []

        def free(x, bound):
            if z3.is_expr(x):
                for c in consts_in(x):
                    if c.decl().name().startswith('j$') and not any(c.eq(y) for y in bound + bs):
                        bs.append(c)
            elif isinstance(x, One):
                free(x.v, bound)
            elif isinstance(x, Fam):
                free(x.n, bound)
                free(x.guard, bound + [x.j])
                free(x.pieces, bound + [x.j])
            elif isinstance(x, tuple):
                for y in x:
                    free(y, bound)
            elif isinstance(x, O) and x.key is not None:
                free(x.key, bound)
        free(v, [])
        w = v
        for i, b in enumerate(bs):
            w = self.sub(w, b, z3.Const(f'#{i}', b.sort()))
        k = sorted(self.keys(w)) if unordered else self.key(w)
        key = ('encode', str(k), str(sort), unordered)
        if key not in self.named:
            self.named[key] = z3.Function(f'value{len(self.named)}', *([b.sort() for b in bs] + [sort]))
        return self.named[key](*bs)

    def keys(self, pieces):
        """pieces flattened for comparison: neighbouring One's are kept in order"""
        return [self.key(s) for s in pieces if not (isinstance(s, Fam) and not s.pieces)]

    def at(self, pieces, i, p):
        i = z3.simplify(i)
        if len(pieces) == 1 and isinstance(pieces[0], Fam):
            s = pieces[0]
            if z3.is_true(z3.simplify(s.guard)) and len(s.pieces) == 1 and isinstance(s.pieces[0], One):
                self.goal('index in range', p, z3.And(i >= -s.n, i < s.n))
                k = i if self.entails(p, i >= 0) else z3.If(i < 0, i + s.n, i)
                return self.sub(s.pieces[0].v, s.j, k)
        if all(isinstance(s, One) for s in pieces) and z3.is_int_value(i):
            k = i.as_long()
            if -len(pieces) <= k < len(pieces):
                return pieces[k].v
        if self.con.item is not None:
            self.goal('index in range', p, z3.And(i >= -self.length(pieces, p), i < self.length(pieces, p)))
            return self.con.item(self, self.encode((pieces, i)))
        raise Unsupported('element of an assembled list')

    # ---------------------------------------------------------------- expressions
    def truth(self, v, p):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return v
        if z3.is_expr(v) and v.sort() in (I, R):
            return v != 0
        if isinstance(v, Ref) and v.kind == 'list':
            return self.length(self.pieces(v, p), p) != 0
        if v is None:
            return z3.BoolVal(False)
        raise Unsupported('condition')

    def num(self, v):
        if isinstance(v, Opaque):
            return v
        if z3.is_expr(v) and v.sort() in (I, R):
            return v
        raise Unsupported(f'number expected, got {type(v).__name__}')

    def arith(self, op, a, b, p):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        a, b = self.num(a), self.num(b)
        if isinstance(op, ast.FloorDiv):
            if z3.is_int_value(b) and b.as_long() > 0 and a.sort() == I:
                return a / b
            return Opaque()
        if isinstance(op, ast.Mod):
            if z3.is_int_value(b) and b.as_long() > 0 and a.sort() == I:
                return a % b
            raise Unsupported('remainder')
        if isinstance(op, ast.Div):
            a, b = self.real(a), self.real(b)
            self.goal('no division by zero', p, b != 0)
            return a / b
        if a.sort() != b.sort():
            a, b = self.real(a), self.real(b)
        if isinstance(op, ast.Pow) and z3.is_int_value(a) and a.as_long() == -1 and b.sort() == I:
            return PARITY(b)
        if isinstance(op, ast.Pow) and z3.is_int_value(b) and 1 <= b.as_long() <= 4:
            r = a
            for _ in range(b.as_long() - 1):
                r = r * a
            return r
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b}.get(type(op))
        if f is None:
            raise Unsupported('operator')
        return z3.simplify(f())

    def real(self, v):
        return z3.ToReal(v) if v.sort() == I else v

    def ev(self, e, p):
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, int):
                return z3.IntVal(v)
            if isinstance(v, float):
                return z3.RealVal(repr(v))
            return v
        if isinstance(e, ast.Name):
            if e.id in p.env:
                return p.env[e.id]
            if e.id in self.con.globals:
                return self.con.globals[e.id]
            v = self.lookup(e.id, p)
            if v is not None:
                return v
            if e.id in ('int', 'float', 'list', 'tuple', 'str', 'len', 'sum', 'sorted', 'range', 'enumerate', 'isinstance', 'any', 'all', 'min', 'max', 'abs', 'print', 'product', 'chain', 'set', 'Counter', 'defaultdict', 'zip'):
                return Typ(e.id)
            raise Unsupported(f'name {e.id}')
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, p), e.attr, p)
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, p) for x in e.elts)
        if isinstance(e, ast.List):
            return self.new(p, [One(self.freeze(self.ev(x, p), p)) for x in e.elts])
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.keys):
            ks, vs = [z3.StringVal(x.value) for x in e.keys], [self.num(self.ev(x, p)) for x in e.values]
            if len({x.value for x in e.keys}) != len(ks) or any(isinstance(v, Opaque) or v.sort() != I for v in vs):
                raise Unsupported('dictionary')

            def val(x):
                r = z3.IntVal(0)
                for k, v in zip(ks, vs):
                    r = z3.If(x == k, v, r)
                return r
            return self.new(p, (z3.StringSort(), lambda x: z3.Or(*[x == k for k in ks]), val, ()), 'map')
        if isinstance(e, ast.Dict) and len(e.keys) == 1 and e.keys[0] is None:
            v = self.ev(e.values[0], p)
            if not (isinstance(v, Ref) and v.kind == 'map'):
                raise Unsupported('copy of a dictionary')
            return self.new(p, p.heap[v.cell][:3] + ((),), 'map')
        if isinstance(e, ast.Dict) and not e.keys and self.con.labels is not None:
            f = self.func('unset', self.con.labels, Elem)
            return self.new(p, (self.con.labels, lambda x: z3.BoolVal(False), lambda x: f(x), ()), 'map')
        if isinstance(e, ast.Dict) and not e.keys and self.con.numbers:
            return Ref(self.new(p, ()).cell, 'counts')
        if isinstance(e, ast.Dict) and not e.keys:
            return self.new(p, {'items': [], 'base': None, 'has': None, 'default': False, 'read': [], 'fam': []}, 'dict')
        if isinstance(e, ast.JoinedStr):
            parts = []
            for x in e.values:
                try:
                    v = x.value if isinstance(x, ast.Constant) else self.ev(x.value, p)
                except Unsupported:
                    return Opaque()
                if not isinstance(x, ast.Constant) and (x.conversion not in (-1, None) or x.format_spec is not None):
                    return Opaque()
                if isinstance(v, Opaque):
                    return v
                parts.append(v)
            return Text(parts)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, p)
            if isinstance(e.op, ast.Not):
                return z3.Not(self.truth(v, p))
            if isinstance(v, Opaque):
                return v
            return z3.simplify(-self.num(v)) if isinstance(e.op, ast.USub) else self.num(v)
        if isinstance(e, ast.BoolOp):
            vs, q = [], p.copy()
            for x in e.values:
                v = self.truth(self.ev(x, q), q)
                vs.append(v)
                if z3.is_true(z3.simplify(v)) if isinstance(e.op, ast.Or) else z3.is_false(z3.simplify(v)):
                    break
                q.facts.append(v if isinstance(e.op, ast.And) else z3.Not(v))
            self.pure(p, q)
            return z3.simplify(z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs))
        if isinstance(e, ast.Compare):
            vs = [self.ev(x, p) for x in [e.left] + e.comparators]
            out = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    if a is None or b is None:
                        r = (a is None) == (b is None)
                        out.append(z3.BoolVal(r if isinstance(op, ast.Is) else not r))
                        continue
                    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort() == Elem:
                        out.append(z3.simplify(a == b if isinstance(op, ast.Is) else a != b))
                        continue
                    raise Unsupported('is')
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Ref) and b.kind in ('set', 'counts', 'counter', 'map'):
                    r = self.dom_of(b, p)[1](self.kz(a))
                    out.append(z3.simplify(r if isinstance(op, ast.In) else z3.Not(r)))
                    continue
                if isinstance(op, (ast.In, ast.NotIn)):
                    ps = self.pieces(b, p)
                    if not all(isinstance(x, One) for x in ps):
                        raise Unsupported('in')
                    r = z3.Or(z3.BoolVal(False), *[self.equal(a, x.v) for x in ps])
                    out.append(z3.simplify(r if isinstance(op, ast.In) else z3.Not(r)))
                    continue
                if isinstance(op, (ast.Eq, ast.NotEq)) and any(isinstance(x, (str, O, tuple)) or z3.is_expr(x) and (x.sort() in (z3.StringSort(), Elem) or x.sort() == self.con.letters) for x in (a, b)):
                    r = self.equal(a, b)
                    out.append(z3.simplify(r if isinstance(op, ast.Eq) else z3.Not(r)))
                    continue
                order = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}.get(type(op))
                if isinstance(a, O) and order in a.methods:
                    out.append(self.truth(a.methods[order](self, p, [b], {}), p))
                    continue
                if order and isinstance(a, (tuple, Ref)):
                    out.append(self.lexicographic(order, a, b, p))
                    continue
                if order is None and isinstance(a, Ref) and isinstance(b, Ref):
                    r = self.equal_refs(a, b, p)
                    out.append(z3.simplify(r if isinstance(op, ast.Eq) else z3.Not(r)))
                    continue
                a, b = self.num(a), self.num(b)
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Unsupported('decision on an opaque value')
                if a.sort() != b.sort():
                    a, b = self.real(a), self.real(b)
                out.append({ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                            ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]())
            return z3.simplify(z3.And(*out)) if len(out) > 1 else out[0]
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, p), self.ev(e.right, p), p)
        if isinstance(e, ast.IfExp):
            c = z3.simplify(self.truth(self.ev(e.test, p), p))
            if z3.is_true(c) or z3.is_false(c):
                return self.ev(e.body if z3.is_true(c) else e.orelse, p)
            if self.entails(p, c):
                return self.ev(e.body, p)
            if self.entails(p, z3.Not(c)):
                return self.ev(e.orelse, p)
            raise Fork(c)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, p)
            if isinstance(e.slice, ast.Slice):
                return self.slice(o, [None if x is None else self.ev(x, p) for x in (e.slice.lower, e.slice.upper, e.slice.step)], p)
            i = self.ev(e.slice, p)
            return self.item(o, i, p)
        if isinstance(e, ast.Call):
            return self.call(e, p)
        if isinstance(e, ast.SetComp):
            return Ref(self.new(p, self.comp(e.generators, e.elt, p)).cell, 'set')
        if isinstance(e, ast.Set):
            return Ref(self.new(p, [One(self.ev(x, p)) for x in e.elts]).cell, 'set')
        if isinstance(e, ast.DictComp):
            ps = self.comp(e.generators, ast.Tuple([e.key, e.value], ast.Load()), p)
            if not p.binders and len(ps) == 1 and isinstance(ps[0], Fam) and ps[0].j.sort() == I and len(ps[0].pieces) == 1 and isinstance(ps[0].pieces[0], One):
                # keys that are different: each has its value
                f = ps[0]
                k, v = f.pieces[0].v
                k, v = self.kz(k), v.key if isinstance(v, O) else v
                if not z3.is_expr(v):
                    raise Unsupported('values of a dictionary comprehension')
                i = self.fresh('i')
                on = z3.And(in_range(f), f.guard)
                self.goal('different keys have different places', p, z3.ForAll([f.j, i], z3.Implies(z3.And(on, z3.substitute(on, (f.j, i)), k == z3.substitute(k, (f.j, i))), f.j == i)))
                fn = self.func('entry', k.sort(), v.sort())
                p.facts.append(z3.ForAll([f.j], z3.Implies(on, fn(k) == v)))
                return self.new(p, (k.sort(), lambda x, ps=self.comp_map(ps, lambda t: t[0]): self.occurs(ps, x), lambda x: fn(x), ()), 'map')
            if len(ps) != 1 or ps[0].j.sort() == I or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
                raise Unsupported('dictionary comprehension')
            f = ps[0]
            k, v = f.pieces[0].v
            if isinstance(v, O):
                v = v.key
            if not self.kz(k).eq(f.j) or not z3.is_expr(v):
                raise Unsupported('keys of a dictionary comprehension')
            return self.new(p, (f.j.sort(), lambda x: z3.substitute(f.guard, (f.j, x)), lambda x: z3.substitute(v, (f.j, x)), ()), 'map')
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.new(p, self.comp(e.generators, e.elt, p))
        if isinstance(e, ast.Lambda):
            def call(ver, q, args, kw):
                r = q.copy()
                r.env = dict(p.env, **self.bind(e, args, kw, q))
                v = self.ev(e.body, r)
                self.pure(q, r)
                return v
            return Fn(call)
        if isinstance(e, (ast.Yield, ast.YieldFrom)) and '#out' in p.env:
            c = p.env['#out'].cell
            v = self.ev(e.value, p) if e.value is not None else None
            p.heap[c] = p.heap[c] + (self.iterable(v, p) if isinstance(e, ast.YieldFrom) else (One(self.freeze(v, p)),))
            return None
        raise Unsupported(type(e).__name__)

    # sets: the elements put in; counting dictionaries: (key, amount) pairs; maps: (sort, domain, value)
    def kz(self, v):
        v = v.key if isinstance(v, O) else structure(v) if isinstance(v, Text) else self.text(v) if isinstance(v, str) else v
        if not z3.is_expr(v):
            raise Unsupported('key of a set or dictionary')
        return v

    def text(self, v):
        """a text as a term (letters of the spaces: constants of their own sort)"""
        if self.con.letters is None:
            return z3.StringVal(v)
        if v not in self.con.globals['#letters']:
            raise Unsupported('text ' + v)
        return self.con.globals['#letters'][v]

    def all_of(self, sort, f):
        """for all keys of a sort"""
        if sort == self.con.letters:
            return z3.simplify(z3.And(*[f(x) for x in self.con.globals['#letters'].values()]))
        k = z3.Const('j$k', sort)
        return z3.ForAll([k], f(k))

    def occurs(self, pieces, k):
        out = []
        for s in pieces:
            if isinstance(s, One):
                out.append(self.kz(s.v) == k)
            elif s.j.sort() != I and len(s.pieces) == 1 and isinstance(s.pieces[0], One) and self.kz(s.pieces[0].v).eq(s.j):
                out.append(z3.substitute(s.guard, (s.j, k)))
            else:
                b = z3.And(s.guard, self.occurs(s.pieces, k))
                if s.j.sort() == I:
                    # a list read backwards has the same members
                    c, d = z3.simplify(b), z3.simplify(z3.substitute(b, (s.j, s.n - 1 - s.j)))
                    neg = z3.simplify(-1 * s.j).sexpr()
                    b = d if neg in c.sexpr() and neg not in d.sexpr() else b
                out.append(z3.Exists([s.j], z3.And(in_range(s), b)))
        return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)

    def key_sort(self, pieces):
        for s in pieces:
            r = self.kz(s.v).sort() if isinstance(s, One) else self.key_sort(s.pieces)
            if r is not None:
                return r
        return None

    def every(self, sort, cond, value=None):
        """family of all keys of a sort that satisfy a condition"""
        j = self.fresh('j', sort)
        v = self.con.member(self, j) if self.con.member is not None else j
        return (Fam(ALL, j, cond(j), (One(v if value is None else value(j, v)),)),)

    def dom_of(self, o, p):
        """(sort, membership)"""
        if o.kind == 'map':
            sort, dom, _ = p.heap[o.cell][:3]
            return sort, dom
        ps = p.heap[o.cell]
        if o.cell in self.blind:
            raise Unsupported('a set under construction is read')
        ks = self.comp_map(ps, lambda v: v[0]) if o.kind in ('counts', 'counter') else ps
        return self.key_sort(ks), lambda k: self.occurs(ks, k)

    def count_at(self, o, k, p):
        return z3.simplify(z3.ToInt(self.measure(p.heap[o.cell], lambda v: IND(self.kz(v[0]) == k) * self.real(v[1]))))

    def set_op(self, op, a, b, p):
        (s1, m1), (s2, m2) = self.dom_of(a, p), self.dom_of(b, p)
        sort = s1 if s1 is not None else s2
        if sort is None:
            return Ref(self.new(p, ()).cell, 'set')
        f = {ast.BitOr: z3.Or, ast.BitAnd: z3.And, ast.BitXor: z3.Xor, ast.Sub: lambda x, y: z3.And(x, z3.Not(y))}.get(type(op))
        if f is None:
            raise Unsupported('operator on sets')
        return Ref(self.new(p, self.every(sort, lambda k: z3.simplify(f(m1(k), m2(k))))).cell, 'set')

    def only(self, pieces, cond):
        """the elements satisfying a condition"""
        out = []
        for s in pieces:
            if isinstance(s, One):
                out.append(Fam(z3.IntVal(1), self.fresh('j'), cond(s.v), (s,)))
            elif len(s.pieces) == 1 and isinstance(s.pieces[0], One):
                s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                out.append(Fam(s.n, s.j, z3.And(s.guard, cond(s.pieces[0].v)), s.pieces))
            else:
                s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                out.append(Fam(s.n, s.j, s.guard, self.only(s.pieces, cond)))
        return tuple(out)

    def lexicographic(self, order, a, b, p):
        """comparison of tuples or lists"""
        if type(a) is not type(b) or isinstance(a, Ref) and (a.kind, b.kind) != ('list', 'list'):
            raise Unsupported('comparison')
        xs, ys = (list(v) if isinstance(v, tuple) else [s.v if isinstance(s, One) else None for s in self.pieces(v, p)] for v in (a, b))
        if any(x is None for x in xs + ys) or len(xs) != len(ys):
            raise Unsupported('comparison of lists')
        strict, r = order in ('__lt__', '__gt__'), None
        out = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(xs, ys))):
            x, y = self.deref(x, p), self.deref(y, p)
            lt = '__lt__' if order in ('__lt__', '__le__') else '__gt__'
            if isinstance(x, (tuple, Ref)):
                less, same = self.lexicographic(lt, x, y, p), z3.And(*[self.equal(u, v) for u, v in zip(self.flat_values(x, p), self.flat_values(y, p))])
            elif isinstance(x, O):
                if lt not in x.methods:
                    raise Unsupported('comparison')
                less, same = self.truth(x.methods[lt](self, p, [y], {}), p), self.equal(x, y)
            else:
                x, y = self.num(x), self.num(y)
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    raise Unsupported('decision on an opaque value')
                if x.sort() != y.sort():
                    x, y = self.real(x), self.real(y)
                less, same = x < y if lt == '__lt__' else x > y, x == y
            out = z3.Or(less, z3.And(same, out))
        return z3.simplify(out)

    def flat_values(self, v, p):
        if isinstance(v, Ref):
            v = tuple(s.v for s in self.pieces(v, p))
        return [y for x in v for y in (self.flat_values(x, p) if isinstance(x, (tuple, Ref)) else [x])]

    def equal_refs(self, a, b, p):
        if a.kind in ('counts', 'counter') and b.kind in ('counts', 'counter'):
            (s1, d1), (s2, d2) = self.dom_of(a, p), self.dom_of(b, p)
            if s1 is None or s2 is None or s1 != s2:
                raise Unsupported('comparison')
            k = z3.Const('j$k', s1)
            return z3.ForAll([k], z3.And(d1(k) == d2(k), z3.Implies(d1(k), self.count_at(a, k, p) == self.count_at(b, k, p))))
        if a.kind == b.kind == 'set':
            (s1, d1), (s2, d2) = self.dom_of(a, p), self.dom_of(b, p)
            if s1 is None or s2 is None or s1 != s2:
                raise Unsupported('comparison')
            return self.all_of(s1, lambda k: d1(k) == d2(k))
        raise Unsupported('comparison')

    def equal(self, a, b):
        if isinstance(a, O) and isinstance(b, O) and a.key is not None and b.key is not None:
            a, b = a.key, b.key
        if isinstance(a, O) and a.key is not None and a.key.sort() == z3.StringSort() and isinstance(b, str):
            a = a.key
        if isinstance(b, O) and b.key is not None and b.key.sort() == z3.StringSort() and isinstance(a, str):
            b = b.key
        a, b = (self.text(x) if isinstance(x, str) else x for x in (a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return z3.And(*[self.equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort() and {a.sort(), b.sort()} <= {I, R}:
                a, b = self.real(a), self.real(b)
            if a.sort() == b.sort():
                return z3.simplify(a == b)
        raise Unsupported('comparison')

    def constant(self, x, name, p):
        """value of a module-level assignment of a literal"""
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
            if isinstance(x.value, (ast.List, ast.Set, ast.Tuple)) and all(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in x.value.elts):
                r = self.new(p, [One(y.value) for y in x.value.elts])
                self.stored.add(r.cell)
                return Ref(r.cell, 'set') if isinstance(x.value, ast.Set) else r
        return None

    def lookup(self, name, p):
        """a function or constant of the module itself or imported from /repo; functions are executed in place"""
        path = getattr(p, 'module', None) or self.con.path
        for x in tree_of(path).body:
            c = self.constant(x, name, p)
            if c is not None:
                return c
            if isinstance(x, ast.FunctionDef) and x.name == name:
                return Inline(x, path)
            if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith('dsrg_generator') and any((a.asname or a.name) == name for a in x.names):
                orig = [a.name for a in x.names if (a.asname or a.name) == name][0]
                f = x.module.replace('.', '/') + '.py'
                if os.path.exists(os.path.join(REPO, f)):
                    for y in tree_of(f).body:
                        c = self.constant(y, orig, p)
                        if c is not None:
                            return c
                        if isinstance(y, ast.FunctionDef) and y.name == orig:
                            return Inline(y, f)
        return None

    def inline(self, f, args, kw, p):
        self.inlined = getattr(self, 'inlined', {})
        self.inlined[f.fn.name] = f.fn
        self.deep = getattr(self, 'deep', 0) + 1
        if self.deep > 6:
            raise Unsupported('recursion')
        q = Path(self.bind(f.fn, args, kw, p), p.heap, p.facts, p.binders, p.conds)
        q.module = f.path
        ends, raising = [], []
        old, again = self.leave, getattr(self, 'again', None)

        def leave(r, kind, v):
            if kind != 'return':
                raising.append((r, v))
                return
            ends.append((r, r.env.get('#out', v)))
        self.leave, self.again = leave, None
        if is_generator(f.fn):
            q.env['#out'] = self.new(q, ())
        try:
            self.block(list(f.fn.body), q, lambda r: leave(r, 'return', None))
        finally:
            self.leave, self.again = old, again
            self.deep -= 1
        if len(ends) + len(raising) > 1:
            for c in (ends + raising)[0][0].conds[len(p.conds):]:
                raise Fork(c)
        if raising and not ends:
            raise Raised(raising[0][1])
        if len(ends) != 1:
            raise Unsupported('helper')
        r, v = ends[0]
        p.heap.clear()
        p.heap.update(r.heap)
        p.facts[:] = r.facts
        return v

    def pure(self, p, q):
        if any(q.heap[c] is not p.heap[c] for c in p.heap):
            raise Unsupported('effect in a condition')
        p.heap.update(q.heap)

    def binop(self, op, a, b, p):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            # sets kept in a list
            a, b = (Ref(self.new(p, x.attrs['#items']).cell, 'set') if isinstance(x, O) and x.cls == 'set' and '#items' in x.attrs else x for x in (a, b))
        if isinstance(a, Rank) and z3.is_expr(b) and z3.is_int_value(z3.simplify(b)) and isinstance(op, (ast.Add, ast.Sub)):
            k = z3.simplify(b).as_long()
            return Rank(a.pieces, a.j, a.off + (k if isinstance(op, ast.Add) else -k))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set':
            return self.set_op(op, a, b, p)
        al, bl = isinstance(a, Ref) and a.kind == 'list', isinstance(b, Ref) and b.kind == 'list'
        if isinstance(op, ast.Add) and al and bl:
            return self.new(p, self.pieces(a, p) + self.pieces(b, p))
        if isinstance(op, ast.Mult) and (al or bl):
            l, n = (a, b) if al else (b, a)
            n = self.num(n)
            ps = self.pieces(l, p)
            if z3.is_int_value(n):
                return self.new(p, ps * max(n.as_long(), 0))
            j = self.fresh('j')
            m = self.fresh('times')
            p.facts.append(m == z3.If(n >= 0, n, 0))
            return self.new(p, (Fam(m, j, TRUE, ps),))
        if al or bl:
            raise Unsupported('operator on lists')
        if isinstance(a, O):
            m = {ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.Sub: '__sub__', ast.Add: '__add__', ast.Mult: '__mul__'}.get(type(op))
            if m in a.methods:
                return a.methods[m](self, p, [b], {})
            raise Unsupported('operator on an object')
        return self.arith(op, a, b, p)

    def item(self, o, i, p):
        if isinstance(o, tuple):
            i = z3.simplify(i)
            if z3.is_int_value(i) and -len(o) <= i.as_long() < len(o):
                return o[i.as_long()]
            raise Unsupported('tuple index')
        if isinstance(o, Ref) and o.kind == 'list':
            return self.deref(self.at(self.pieces(o, p), self.num(i), p), p)
        if isinstance(o, Ref) and o.kind == 'dict':
            return self.dict_get(o, i, p)
        if isinstance(o, Ref) and o.kind == 'multimap':
            return Entry(o, i)
        if isinstance(o, Ref) and o.kind in ('counts', 'counter'):
            k = self.kz(i)
            if o.kind == 'counts' and not self.entails(p, self.dom_of(o, p)[1](k), 5000):
                raise Unsupported('key may be missing')
            return self.count_at(o, k, p)
        if isinstance(o, Ref) and o.kind == 'map':
            k = self.kz(i)
            sort, dom, val = p.heap[o.cell][:3]
            self.goal('key present', p, dom(k))
            v = val(k)
            return self.con.member(self, v) if v.sort() == Elem and self.con.member is not None else v
        if isinstance(o, O) and '__getitem__' in o.methods:
            return o.methods['__getitem__'](self, p, [i], {})
        raise Unsupported('subscript')

    def slice(self, o, abc, p):
        a, b, c = abc
        if isinstance(o, O) and '__slice__' in o.methods:
            return o.methods['__slice__'](self, p, abc, {})
        if a is None and b is None and c is None:
            return o if isinstance(o, tuple) else self.new(p, self.pieces(o, p))
        if not (isinstance(o, Ref) and o.kind == 'list'):
            raise Unsupported('slice')
        ps = self.pieces(o, p)
        if isinstance(a, Rank) or isinstance(b, Rank):
            if any(x is not None and not (isinstance(x, Rank) and x.pieces is ps and x.off in (0, 1)) for x in (a, b)) or c is not None:
                raise Unsupported('slice')
            s = self.sub(ps, z3.Int('#none'), z3.Int('#none'))[0]
            g = [s.guard] + ([s.j >= a.j if a.off == 0 else s.j > a.j] if a is not None else []) + ([s.j < b.j if b.off == 0 else s.j <= b.j] if b is not None else [])
            return self.new(p, (Fam(s.n, s.j, z3.simplify(z3.And(*g)), s.pieces),))
        if b is not None:
            raise Unsupported('slice')
        if len(ps) != 1 or not isinstance(ps[0], Fam) or not z3.is_true(z3.simplify(ps[0].guard)) or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
            raise Unsupported('slice of an assembled list')
        s = ps[0]
        j = self.fresh('j')
        if a is None and z3.is_int_value(z3.simplify(c)) and z3.simplify(c).as_long() == -1:
            return self.new(p, (Fam(s.n, j, TRUE, (One(self.sub(s.pieces[0].v, s.j, s.n - 1 - j)),)),))
        if c is None and self.entails(p, a >= 0):
            return self.new(p, (Fam(z3.If(s.n >= a, s.n - a, 0), j, TRUE, (One(self.sub(s.pieces[0].v, s.j, z3.simplify(a + j))),)),))
        raise Unsupported('slice')

    def deref(self, v, p):
        """elements that are lists become list objects"""
        if isinstance(v, Lazy):
            return v.f(self, p)
        if isinstance(v, tuple) and v and all(isinstance(x, (One, Fam)) for x in v):
            return self.new(p, v)
        if isinstance(v, tuple):
            return tuple(self.deref(x, p) for x in v)
        return v

    # dictionaries of lists (defaultdict(list)): base(key) for keys satisfying has(key), then updates
    def dict_find(self, o, k, p):
        d = p.heap[o.cell]
        k = z3.simplify(k)
        for kk, r in reversed(d['items']):
            if kk.eq(k) or self.entails(p, kk == k):
                return r
            if not self.entails(p, kk != k):
                raise Unsupported('key')
        return None

    def dict_get(self, o, k, p):
        d = p.heap[o.cell]
        if d.get('fam'):
            # entries made in a loop under keys that depend on its variable
            if d['items'] or len({x[0] for x in d['fam']}) != 1 or d['fam'][0][0] != 'append':
                raise Unsupported('entries of a dictionary')
            return self.new(p, tuple(Fam(n, j, z3.And(g, kk == k), ps) for _, n, j, g, kk, ps in d['fam']))
        r = self.dict_find(o, k, p)
        if r is not None:
            return r
        if d['base'] is not None:
            if self.entails(p, d['has'](k)):
                r = self.new(p, d['base'](k))
                p.heap[o.cell] = dict(d, items=d['items'] + [(k, r)], read=d['read'] + [k])
                return r
            if not self.entails(p, z3.Not(d['has'](k))):
                raise Unsupported('key may be missing')
        if not d['default']:
            self.goal('key present', p, z3.BoolVal(False))
            raise Unsupported('key missing')
        r = self.new(p, ())
        if p.binders:
            self.blind.add(r.cell)
        p.heap[o.cell] = dict(d, items=d['items'] + [(z3.simplify(k), r)])
        return r

    def attr(self, o, name, p):
        if isinstance(o, Ref) and o.kind == 'obj' and name in p.heap[o.cell]:
            return p.heap[o.cell][name]
        if isinstance(o, O):
            if name in o.attrs:
                v = o.attrs[name]
                return self.deref(v, p) if isinstance(v, (tuple, Lazy)) else v
            if name in o.methods:
                return Fn(lambda ver, p, args, kw, m=o.methods[name]: m(ver, p, args, kw), None, name)
        if isinstance(o, Typ) and name in o.attrs:
            return o.attrs[name]
        if isinstance(o, str) and name in ('upper', 'lower'):
            return Fn(lambda ver, q, args, kw: getattr(o, name)() if not args and not kw else ver.no('text method'))
        if z3.is_expr(o) and o.sort() in (z3.StringSort(), self.con.letters) and name in self.con.globals.get('#text', {}):
            return Fn(lambda ver, q, args, kw: self.con.globals['#text'][name](o) if not args and not kw else ver.no('text method'))
        raise Unsupported(f'attribute {name}')

    def no(self, what):
        raise Unsupported(what)

    def comp(self, gens, elt, p):
        """pieces of a comprehension"""
        if not gens:
            return (One(self.freeze(self.ev(elt, p), p)),)
        g = gens[0]
        it = self.iterable(self.ev(g.iter, p), p)

        def walk(pieces, q):
            out = []
            for s in pieces:
                if isinstance(s, One):
                    r = q.copy()
                    self.assign(g.target, self.deref(s.v, r), r)
                    cond = TRUE
                    for c in g.ifs:
                        t = self.truth(self.ev(c, r), r)
                        r.facts.append(t)
                        cond = z3.And(cond, t)
                    cond = z3.simplify(cond)
                    if z3.is_false(cond):
                        continue
                    inner = self.comp(gens[1:], elt, r)
                    r.env = q.env
                    self.pure(q, r)
                    if z3.is_true(cond):
                        out += inner
                    else:
                        out.append(Fam(z3.IntVal(1), self.fresh('j'), cond, inner))
                else:
                    r = q.copy()
                    s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                    r.facts += [in_range(s), s.guard]
                    r.binders.append(s.j)
                    inner = walk(s.pieces, r)
                    self.pure(q, r)
                    out.append(Fam(s.n, s.j, s.guard, inner))
            return tuple(out)
        return walk(it, p)

    def freeze(self, v, p):
        """a value stored in a list: a list inside becomes its pieces"""
        if isinstance(v, Ref) and v.kind == 'list':
            self.stored.add(v.cell)
            return self.pieces(v, p)
        if isinstance(v, Ref) and v.kind == 'set' and v.cell in self.stored:
            return O({'#items': p.heap[v.cell]}, key=self.encode(p.heap[v.cell]), cls='set')
        if isinstance(v, tuple):
            return tuple(self.freeze(x, p) for x in v)
        return v

    def iterable(self, v, p):
        if isinstance(v, O) and '#items' in v.attrs:
            return v.attrs['#items']
        if isinstance(v, O) and '#set' in v.attrs:
            j = self.fresh('j', Elem)
            return (Fam(ALL, j, v.attrs['#set'](j), (One(v.attrs['#member'](j) if '#member' in v.attrs else j),)),)
        if isinstance(v, Ref) and v.kind == 'list':
            return self.pieces(v, p)
        if isinstance(v, Ref) and v.kind in ('set', 'counts', 'counter', 'map'):
            sort, dom = self.dom_of(v, p)
            return self.every(sort, dom) if sort is not None else ()
        if isinstance(v, Rng) and v.hi is not None:
            j = self.fresh('j')
            return (Fam(v.hi, j, j >= v.lo, (One(j),)),)
        if isinstance(v, Rng):
            return self.seq(v.n, lambda j: z3.simplify(v.lo + j))
        if isinstance(v, tuple):
            return self.pieces(v, p)
        raise Unsupported('iteration over ' + type(v).__name__)

    # ---------------------------------------------------------------- calls
    def bind(self, fn, args, kw, p, skip=0):
        """arguments of a function of /repo by its signature"""
        a = fn.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported('signature')
        names = [x.arg for x in a.args][skip:]
        if len(args) > len(names):
            raise Unsupported('too many arguments')
        out = dict(zip(names, args))
        for k, v in kw.items():
            if k in out or k not in names:
                raise Unsupported('keyword argument')
            out[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in out:
                out[n] = self.ev(d, Path({}, {}, [], []))
        if set(out) != set(names):
            raise Unsupported('missing argument')
        return out

    def call(self, e, p):
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in p.env:
            return None
        # methods of lists
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, p)
            if isinstance(o, (Ref, Entry)):
                args = [self.ev(x, p) for x in e.args]
                return self.list_method(o, e.func.attr, args, p)
            f = self.attr(o, e.func.attr, p)
        else:
            f = self.ev(e.func, p)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, p)
                if isinstance(v, O) and '#flat' in v.attrs:
                    args.append(v)
                    continue
                if isinstance(v, Ref) and v.kind == 'list' and isinstance(f, Typ) and f.call is not None:
                    args.append(Star(self.pieces(v, p)))
                    continue
                if not isinstance(v, tuple):
                    raise Unsupported('starred argument')
                args += list(v)
            else:
                args.append(self.ev(x, p))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**')
            kw[k.arg] = self.ev(k.value, p)
        return self.apply(f, args, kw, p)

    def apply(self, f, args, kw, p):
        if isinstance(f, Inline):
            return self.inline(f, args, kw, p)
        if isinstance(f, Fn):
            if f.path is not None:
                return f.f(self, p, self.bind(find(f.path, f.name), args, kw, p))
            return f.f(self, p, args, kw)
        if isinstance(f, O) and '__call__' in f.methods:
            return f.methods['__call__'](self, p, args, kw)
        if isinstance(f, Typ):
            if f.call is not None:
                return f.call(self, p, args, kw)
            return self.builtin(f.name, args, kw, p)
        raise Unsupported('call')

    def multimap(self, p):
        """defaultdict(list) that is only added to: the (key, element) pairs in the order they were added"""
        r = self.new(p, ())
        return Ref(r.cell, 'multimap')

    def add_entries(self, e, pieces, p):
        if not pieces:
            return              # an empty list under a key is not seen by the weights
        p.heap[e.ref.cell] = p.heap[e.ref.cell] + self.comp_map(pieces, lambda v: (e.key, v))

    def list_method(self, o, m, args, p):
        if isinstance(o, Entry):
            if m == 'append' and len(args) == 1:
                return self.add_entries(o, (One(self.freeze(args[0], p)),), p)
            if m == 'extend' and len(args) == 1:
                return self.add_entries(o, self.iterable(args[0], p), p)
            raise Unsupported('method of an entry')
        if o.kind == 'set':
            if o.cell in self.stored and m != 'copy':
                raise Unsupported('a set stored elsewhere is changed')
            if m == 'update' and len(args) == 1:
                p.heap[o.cell] = p.heap[o.cell] + self.iterable(args[0], p)
                return None
            if m == 'add' and len(args) == 1:
                p.heap[o.cell] = p.heap[o.cell] + (One(args[0]),)
                return None
            if m == 'copy' and not args:
                return Ref(self.new(p, p.heap[o.cell]).cell, 'set')
            if m in ('remove', 'discard', 'pop') and len(args) == (m != 'pop') and o.cell not in self.blind:
                sort, dom = self.dom_of(o, p)
                k = self.kz(args[0]) if args else self.func('popped', *[b.sort() for b in p.binders], sort)(*p.binders) if p.binders else self.fresh('popped', sort)
                if m == 'remove':
                    self.goal('the element removed is there', p, dom(k))
                if m == 'pop':
                    self.goal('the set is not empty', p, z3.Not(self.all_of(sort, lambda x: z3.Not(dom(x)))))
                    p.facts.append(dom(k))
                p.heap[o.cell] = self.every(sort, lambda x: z3.And(dom(x), x != k))
                return k if m == 'pop' else None
        if o.kind in ('counts', 'counter') and m == 'get' and len(args) == 2 and z3.is_expr(args[1]) and z3.is_int_value(z3.simplify(args[1])) and z3.simplify(args[1]).as_long() == 0:
            r = self.fresh('held')
            self.held = getattr(self, 'held', {})
            self.held[r.decl().name()] = (o.cell, self.kz(args[0]), p.heap[o.cell])
            if o.cell not in self.blind:
                p.facts.append(r == self.count_at(o, self.kz(args[0]), p))
            return r
        if o.kind in ('counts', 'counter', 'map') and m in ('items', 'keys', 'values') and not args:
            sort, dom = self.dom_of(o, p)
            if sort is None:
                return self.new(p, ())
            at = (lambda k: p.heap[o.cell][2](k)) if o.kind == 'map' else (lambda k: self.count_at(o, k, p))
            return self.new(p, self.every(sort, dom, {'items': lambda k, v: (v, at(k)), 'keys': lambda k, v: v, 'values': lambda k, v: at(k)}[m]))
        if o.kind == 'list':
            if m not in ('copy', 'count') and o.cell in self.stored:
                raise Unsupported('a list stored elsewhere is changed')
            if m == 'append' and len(args) == 1:
                p.heap[o.cell] = p.heap[o.cell] + (One(self.freeze(args[0], p)),)
                return None
            if m == 'extend' and len(args) == 1:
                p.heap[o.cell] = p.heap[o.cell] + self.iterable(args[0], p)
                return None
            if m == 'count' and len(args) == 1:
                return self.length(self.only(self.pieces(o, p), lambda v: self.equal(v, args[0])), p)
            if m == 'copy' and not args:
                return self.new(p, self.pieces(o, p))
        if o.kind == 'multimap':
            if m == 'update' and len(args) == 1 and isinstance(args[0], Ref) and args[0].kind == 'multimap':
                a, b = p.heap[o.cell], p.heap[args[0].cell]
                self.goal('an update replaces no entry', p, z3.BoolVal(self.con.disjoint(self, a, b)))
                p.heap[o.cell] = a + b
                return None
            if m == 'values' and not args:
                return O({'#flat': self.comp_map(p.heap[o.cell], lambda kv: kv[1] if isinstance(kv, tuple) else kv)}, cls='values')
        if o.kind == 'dict' and not args and m in ('items', 'keys', 'values'):
            d = p.heap[o.cell]
            if d['items'] or len(d.get('fam', [])) != 1:
                raise Unsupported('entries of a dictionary')
            kind, n, j, g, kk, v = d['fam'][0]
            if not z3.is_true(z3.simplify(g)):
                raise Unsupported('entries of a dictionary')
            nk, ke, li = self.groups(p, n, j, kk)
            w = (lambda x: self.sub(v, j, li(x))) if kind == 'set' else (lambda x: tuple(Fam(n, j, kk == ke(x), v) for _ in [0]))
            el = {'items': lambda x: (ke(x), w(x)), 'keys': lambda x: ke(x), 'values': lambda x: w(x)}[m]
            return self.new(p, self.seq(nk, el))
        raise Unsupported('method ' + m)

    def groups(self, p, n, j, kk):
        """the distinct keys kk(j), j < n: their number, the keys, the last position of each"""
        key = self.key(self.sub(kk, j, z3.Int('#key'))) + self.key(n)
        self.grouped = getattr(self, 'grouped', {})
        if key not in self.grouped:
            nk = self.fresh('n_keys')
            ke, li = self.func('key', I, kk.sort()), self.func('last', I, I)
            a, b = z3.Ints('a! b!')
            at = lambda x: z3.substitute(kk, (j, x))
            p.facts += [nk >= 0, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < nk), z3.And(li(a) >= 0, li(a) < n, at(li(a)) == ke(a))), patterns=[ke(a)]),
                        z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < nk), ke(a) != ke(b)), patterns=[z3.MultiPattern(ke(a), ke(b))]),
                        z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.Exists([b], z3.And(b >= 0, b < nk, ke(b) == at(a)))))]
            self.grouped[key] = (nk, ke, li)
        return self.grouped[key]

    def builtin(self, n, args, kw, p):
        if n == 'len' and len(args) == 1:
            if isinstance(args[0], O) and '#len' in args[0].attrs:
                return args[0].attrs['#len']
            if isinstance(args[0], tuple):
                return z3.IntVal(len(args[0]))
            if isinstance(args[0], Ref) and args[0].kind in ('set', 'map'):
                sort, dom = self.dom_of(args[0], p)
                c, k = self.fresh('size'), z3.Const('k!', Elem if sort is None else sort)
                p.facts += [c >= 0, c == 0 if sort is None else (c == 0) == self.all_of(sort, lambda k: z3.Not(dom(k)))]
                if sort is not None:
                    # a subset has at most as many elements, and as many only if it is the whole set
                    self.sizes = getattr(self, 'sizes', [])
                    for c2, s2, d2 in self.sizes:
                        if s2 == sort:
                            for ca, da, cb, db in ((c, dom, c2, d2), (c2, d2, c, dom)):
                                p.facts.append(z3.Implies(self.all_of(sort, lambda k: z3.Implies(da(k), db(k))), z3.And(ca <= cb, z3.Implies(ca == cb, self.all_of(sort, lambda k: da(k) == db(k))))))
                    self.sizes.append((c, sort, dom))
                return c
            return self.length(self.pieces(args[0], p), p)
        if n == 'set' and len(args) <= 1:
            return Ref(self.new(p, self.iterable(args[0], p) if args else ()).cell, 'set')
        if n == 'Counter' and len(args) <= 1:
            return Ref(self.new(p, self.comp_map(self.iterable(args[0], p), lambda v: (v, z3.IntVal(1))) if args else ()).cell, 'counter')
        if n == 'defaultdict' and len(args) == 1 and isinstance(args[0], Typ) and args[0].name == 'int':
            return Ref(self.new(p, ()).cell, 'counts')
        if n == 'enumerate' and len(args) in (1, 2) and not kw:
            first = self.num(args[1]) if len(args) == 2 else z3.IntVal(0)
            ps = self.iterable(args[0], p)
            if all(isinstance(x, One) for x in ps):
                return self.new(p, [One((z3.simplify(first + i), x.v)) for i, x in enumerate(ps)])
            if len(ps) != 1 or len(ps[0].pieces) != 1 or not isinstance(ps[0].pieces[0], One):
                raise Unsupported('enumerate')
            s = ps[0]
            if not z3.is_true(z3.simplify(s.guard)) and len(args) == 1 and s.j.sort() == I:
                s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                return self.new(p, (Fam(s.n, s.j, s.guard, (One((Rank(ps, s.j), s.pieces[0].v)),)),))
            if not z3.is_true(z3.simplify(s.guard)):
                raise Unsupported('enumerate')
            return self.new(p, self.seq(s.n, lambda j: (z3.simplify(first + j), self.sub(s.pieces[0].v, s.j, j))))
        if n == 'zip' and len(args) == 2 and not kw:
            a, b = (self.iterable(x, p) for x in args)
            if not all(len(x) == 1 and isinstance(x[0], Fam) and x[0].j.sort() == I and z3.is_true(z3.simplify(x[0].guard)) and len(x[0].pieces) == 1 and isinstance(x[0].pieces[0], One) for x in (a, b)):
                raise Unsupported('zip')
            a, b = a[0], b[0]
            n = a.n if self.entails(p, a.n == b.n) else z3.If(a.n <= b.n, a.n, b.n)
            return self.new(p, self.seq(n, lambda j: (self.sub(a.pieces[0].v, a.j, j), self.sub(b.pieces[0].v, b.j, j))))
        if n == 'float' and len(args) == 1:
            if isinstance(args[0], O) and '#float' in args[0].attrs:
                raise Raised(args[0].attrs['#float'])
            return self.real(self.num(args[0]))
        if n == 'int' and len(args) == 1:
            if isinstance(args[0], Opaque):
                return Opaque()
            if args[0].sort() == I:
                return args[0]
            raise Unsupported('int')
        if n == 'range':
            a = [self.num(x) for x in args]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
            m = z3.simplify(hi - lo if self.entails(p, hi >= lo) else z3.If(hi >= lo, hi - lo, 0))
            if self.con.invariants is not None:
                n, m = m, self.fresh('n')
                p.facts.append(m == n)
            return Rng(m, lo, hi if not z3.is_int_value(z3.simplify(lo)) and self.con.invariants is None and self.entails(p, lo >= 0) else None)
        if n == 'isinstance' and len(args) == 2:
            v, ts = args[0], args[1] if isinstance(args[1], tuple) else (args[1],)
            for t in ts:
                if not isinstance(t, Typ):
                    raise Unsupported('isinstance')
                known = {'int': z3.is_expr(v) and v.sort() in (I, B), 'float': z3.is_expr(v) and v.sort() == R,
                         'list': isinstance(v, Ref) and v.kind == 'list', 'set': isinstance(v, Ref) and v.kind == 'set', 'tuple': isinstance(v, tuple), 'str': isinstance(v, str)}
                if t.name in known:
                    r = known[t.name]
                elif isinstance(v, O) and ('#is ' + t.name) in v.attrs:
                    r = v.attrs['#is ' + t.name]
                    if len(ts) > 1:
                        raise Unsupported('isinstance')
                    return r
                elif isinstance(v, O) and v.cls is not None:
                    r = v.cls == t.name
                elif t.name == 'Iterable':
                    r = isinstance(v, (Ref, tuple))
                elif isinstance(v, (Ref, tuple)) or z3.is_expr(v):
                    r = False
                else:
                    raise Unsupported('isinstance')
                if r:
                    return z3.BoolVal(True)
            return z3.BoolVal(False)
        if n in ('any', 'all') and len(args) == 1:
            def q(ps):
                out = []
                for s in ps:
                    if isinstance(s, One):
                        out.append(self.truth(s.v, p))
                    else:
                        b = z3.simplify(q(s.pieces))
                        r = z3.And(in_range(s), s.guard)
                        if z3.is_true(b) or z3.is_false(b):
                            if z3.is_true(b) == (n == 'all'):
                                continue
                        out.append(z3.Exists([s.j], z3.And(r, b)) if n == 'any' else z3.ForAll([s.j], z3.Implies(r, b)))
                if not out:
                    return z3.BoolVal(n == 'all')
                return z3.Or(*out) if n == 'any' else z3.And(*out)
            return q(self.pieces(args[0], p))
        if n in ('min', 'max') and len(args) == 2:
            if any(isinstance(x, Opaque) for x in args):
                return Opaque()
            a, b = self.num(args[0]), self.num(args[1])
            return z3.If(a <= b, a, b) if n == 'min' else z3.If(a >= b, a, b)
        if n == 'max' and len(args) == 1:
            ps = self.pieces(args[0], p)
            m = self.fresh('max')
            for s in ps:
                if isinstance(s, Fam) and len(s.pieces) == 1 and isinstance(s.pieces[0], One):
                    p.facts.append(z3.ForAll([s.j], z3.Implies(z3.And(s.j >= 0, s.j < s.n, s.guard), s.pieces[0].v <= m)))
                else:
                    raise Unsupported('max')
            self.maxima = getattr(self, 'maxima', []) + [(m, self.keys(ps))]
            return m
        if n == 'sum' and len(args) == 1:
            whole = []

            def m(v):
                if z3.is_expr(v) and z3.is_bool(v):
                    whole.append(True)
                    return IND(v)
                return self.real(self.num(v))
            r = self.measure(self.pieces(args[0], p), m)
            return z3.ToInt(r) if whole else r
        if n == 'abs' and len(args) == 1:
            v = self.num(args[0])
            return z3.If(v >= 0, v, -v)
        if n == 'sorted' and len(args) == 1 and not kw:
            ps = self.pieces(args[0], p)
            self.sorted = getattr(self, 'sorted', []) + [self.new(p, ps)]
            return self.sorted[-1]
        if n == 'product' and len(args) == 2:
            a, b = self.iterable(args[0], p), self.iterable(args[1], p)

            def cross(ps, f):
                out = []
                for s in ps:
                    if isinstance(s, One):
                        out += f(s.v)
                    else:
                        s = self.sub((s,), z3.Int('#none'), z3.Int('#none'))[0]
                        out.append(Fam(s.n, s.j, s.guard, cross(s.pieces, f)))
                return tuple(out)
            return self.new(p, cross(a, lambda x: cross(b, lambda y: (One((x, y)),))))
        if n == 'chain' and len(args) == 1 and isinstance(args[0], O) and '#flat' in args[0].attrs:
            return self.new(p, args[0].attrs['#flat'])
        if n == 'tuple' and len(args) == 1 and not kw:
            return self.iterable(args[0], p)
        if n == 'list' and len(args) <= 1:
            return self.new(p, self.iterable(args[0], p) if args else ())
        raise Unsupported('call of ' + n)

    # ---------------------------------------------------------------- statements
    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, v):
                self.assign(x, y, p)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, p)
            k = self.ev(t.slice, p)
            if isinstance(o, Ref) and o.kind == 'map':
                k, (sort, dom, val, writes) = self.kz(k), p.heap[o.cell]
                v = v.key if isinstance(v, O) and v.key is not None else v if z3.is_expr(v) and v.sort() == Elem else self.num(v)
                p.heap[o.cell] = (sort, lambda x: z3.Or(dom(x), x == k), lambda x: z3.If(x == k, v, val(x)), writes + ((k, v),))
                return
            if isinstance(o, Ref) and o.kind == 'list' and z3.is_expr(k) and any(k.eq(b) for b in p.binders) and o.cell not in self.stored:
                p.heap[o.cell] = p.heap[o.cell] + (Upd(k, self.freeze(v, p)),)
                return
            if isinstance(o, Ref) and o.kind in ('counts', 'counter'):
                k, v = self.kz(k), self.num(v)
                for c in consts_in(v) if z3.is_expr(v) else ():
                    h = getattr(self, 'held', {}).get(c.decl().name())
                    d = z3.simplify(v - c) if h else None
                    if h and h[0] == o.cell and h[1].eq(k) and h[2] is p.heap[o.cell] and not self.mentions(d, c):
                        p.heap[o.cell] = p.heap[o.cell] + (One((k, d)),)
                        return
                raise Unsupported('assignment to an element')
            if isinstance(o, Ref) and o.kind == 'dict':
                if not (isinstance(v, (Ref, O)) and (isinstance(v, O) or v.kind == 'list')):
                    raise Unsupported('entry')
                d = p.heap[o.cell]
                k = z3.simplify(k)
                for kk, _ in d['items']:
                    if not kk.eq(k) and not self.entails(p, kk != k) and not self.entails(p, kk == k):
                        raise Unsupported('key')
                if d['base'] is not None and not self.entails(p, z3.Not(d['has'](k))):
                    raise Unsupported('entry replaced')
                items = [(kk, r) for kk, r in d['items'] if not (kk.eq(k) or self.entails(p, kk == k))]
                p.heap[o.cell] = dict(d, items=items + [(k, v)], assigned=d.get('assigned', []) + [k])
                return
            raise Unsupported('assignment to an element')
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, p)
            if isinstance(o, Ref) and o.kind == 'obj':
                p.heap[o.cell] = dict(p.heap[o.cell], **{t.attr: v})
                return
            if isinstance(o, O) and isinstance(t.value, ast.Name) and ('set_' + t.attr) in o.methods:
                p.env[t.value.id] = o.methods['set_' + t.attr](self, p, [v], {})
                return
            raise Unsupported('assignment to an attribute')
        else:
            raise Unsupported('assignment')

    def block(self, stmts, p, k):
        """k(path) continues; returns nothing"""
        if not stmts:
            return k(p)
        s, rest = stmts[0], stmts[1:]
        q = p.copy()
        try:
            return self.stmt(s, rest, q, k)
        except Raised as r:
            return self.leave(q, 'raise', r.name)
        except Fork as f:
            for c in (f.cond, z3.Not(f.cond)):
                r = p.copy()
                r.branch(c)
                if self.feasible(r):
                    self.block(stmts, r, k)

    def feasible(self, p):
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(p.facts)
        return s.check() != z3.unsat

    def stmt(self, s, rest, p, k):
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return self.block(rest, p, k)
        if isinstance(s, ast.Expr):
            self.ev(s.value, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, p)
            for t in s.targets:
                self.assign(t, v, p)
            return self.block(rest, p, k)
        if isinstance(s, ast.AugAssign):
            cnt = None
            if isinstance(s.target, ast.Subscript):
                o = self.ev(s.target.value, p)
                if isinstance(o, Ref) and o.kind in ('counts', 'counter'):
                    cnt = (o, self.ev(s.target.slice, p))
            cur = None if cnt else self.ev(ast.Name(s.target.id, ast.Load()), p) if isinstance(s.target, ast.Name) else self.ev(
                ast.Subscript(s.target.value, s.target.slice, ast.Load()), p) if isinstance(s.target, ast.Subscript) else None
            v = self.ev(s.value, p)
            if cnt is not None:
                if not isinstance(s.op, ast.Add):
                    raise Unsupported('in-place operator')
                p.heap[cnt[0].cell] = p.heap[cnt[0].cell] + (One((cnt[1], self.num(v))),)
                return self.block(rest, p, k)
            if isinstance(cur, Entry) and isinstance(s.op, ast.Add):
                self.add_entries(cur, self.iterable(v, p), p)
                return self.block(rest, p, k)
            if isinstance(cur, Ref) and cur.kind == 'list':
                if not isinstance(s.op, ast.Add):
                    raise Unsupported('in-place operator')
                self.unread(cur, p)
                if cur.cell in self.stored:
                    raise Unsupported('a list stored elsewhere is changed')
                p.heap[cur.cell] = p.heap[cur.cell] + self.iterable(v, p)
                return self.block(rest, p, k)
            if cur is None:
                raise Unsupported('in-place operator')
            self.assign(s.target, self.binop(s.op, cur, v, p), p)
            return self.block(rest, p, k)
        if isinstance(s, ast.If):
            c = z3.simplify(self.truth(self.ev(s.test, p), p))
            for cond, body in ((c, s.body), (z3.Not(c), s.orelse)):
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                q = p.copy()
                if not z3.is_true(cond):
                    q.branch(cond)
                    if not self.feasible(q):
                        continue
                self.block(list(body), q, lambda r: self.block(rest, r, k))
            return
        if isinstance(s, ast.Return):
            return self.leave(p, 'return', self.ev(s.value, p) if s.value is not None else None)
        if isinstance(s, ast.Raise):
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            return self.leave(p, 'raise', x.id if isinstance(x, ast.Name) else '?')
        if isinstance(s, ast.With):
            for w in s.items:
                v = self.ev(w.context_expr, p)
                if not (isinstance(v, O) and 'context' in v.attrs):
                    raise Unsupported('with')
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v, p)
            return self.block(list(s.body) + rest, p, k)
        if isinstance(s, ast.For):
            return self.loop(s, rest, p, k)
        if isinstance(s, ast.Try) and not s.finalbody:
            if s.orelse or any(not isinstance(x, (ast.Assign, ast.Expr, ast.AugAssign)) for x in s.body):
                raise Unsupported('try')
            q = p.copy()
            try:
                for x in s.body:
                    out = []
                    self.stmt(x, [], q.copy(), out.append)
                    if len(out) != 1:
                        raise Unsupported('try')
                    q = out[0]
            except Raised as r:
                for h in s.handlers:
                    if h.type is None or isinstance(h.type, ast.Name) and h.type.id in (r.name, 'Exception'):
                        return self.block(list(h.body), q, lambda t: self.block(rest, t, k))
                raise
            return self.block(rest, q, k)
        if isinstance(s, ast.Continue):
            return self.again(p)
        if isinstance(s, ast.Break) and getattr(self, 'brk', None) is not None:
            return self.brk(p)
        raise Unsupported(type(s).__name__)

    def unread(self, r, p):
        """a list stored in the base of a dictionary must not be changed"""
        for c, d in p.heap.items():
            if c[0] == 'dict':
                for kk, rr in d['items']:
                    if rr.cell == r.cell and any(kk.eq(x) for x in d['read']):
                        raise Unsupported('an earlier entry is changed')

    def loop(self, s, rest, p, k):
        if s.orelse:
            raise Unsupported('loop else')
        it = self.ev(s.iter, p)
        if self.con.invariants is not None and (isinstance(it, Rng) or (isinstance(it, Ref) and it.cell == getattr(self, 'loop_over', None))):
            return self.con.invariants(self, s, it, rest, p, k)
        ps = self.iterable(it, p)
        self.walk(s, list(ps), p, lambda q: self.block(rest, q, k))

    def walk(self, s, pieces, p, k):
        if not pieces:
            return k(p)
        t, more = pieces[0], pieces[1:]
        if isinstance(t, One):
            q = p.copy()
            self.assign(s.target, self.deref(t.v, q), q)
            old, oldb = getattr(self, 'again', None), getattr(self, 'brk', None)

            def nxt(r):
                cur = self.again, self.brk
                self.again, self.brk = old, oldb
                self.walk(s, more, r, k)
                self.again, self.brk = cur

            def stop(r):
                cur = self.again, self.brk
                self.again, self.brk = old, oldb
                k(r)
                self.again, self.brk = cur
            self.again, self.brk = nxt, stop
            self.block(list(s.body), q, nxt)
            self.again, self.brk = old, oldb
            return
        if self.con.state is not None and self.changes_maps(s, t, p):
            return self.stateful(s, t, p, lambda q: self.walk(s, more, q, k), k)
        self.summarise(s, t, p, lambda q: self.walk(s, more, q, k))

    def changes_maps(self, s, t, p):
        """does the body of the loop change a dictionary?"""
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name):
                    v = p.env.get(y.value.id)
                    if isinstance(v, Ref) and v.kind == 'map' and p.heap[v.cell][2](z3.Const('#k', p.heap[v.cell][0])).sort() == Elem:
                        return True
        return False

    def stateful(self, s, t, p, k, after):
        """a loop that changes dictionaries, with an invariant over the keys its elements cover"""
        t = self.sub((t,), z3.Int('#none'), z3.Int('#none'))[0]
        if len(t.pieces) != 1 or not isinstance(t.pieces[0], One):
            raise Unsupported('loop over nested families')
        used = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name)}
        maps = {n: v.cell for n, v in p.env.items() if n in used and isinstance(v, Ref) and v.kind == 'map'}
        cells = sorted(set(maps.values()), key=str)
        stores = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        sort = self.con.labels
        cov = lambda v: self.con.covers(self, v)
        start = {c: p.heap[c] for c in cells}

        def any_state(q, vis):
            for c in cells:
                srt, dom, val = q.heap[c][:3]
                d, v = self.func('keys', srt, B), self.func('entry', srt, val(z3.Const('#k', srt)).sort())
                q.heap[c] = (srt, lambda x, d=d: d(x), lambda x, v=v: v(x), ())
            for x in stores:
                q.env.pop(x, None)
            q.facts += [f for _, f in self.con.state(self, start, q, vis)]

        def holds(q, vis, when):
            for n, f in self.con.state(self, start, q, vis):
                self.goal(f'{n} ({when})', q, f)
        holds(p, lambda x: z3.BoolVal(False), 'before the loop')
        w = self.func('covered', sort, B)
        q = p.copy()
        any_state(q, lambda x: w(x))
        x = z3.Const('k?', sort)
        e = cov(t.pieces[0].v)
        al = z3.Exists([t.j], z3.And(in_range(t), t.guard, e(x)))
        q.facts += [z3.ForAll([x], z3.Implies(w(x), al), patterns=[w(x)]), in_range(t), t.guard]
        q.binders.append(t.j)
        before = dict(q.heap)
        old, oldb = getattr(self, 'again', None), getattr(self, 'brk', None)

        def same(r):
            for c, v in r.heap.items():
                if c in before and c not in cells and v is not before[c]:
                    raise Unsupported('a list is changed in a loop with an invariant')

        def end(r):
            same(r)
            holds(r, lambda x: z3.Or(w(x), e(x)), 'after an iteration')

        def stop(r):
            same(r)
            cur = self.again, self.brk
            self.again, self.brk = old, oldb
            r = r.copy()
            r.binders = list(p.binders)
            after(r)
            self.again, self.brk = cur
        self.again, self.brk = end, stop
        if self.feasible(q):
            self.assign(s.target, self.deref(t.pieces[0].v, q), q)
            self.block(list(s.body), q, end)
        self.again, self.brk = old, oldb
        out = p.copy()
        full = self.func('all_covered', sort, B)
        out.facts += [z3.ForAll([x], full(x) == al, patterns=[full(x)]),
                      z3.ForAll([t.j, x], z3.Implies(z3.And(in_range(t), t.guard, e(x)), full(x)))]
        any_state(out, lambda y: full(y))
        k(out)

    def summarise(self, s, t, p, k):
        """effect of the loop over a family: what each path of the body appends or multiplies"""
        t = self.sub((t,), z3.Int('#none'), z3.Int('#none'))[0]
        q = p.copy()
        q.facts += [in_range(t), t.guard]
        q.binders.append(t.j)
        # numbers assigned in the body: their value at the start of an iteration is not known
        stores = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        start = {}
        for x in stores:
            if z3.is_expr(q.env.get(x)) and q.env[x].sort() in (I, R, B):
                start[x] = q.env[x] = self.fresh(x, q.env[x].sort())
        fresh_maps = {}
        for c, v in list(q.heap.items()):
            if c[0] == 'map':
                f = self.func('map', v[0], I)
                fresh_maps[c] = f
                q.heap[c] = (v[0], v[1], lambda x, f=f: f(x), ())
        before = dict(q.heap)
        base = dict(q.env)
        nc = len(q.conds)
        ends = []
        old, oldleave = getattr(self, 'again', None), self.leave
        blind = set(self.blind)

        def leave(r, kind, v):
            if kind == 'raise':
                cond = self.allowed.get(v)
                if cond is None:
                    self.goal(f'{v} is not raised', r, z3.BoolVal(False))
                else:
                    self.goal(f'{v} is raised only for invalid arguments', r, cond)
                ends.append((r, 'raise'))
                return
            raise Unsupported('return in a loop')
        self.leave = leave
        if self.feasible(q):
            # first which lists are appended to; they must not be read in the body
            self.quiet += 1
            self.again = lambda r: ends.append((r, 'end'))
            self.walk(s, list(t.pieces), q.copy(), lambda r: ends.append((r, 'end')))
            self.quiet -= 1
            for r, _ in ends:
                self.blind |= {c for c, v in r.heap.items() if c in p.heap and c[0] == 'list' and v is not p.heap[c]}
            for c in [c for c in fresh_maps if all(r.heap[c] is before[c] for r, _ in ends)]:
                q.heap[c] = before[c] = p.heap[c]       # only read
                del fresh_maps[c]
            ends.clear()
            self.again = lambda r: ends.append((r, 'end'))
            self.walk(s, list(t.pieces), q.copy(), lambda r: ends.append((r, 'end')))
        self.again, self.leave, self.blind = old, oldleave, blind
        for r, kind in ends:
            for x, hv in start.items():
                if any(self.mentions(c, hv) for c in r.conds[nc:]):
                    raise Unsupported(f'{x} carries state')
        out = p.copy()
        names = {x.id for y in ast.walk(s.target) for x in [y] if isinstance(x, ast.Name)}
        done = []
        for r, kind in ends:
            guard = z3.simplify(z3.And(t.guard, *r.conds[nc:])) if len(r.conds) > nc else t.guard
            if kind == 'raise':
                if not guard.eq(t.guard):
                    out.facts.append(z3.ForAll([t.j], z3.Implies(in_range(t), z3.Not(guard))))
                else:
                    out.facts.append(t.n <= 0 if t.j.sort() == I else z3.ForAll([t.j], z3.Not(guard)))
            else:
                done.append((r, guard))

        fails = [z3.And(*r.conds[nc:]) for r, kind in ends if kind == 'raise' and len(r.conds) > nc]
        if fails:
            # afterwards no iteration has raised
            q.facts += [z3.Not(f) for f in fails]
            done = [(r, t.guard if self.entails(q, g) else g) for r, g in done]

        def grouped(effects):
            """[(guard, effect)] with equal effects joined"""
            gs = {}
            for g, x in effects:
                gs.setdefault(self.key(x), []).append((g, x))
            res = []
            for v in gs.values():
                g = v[0][0]
                if len(v) > 1:
                    g = z3.simplify(z3.Or(*[y for y, _ in v]))
                    if len(v) == len(done) or self.entails(q, g):
                        g = t.guard
                res.append((g, v[0][1]))
            return res
        cells = []
        for r, guard in done:
            cells += [c for c, v in r.heap.items() if c in p.heap and v is not before[c] and c not in cells]
        for c in cells:
            o = p.heap[c]
            if c[0] == 'map':
                self.merge_map(c, o, fresh_maps[c], out, t, done)
                continue
            if c[0] == 'dict':
                for r, guard in done:
                    if r.heap[c] is not before[c]:
                        self.merge_dict(c, o, r.heap[c], out, t, guard, r, p)
                continue
            eff = []
            if c[0] == 'list' and any(isinstance(x, Upd) for r, _ in done for x in r.heap[c]):
                v = done[0][0].heap[c]
                one = len(o) == 1 and isinstance(o[0], Fam) and z3.is_true(z3.simplify(o[0].guard)) and len(o[0].pieces) == 1 and isinstance(o[0].pieces[0], One)
                if len(done) != 1 or not one or len(v) != 2 or v[0] is not o[0] or not v[1].i.eq(t.j) or not done[0][1].eq(t.guard) or not z3.is_true(z3.simplify(t.guard)) \
                        or not self.entails(p, o[0].n == t.n):
                    raise Unsupported('elements of a list are replaced')
                out.heap[c] = (Fam(t.n, t.j, TRUE, (One(v[1].v),)),)
                continue
            for r, guard in done:
                v = r.heap[c]
                if c[0] != 'list' or v[:len(o)] != o:
                    raise Unsupported('a list is changed other than by appending')
                eff.append((guard, v[len(o):]))
            eff = [(g, x) for g, x in grouped(eff) if x]
            for g, x in eff:
                text = self.key(x)
                for y, hv in start.items():
                    if hv.decl().name() in text:
                        raise Unsupported(f'{y} carries state')
                if any(f.name() in text for f in fresh_maps.values()):
                    raise Unsupported('a dictionary carries state')
            if len(eff) == 1:
                out.heap[c] = out.heap[c] + (Fam(t.n, t.j, eff[0][0], eff[0][1]),)
            else:
                out.heap[c] = out.heap[c] + (Fam(t.n, t.j, t.guard, tuple(Fam(z3.IntVal(1), self.fresh('j'), g, x) for g, x in eff)),)
        names_changed = []
        for r, guard in done:
            names_changed += [x for x, v in r.env.items() if x in p.env and v is not base[x] and x not in names_changed]
        for x in names_changed:
            a = base[x]
            if x in names:
                out.env.pop(x, None)
                continue
            vs = [r.env.get(x) for r, _ in done]
            if not z3.is_expr(a) or a.sort() not in (I, R) or not all(z3.is_expr(v) and v.sort() in (I, R) for v in vs):
                if isinstance(a, Ref) or any(isinstance(v, Ref) for v in vs):
                    self.local(x, s)
                out.env.pop(x, None)
                continue
            if not any(self.mentions(v, a) for v in vs) and done and len(done) == 1:
                out.env.pop(x, None)        # a number of the iteration, not needed afterwards
                continue
            av = self.real(a)
            adds, muls = [], []
            for v, (r, guard) in zip(vs, done):
                vv = self.norm(self.real(v))
                d = self.norm(vv - av)
                if not self.mentions(d, a):
                    adds.append((guard, d))
                    if z3.is_rational_value(d) and d.as_fraction() == 0:
                        muls.append((guard, z3.RealVal(1)))
                    continue
                fac = z3.simplify(z3.substitute(vv, (av, z3.RealVal(1))), som=True)
                if not z3.is_const(av) or self.mentions(fac, a) or not self.same(fac * av, vv):
                    raise Unsupported(f'{x} carries state')
                muls.append((guard, fac))
            if len(adds) == len(done):
                new = self.real(out.env[x])
                for g, d in grouped(adds):
                    new = new + self.total(t.n, t.j, g, d)
            elif len(muls) == len(done):
                new = self.real(out.env[x])
                for g, d in grouped(muls):
                    if not (z3.is_rational_value(d) and d.as_fraction() == 1):
                        new = new * self.name_sum(t.n, t.j, g, d, 'product')
            else:
                raise Unsupported(f'{x} carries state')
            for y, hv in start.items():
                if self.mentions(new, hv):
                    raise Unsupported(f'{y} carries state')
            new = z3.simplify(new, som=True)
            if a.sort() == I:
                n2 = self.fresh(x)
                out.facts.append(z3.ToReal(n2) == new)
                new = n2
            out.env[x] = new
        for r, kind in ends:
            for x in r.env:
                if x not in p.env:
                    out.env.pop(x, None)
        k(out)

    def merge_map(self, c, o, f, out, t, done):
        """d[k] = max(d[k], g) or d[k] += g in a loop"""
        if all(len(r.heap[c][3]) <= 1 for r, _ in done):
            uses, adds = (lambda x: f.name() in x.sexpr()), []
            for r, guard in done:
                for k, v in r.heap[c][3]:
                    g = z3.simplify(v - f(k))
                    if uses(k) or uses(guard) or uses(g):
                        break
                    if not self.entails(r, o[1](k)):
                        raise Unsupported('a key may be added in a loop')
                    adds.append((k, g, guard))
                else:
                    continue
                break
            else:
                sort, dom, val = out.heap[c][:3]

                def total(x):
                    s = z3.RealVal(0)
                    for k, g, guard in adds:
                        s = s + self.total(t.n, t.j, guard, IND(k == x) * self.real(g))
                    return z3.ToInt(s)
                out.heap[c] = (sort, dom, lambda x: z3.simplify(val(x) + total(x)), ())
                return
        if len(done) != 1 or len(done[0][0].heap[c][3]) != 1:
            raise Unsupported('entries of a map in a loop')
        r, guard = done[0]
        k, v = r.heap[c][3][0]
        uses = lambda x: f.name() in x.sexpr()
        if uses(k) or uses(guard) or not z3.is_app_of(v, z3.Z3_OP_ITE):
            raise Unsupported('entries of a map in a loop')
        gs = [x for x in v.children()[1:] if not uses(x)]
        if len(gs) != 1 or not self.valid(v == z3.If(f(k) >= gs[0], f(k), gs[0])):
            raise Unsupported('entries of a map in a loop')
        g = gs[0]
        if not self.entails(r, o[1](k)):
            raise Unsupported('a key may be added in a loop')
        sort, dom, val = out.heap[c][:3]
        m = self.func('greatest', sort, I)
        x = z3.Const('x!', sort)
        rng = z3.And(in_range(t), guard)
        out.facts += [z3.ForAll([t.j], z3.Implies(rng, m(k) >= g)), z3.ForAll([x], m(x) >= val(x), patterns=[m(x)]),
                      z3.ForAll([x], z3.Or(m(x) == val(x), z3.Exists([t.j], z3.And(rng, k == x, g == m(x)))), patterns=[m(x)])]
        out.heap[c] = (sort, lambda y: z3.Or(dom(y), z3.Exists([t.j], z3.And(rng, k == y))), lambda y: m(y), ())

    def mentions(self, e, a):
        cs = [c for c in consts_in(a)]
        return any(any(c.eq(d) for d in cs) for c in consts_in(e))

    def same(self, a, b):
        return z3.is_true(z3.simplify(self.norm(a - b) == 0))

    def local(self, x, s):
        """a list variable rebound in the body must not be needed before it is assigned"""
        raise Unsupported(f'{x} carries a list from one iteration to the next')

    def merge_dict(self, c, o, v, out, t, guard, r, p):
        """entries appended to under a key that does not depend on the loop variable"""
        d = out.heap[c]
        items = list(d['items'])
        for kk, ref in v['items']:
            if isinstance(ref, Ref) and any(kk.eq(x) for x in v.get('assigned', [])[len(o.get('assigned', [])):]):
                raise Unsupported('entry replaced in a loop')
            if any(x.eq(t.j) for x in consts_in(kk)):
                if o['items'] or o['base'] is not None or 'fam' not in o:
                    raise Unsupported('keys depend on the loop')
                if isinstance(ref, O):
                    d = dict(d, fam=d['fam'] + [('set', t.n, t.j, guard, kk, ref)])
                else:
                    d = dict(d, fam=d['fam'] + [('append', t.n, t.j, guard, kk, r.heap[ref.cell])])
                continue
            old = [x for x in items if x[0].eq(kk)]
            was = [x for x in o['items'] if x[0].eq(kk)]
            after = r.heap[ref.cell]
            if was:
                if was[0][1].cell != ref.cell:
                    raise Unsupported('entry replaced in a loop')
                continue        # the cell itself has been merged
            if old:
                out.heap[old[0][1].cell] = out.heap[old[0][1].cell] + (Fam(t.n, t.j, guard, after),)
            else:
                # the entry appears in the first iteration
                out.heap[ref.cell] = (Fam(t.n, t.j, guard, after),)
                items.append((kk, ref))
        if v['read'] != o['read']:
            raise Unsupported('entries read in a loop')
        out.heap[c] = dict(d, items=items, maybe=d.get('maybe', []) + [kk for kk, _ in items[len(d['items']):]])

    def leave(self, p, kind, v):
        self.paths += 1
        allowed = self.allowed
        if kind == 'raise':
            if v not in allowed:
                self.goal(f'{v} is not raised', p, z3.BoolVal(False))
            else:
                self.goal(f'{v} is raised only for invalid arguments', p, allowed[v])
            return
        if '#out' in p.env:
            v = p.env['#out']
        if not self.quiet:
            self.returns = getattr(self, 'returns', 0) + 1
            c = z3.Solver()
            c.set('timeout', 300)
            c.add(p.facts)
            self.live = getattr(self, 'live', 0) + (c.check() != z3.unsat)
        for x, cond in allowed.items():
            self.goal(f'{x} is raised for invalid arguments', p, z3.Not(cond))
        for name, old in self.entry.heap.items():
            if p.heap.get(name) is not old and name not in getattr(self, 'own', ()):
                self.goal('arguments are left as they were', p, z3.BoolVal(False))
        for n, f in self.con.post(self, p, v):
            self.goal(n, p, z3.BoolVal(f) if isinstance(f, bool) else f)

    def run(self):
        p = Path({}, {}, [], [])
        env, facts = self.con.start(self, p)
        names = [a.arg for a in self.fn.args.args]
        if set(names) != set(env) or self.fn.args.vararg or self.fn.args.kwonlyargs:
            raise Unsupported(f'parameters of {self.con.name}')
        p.env.update(env)
        p.facts += facts
        self.entry = p.copy()
        self.allowed = self.con.raises(self)
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(p.facts)
        if s.check() == z3.unsat:
            raise Unsupported('vacuous: the precondition is contradictory')
        if is_generator(self.fn):
            p.env['#out'] = self.new(p, ())
        self.block(list(self.fn.body), p, lambda q: self.leave(q, 'return', None))
        if not self.paths:
            raise Unsupported('no path reaches the end')
        if getattr(self, 'returns', 0) and not self.live:
            raise Unsupported('vacuous: every path to a return is contradictory')


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Raised(Exception):
    def __init__(self, name):
        self.name = name


class Inline:
    def __init__(self, fn, path):
        self.fn, self.path = fn, path


class Rng:
    def __init__(self, n, lo, hi=None):
        self.n, self.lo, self.hi = n, lo, hi        # hi: iterated as j < hi with lo <= j


class Star:
    """a list given as the remaining arguments of a call"""
    def __init__(self, pieces):
        self.pieces = pieces


class Rank:
    """position of element j in a filtered list (pieces), plus off"""
    def __init__(self, pieces, j, off=0):
        self.pieces, self.j, self.off = pieces, j, off


class Entry:
    """list kept in a multimap under a key"""
    def __init__(self, ref, key):
        self.ref, self.key = ref, key


class Text:
    """text made by an f-string"""
    def __init__(self, parts):
        self.parts = tuple(parts)


def is_generator(fn):
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(x))
    return False


class Lazy:
    """an attribute computed when read: f(ver, path)"""
    def __init__(self, f):
        self.f = f

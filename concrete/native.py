"""The contracts of /verif/contracts executed natively on the real code.

native.py --model FILE   replay of the verifier's counterexamples: [{id, model, size}] -> [{id, fails, what}] in --out FILE
native.py --fuzz PID --seed N --budget S [--only ID,..]   every obligation on drawn arguments (agreement of the verifier's
                         interpretation of Python with the real interpreter; bounded stand-in for undecided obligations)"""
import importlib
import json
import os
import random
import sys
import time
import types
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CONTRACTS = os.path.join(HERE, 'contracts')
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)
LET = 'gphvcaGPHVCA'
VIEW = {
    'Index': ('space', 'number'),
    'Indices': ('indices',),
    'IndicesPair': ('upper_indices', 'lower_indices'),
    'Tensor': ('upper_indices', 'lower_indices', 'name', 'priority'),
    'Term': ('list_of_tensors', 'sq_op', 'coeff'),
    'MOSpaceCounter': ('counter', 'n_spaces'),
}
MODULES = ('mo_space', 'Index', 'Indices', 'IndicesPair', 'Tensor', 'SQOperator', 'Term', 'sqop_contraction',
           'phys_op_contraction', 'write_forte_functions', 'helper.integer_partition', 'helper.file_utils', 'helper.multiprocess_helper')


class Outside(Exception):
    """the drawn arguments are outside the scenario"""


class NotNative(Exception):
    pass


# ---------------------------------------------------------------------------------------- stub of pyvc.verify
class Obligation:
    def __init__(self, oid, props, qual, scenario, run=None, sizes=(0, 1, 2, 3), native=True, **kw):
        self.oid, self.props, self.qual, self.scenario, self.run_, self.sizes = oid, props, qual, scenario, run, sizes
        self.native = native
        self.post = kw.get('post')
        self.unordered = kw.get('unordered', False)


class NInt(int):
    @property
    def e(self):
        return self


class NStr(str):
    @property
    def e(self):
        return self


class Foreign:
    def __init__(self, name):
        pass


def stub():
    m = types.ModuleType('verify')
    m.Obligation = Obligation
    m.LET = LET
    m.Foreign = Foreign
    m.Dec = str
    m.SStr = lambda parts: ''.join(str(p) for p in parts)
    m.Items = lambda vs: list(vs)
    m.PList = lambda e, segs: [x for s in segs for x in s]
    m.Items.__name__ = 'Items'
    m.z3 = None
    m.__all__ = ['Obligation', 'LET', 'Foreign', 'Dec', 'SStr', 'Items', 'PList', 'z3']
    sys.modules['verify'] = m


# ---------------------------------------------------------------------------------------- views and contracts
SPECS = {}


class NView:
    """an abstract object: a class and its public view; methods are the contracts"""

    def __init__(self, cls, view):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_view', view)

    @property
    def __class__(self):
        return object.__getattribute__(self, '_cls')

    def __getattr__(self, name):
        view = object.__getattribute__(self, '_view')
        if name in view:
            return view[name]
        cls = object.__getattribute__(self, '_cls')
        for c in cls.__mro__:
            f = SPECS.get((c.__name__, name))
            if f is not None:
                kind, g = f
                if kind == 'prop':
                    return g(self)
                if kind == 'static':
                    return g
                return types.MethodType(g, self)
        if name.startswith('__'):
            raise AttributeError(name)
        raise NotNative(f'{cls.__name__}.{name} of a view')

    def _op(self, name, *a):
        return self.__getattr__(name)(*a)

    def __eq__(self, o):
        return same(self, o)

    def __ne__(self, o):
        return not same(self, o)

    def __lt__(self, o):
        return self._op('__lt__', o)

    def __le__(self, o):
        return self._op('__le__', o)

    def __gt__(self, o):
        return self._op('__gt__', o)

    def __ge__(self, o):
        return self._op('__ge__', o)

    def __hash__(self):
        return 0

    def __iter__(self):
        return self._op('__iter__')

    def __len__(self):
        return self._op('__len__')

    def __getitem__(self, i):
        return self._op('__getitem__', i)

    def __contains__(self, i):
        return self._op('__contains__', i)

    def __add__(self, o):
        return self._op('__add__', o)

    def __repr__(self):
        return f"<{self._cls.__name__} {self._view}>"


def fields(c):
    for k in c.__mro__:
        if k.__name__ in VIEW:
            return VIEW[k.__name__]
    return None


def same(a, b):
    if a is b:
        return True
    ca, cb = a.__class__, b.__class__
    fa = fields(ca)
    if fa is not None:
        return ca is cb and all(same(getattr(a, f), getattr(b, f)) for f in fa)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return all(any(same(k, m) and same(v, w) for m, w in b.items()) for k, v in a.items())
    if hasattr(a, '__next__'):
        return same(list(a), b)
    if hasattr(b, '__next__'):
        return same(a, list(b))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def snapshot(x, depth=0):
    """a copy of the public view of an argument"""
    f = fields(x.__class__)
    if f is not None:
        return (x.__class__.__name__, tuple(snapshot(getattr(x, k)) for k in f))
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(snapshot(y)) for y in x)
    if isinstance(x, dict):
        return sorted((repr(snapshot(k)), repr(snapshot(v))) for k, v in x.items())
    return repr(x) if isinstance(x, (int, float, str, bool, type(None))) else x.__class__.__name__


def distinct(l):
    l = list(l)
    return all(not same(l[i], l[j]) for i in range(len(l)) for j in range(i))


def forall(f, l):
    return all(f(x) for x in l)


def inversions(l):
    l = list(l)
    return sum(1 for i in range(len(l)) for j in range(i) if l[i] < l[j])


MOD = {}


def load():
    for m in MODULES:
        try:
            MOD[m] = importlib.import_module('dsrg_generator.' + m)
        except Exception:
            pass
    stub()
    sys.path.insert(0, CONTRACTS)
    env0 = dict(View=lambda cls, **kw: NView(cls, kw), distinct=distinct, forall=forall, ascending=sorted, inversions=inversions)
    for fn in sorted(os.listdir(CONTRACTS)):
        if not (fn.startswith('spec_') and fn.endswith('.py')):
            continue
        env = dict(env0, __name__='spec')
        with open(os.path.join(CONTRACTS, fn)) as f:
            exec(compile(f.read(), fn, 'exec'), env)
        for name, v in list(env.items()):
            if name.startswith('spec_') and isinstance(v, type):
                for a, g in vars(v).items():
                    if isinstance(g, property):
                        SPECS[name[5:], a] = ('prop', g.fget)
                    elif isinstance(g, staticmethod):
                        SPECS[name[5:], a] = ('static', g.__func__)
                    elif isinstance(g, types.FunctionType):
                        SPECS[name[5:], a] = ('def', g)
            elif name.startswith('new_') and callable(v):
                SPECS[name[4:], '<new>'] = ('def', v)
            elif name.startswith('spec_') and callable(v):
                SPECS[name[5:], None] = ('def', v)
    obs = []
    for fn in sorted(os.listdir(CONTRACTS)):
        if fn.startswith('obl_') and fn.endswith('.py'):
            obs.extend(importlib.import_module(fn[:-3]).obligations())
    return obs


class V:
    """concrete arguments: from a model, or drawn"""
    native = True
    e = None

    def __init__(self, model, size, rng):
        self.model, self.size, self.rng = model, size, rng

    def _get(self, name, draw):
        if name in self.model:
            return self.model[name]
        v = self.model[name] = draw()
        return v

    def int(self, name, lo=None):
        v = self._get(name, lambda: self.rng.choice([0, 1, 2, 3, 5, 12]) if lo is not None or self.rng.random() < .7 else -self.rng.randint(1, 3))
        if lo is not None and v < lo:
            v = lo
        return NInt(v)

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    def real(self, name):
        return float(self._get(name, lambda: self.rng.choice([0.0, 1.0, -0.5, 0.25, 3.0])))

    def letter(self, name, lo=0, hi=12):
        v = int(self._get(name, lambda: self.rng.randrange(lo, hi)))
        return NStr(LET[v])

    def text(self, name):
        v = self._get(name, lambda: self.rng.choice(['T', 'L1', 'x,y', 'A b', 'Tensor', 'z9']))
        return str(v)

    def idx(self, name, lo=0, hi=12):
        sp = self._get(name + '.sp', lambda: self.rng.randrange(lo, hi))
        num = self._get(name + '.num', lambda: self.rng.choice([0, 1, 2, 10]))
        return self.cls('Index')(f'{LET[sp]}{num}')

    def idxlist(self, name, distinct=True, hi=12, n=None):
        m = self.size if n is None else n
        if m is None:
            m = self.rng.choice([0, 1, 1, 2, 2, 3, 4])
        l = [self.idx(f'{name}{i}', hi=hi) for i in range(m)]
        if distinct and len(set(l)) != len(l):
            raise Outside()
        return l

    def labels(self, name):
        return [f'{i.space}{i.number}' for i in self.idxlist(name, distinct=False)]

    def joined(self, name):
        l = self.labels(name)
        if not l:
            raise Outside()
        return ', '.join(l)

    def indices(self, name, kind='IndicesSpinOrbital', real=False, n=None):
        l = self.idxlist(name, hi=6 if kind == 'IndicesSpinOrbital' else 12, n=n)
        return self.cls(kind)(l)

    def construct(self, c, args, kw=None):
        return c(*args, **(kw or {}))

    def built(self, thunk):
        try:
            return thunk()
        except (ValueError, TypeError):
            raise Outside()

    def op(self, name, cls='SecondQuantizedOperator', kind='IndicesSpinOrbital', nu=None, nl=None):
        u, l = self.indices(name + '.u', kind, n=nu), self.indices(name + '.l', kind, n=nl)
        return self.built(lambda: self.cls(cls)(u, l))

    def tensor(self, name, cls='Tensor', kind='IndicesSpinOrbital', n=None, nu=None, nl=None, fixed=False):
        m = self.size if self.size is not None else self.rng.choice([1, 1, 2, 3])
        u = self.indices(name + '.u', kind, n=nu if nu is not None else (n if n is not None else m))
        l = self.indices(name + '.l', kind, n=nl if nl is not None else (n if n is not None else m))
        kw = {} if fixed else {'name': self.text(name + '.name'), 'priority': self.int(name + '.prio')}
        return self.built(lambda: self.cls(cls)(u, l, **kw))

    def require(self, cond):
        if not cond:
            raise Outside()

    def lst(self, xs):
        return list(xs)

    def set(self, xs):
        return set(xs)

    def cls(self, name):
        for m in MOD.values():
            c = getattr(m, name, None)
            if isinstance(c, type):
                return c
        raise NotNative(f'class {name}')

    def __getattr__(self, name):
        raise NotNative(f'v.{name}')


def func(qual):
    modname, q = (qual.split(':') + [None])[:2] if ':' in qual else (None, qual)
    parts = q.split('.')
    for name, mod in MOD.items():
        if modname and name != modname:
            continue
        v = vars(mod).get(parts[0])
        if v is None:
            continue
        if len(parts) == 1:
            return 'def', v
        if isinstance(v, type):
            for c in v.__mro__:
                if parts[1] in vars(c):
                    f = vars(c)[parts[1]]
                    if isinstance(f, property):
                        return 'prop', f.fget
                    if isinstance(f, (staticmethod, classmethod)):
                        return 'static', getattr(v, parts[1])
                    return 'def', f
    raise NotNative(qual)


def spec(qual):
    q = qual.split(':')[-1].split('.')
    k = (q[0], None) if len(q) == 1 else (q[0], q[1])
    if k not in SPECS:
        raise NotNative('contract of ' + qual)
    return SPECS[k][1]


def outcome(f):
    try:
        r = f()
        if hasattr(r, '__next__'):
            r = list(r)
        return 'ok', r
    except (NotNative, Outside):
        raise
    except Exception as x:
        return 'raise', x


def run_one(ob, v):
    """None, or what fails"""
    try:
        sc = ob.scenario(v)
    except Outside:
        raise
    except (NotNative, AttributeError, TypeError) as x:
        raise NotNative(str(x))
    args, kw = sc if isinstance(sc, tuple) and len(sc) == 2 and isinstance(sc[1], dict) else (sc, {})
    if any(isinstance(a, type) for a in args[1:]):
        raise NotNative('class argument')
    before = snapshot([a for a in args if not isinstance(a, type)])
    s = spec(ob.qual)
    if ob.qual.endswith('.<new>'):
        body = lambda: args[0](*args[1:], **kw)
    else:
        _, f = func(ob.qual)
        body = lambda: f(*args, **kw)
    k1, r1 = outcome(body)
    if snapshot([a for a in args if not isinstance(a, type)]) != before:
        return f'an argument is changed: {before}'
    k2, r2 = outcome(lambda: s(*args, **kw))
    shown = f'arguments {args} {kw or ""}'
    if k1 != k2:
        return f'{shown}: the code {"raises " + repr(r1) if k1 == "raise" else "returns " + repr(r1)}, the contract says {"raise " + repr(r2) if k2 == "raise" else repr(r2)}'
    if k1 == 'raise':
        t1, t2 = type(r1).__name__, type(r2).__name__
        return None if t1 == t2 else f'{shown}: the code raises {t1}, the contract says {t2}'
    if ob.post is not None:
        try:
            ok = ob.post(v, r1, r2)
        except Exception as x:
            raise NotNative(f'post: {x}')
        return None if ok else f'{shown}: result {r1!r}, contract {r2!r}'
    if ob.unordered and isinstance(r1, list) and isinstance(r2, list):
        r2 = list(r2)
        for x in r1:
            for i, y in enumerate(r2):
                if same(x, y):
                    del r2[i]
                    break
            else:
                return f'{shown}: result {r1!r} has {x!r} once too often'
        return None if not r2 else f'{shown}: result {r1!r} misses {r2!r}'
    return None if same(r1, r2) else f'{shown}: result {r1!r}, contract {r2!r}'


def main(a):
    opt = dict(zip(a[::2], a[1::2]))
    obs = load()
    if '--model' in opt:
        out = []
        byid = {o.oid: o for o in obs}
        for rec in json.load(open(opt['--model'])):
            r = dict(id=rec['id'], fails=False, what='')
            ob = byid.get(rec['id'])
            if ob is None or ob.run_ is not None or not ob.native:
                r['what'] = 'not replayable'
            else:
                try:
                    w = run_one(ob, V(dict(rec['model']), rec['size'], random.Random(1)))
                    r['fails'], r['what'] = bool(w), w or 'the real code agrees with the contract on this input'
                except (Outside, NotNative) as x:
                    r['what'] = f'not replayable: {x}'
            out.append(r)
        json.dump(out, open(opt['--out'], 'w'))
        return 0
    pid, budget, seed = opt['--fuzz'], float(opt.get('--budget', 10)), int(opt.get('--seed', 1))
    only = set(opt['--only'].split('|')) if '--only' in opt else None
    obs = [o for o in obs if (pid == 'all' or pid in o.props) and (only is None or o.oid in only)]
    end = time.time() + budget
    stats = {o.oid: dict(id=o.oid, runs=0, outside=0, native=o.run_ is None and o.native, fails='') for o in obs}
    rng = random.Random(seed)
    rounds = 0
    while time.time() < end and obs and rounds < 400:
        rounds += 1
        for o in obs:
            s = stats[o.oid]
            if not s['native'] or s['fails'] or time.time() > end:
                continue
            model = {}
            try:
                w = run_one(o, V(model, None, rng))
                s['runs'] += 1
                if w:
                    s['fails'], s['model'] = w, model
            except Outside:
                s['outside'] += 1
            except NotNative as x:
                s['native'], s['why'] = False, str(x)
    json.dump(list(stats.values()), open(opt['--out'], 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

"""Independent mathematical specification used by the contracts (no code from /repo)."""
import itertools
from collections import Counter
from fractions import Fraction

LETTERS = 'gphvcaGPHVCA'
RANK = {c: i for i, c in enumerate(LETTERS)}
ELEM = {'g': 'cav', 'p': 'av', 'h': 'ca', 'v': 'v', 'c': 'c', 'a': 'a'}
ELEM = {k: frozenset(v) for k, v in ELEM.items()}
ELEM.update({k.upper(): frozenset(x.upper() for x in v) for k, v in list(ELEM.items())})
LABEL = {v: k for k, v in ELEM.items()}


def key(i):
    return RANK[i[0]], int(i[1:])


def is_beta(i):
    return i[0].isupper()


def inversions(seq):
    seq = list(seq)
    return sum(1 for x in range(len(seq)) for y in range(x + 1, len(seq)) if seq[x] > seq[y])


def parity(seq):
    return -1 if inversions(seq) % 2 else 1


def sort_sign(names):
    k = [key(i) for i in names]
    return tuple(sorted(names, key=key)), parity(k)


def latex_index(i):
    return f"{i[0]}_{{{int(i[1:])}}}"


def latex_list(l):
    return "{ " + " ".join(latex_index(i) for i in l) + " }"


def partitions(n, m=None):
    """partitions of n with parts <= m, in reverse lexicographic order"""
    m = n if m is None else m
    if n == 0:
        yield []
        return
    for k in range(min(n, m), 0, -1):
        for r in partitions(n - k, k):
            yield [k] + r


# ---------------------------------------------------------------- Wick contractions
# an operator is (cre names, ann names); a density is (kind, uppers, lowers), kind in 'L' 'C'

def max_cu_allowed(ops, max_cu):
    nc = sum(1 for c, a in ops for i in c if i[0] not in 'cv')
    na = sum(1 for c, a in ops for i in a if i[0] not in 'cv')
    top = max(1, min(nc, na))
    return top if max_cu < 1 or max_cu > top else max_cu


def elementary(ops, max_cu):
    """list of (key, kind, uppers, lowers); max_cu is the requested level"""
    m = max_cu_allowed(ops, max_cu)
    out = []
    n = len(ops)
    for i in range(n):
        for j in range(i + 1, n):
            for u in ops[i][0]:
                for l in ops[j][1]:
                    if u[0] != 'v' and l[0] != 'v' and ELEM[u[0]] & ELEM[l[0]]:
                        out.append(((i, j), 'L', (u,), (l,)))
            for l in ops[i][1]:
                for u in ops[j][0]:
                    if u[0] != 'c' and l[0] != 'c' and ELEM[u[0]] & ELEM[l[0]]:
                        out.append(((j, i), 'C', (u,), (l,)))
    cre = [(o, x) for o, (c, a) in enumerate(ops) for x in c if x[0] not in 'cv']
    ann = [(o, x) for o, (c, a) in enumerate(ops) for x in a if x[0] not in 'cv']
    for k in range(2, m + 1):
        for cs in itertools.combinations(cre, k):
            for as_ in itertools.combinations(ann, k):
                where = tuple(o for o, _ in cs + as_)
                if len(set(where)) == 1:
                    continue
                out.append((where, 'L', tuple(x for _, x in cs), tuple(x for _, x in as_)))
    return out


def base_order(ops):
    order = []
    for c, a in ops:
        order += [('u', x) for x in c] + [('l', x) for x in reversed(a)]
    return {v: i for i, v in enumerate(order)}


def wick_sign(ops, dens):
    """sign and remaining operator (sorted cre, sorted ann) of a contraction given as [(kind, uppers, lowers)]"""
    pos = base_order(ops)
    cur = []
    for kind, u, l in dens:
        if kind == 'C':
            cur += [('l', l[0]), ('u', u[0])]
        else:
            cur += [('u', x) for x in u] + [('l', x) for x in reversed(l)]
    used = set(cur)
    cre = sorted((x for c, a in ops for x in c if ('u', x) not in used), key=key)
    ann = sorted((x for c, a in ops for x in a if ('l', x) not in used), key=key)
    cur += [('u', x) for x in cre] + [('l', x) for x in reversed(ann)]
    return parity([pos[x] for x in cur]), tuple(cre), tuple(ann)


def composite(ops, max_cu, lo, hi, limit=200000):
    """every compatible set of elementary contractions with lo <= open <= hi (including the empty one)"""
    ele = elementary(ops, max_cu)
    n = sum(len(c) + len(a) for c, a in ops)
    bits = {}
    for o, (c, a) in enumerate(ops):
        for x in c:
            bits[('u', x)] = 1 << len(bits)
        for x in a:
            bits[('l', x)] = 1 << len(bits)
    masks = []
    for _, _, u, l in ele:
        m = 0
        for x in u:
            m |= bits[('u', x)]
        for x in l:
            m |= bits[('l', x)]
        masks.append(m)
    out = []

    def rec(k, used, chosen, n_open):
        if len(out) > limit:
            raise OverflowError
        if lo <= n_open <= hi:
            out.append(list(chosen))
        for x in range(k, len(ele)):
            if not masks[x] & used:
                sz = 2 * len(ele[x][2])
                if n_open - sz < lo:
                    continue
                chosen.append(x)
                rec(x + 1, used | masks[x], chosen, n_open - sz)
                chosen.pop()
    rec(0, 0, [], n)
    return ele, out


def connected_with_pair(n_ops, cats):
    """cats: list of category keys (operator positions); all operators joined and at least one one-body contraction"""
    if not any(len(c) == 2 for c in cats):
        return False
    comp = list(range(n_ops))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for c in cats:
        for o in c[1:]:
            comp[find(o)] = find(c[0])
    return len({find(x) for x in range(n_ops)}) == 1


def prefix_connected(n_ops, cats):
    """the subset which the known finding F-CONNECTED leaves: in ascending category order each one must touch the
    operators collected so far"""
    so_far = set()
    for c in sorted(cats, key=lambda x: (len(x), x)):
        if so_far and not so_far & set(c):
            return False
        so_far |= set(c)
    return len(so_far) == n_ops and any(len(c) == 2 for c in cats)


def norm_density(kind, u, l):
    su, s1 = sort_sign(u)
    sl, s2 = sort_sign(l)
    return (kind, su, sl), s1 * s2


def norm_contraction(sign, dens, cre, ann):
    """order-independent form: sign is adjusted for sorting every antisymmetric list"""
    out = []
    for d in dens:
        n, s = norm_density(*d)
        out.append(n)
        sign *= s
    c, s1 = sort_sign(cre)
    a, s2 = sort_sign(ann)
    return (tuple(sorted(out)), c, a), sign * s1 * s2


def expand_holes(sign, dens):
    good = [d for d in dens if d[0] != 'C']
    opts = []
    for k, u, l in dens:
        if k == 'C':
            o = [('K', u, l)]
            if u[0][0].lower() != 'v' and l[0][0].lower() != 'v':
                o.append(('L', u, l))
            opts.append(o)
    for pick in itertools.product(*opts):
        s = sign * (-1) ** sum(1 for d in pick if d[0] == 'L')
        yield s, good + list(pick)


# ---------------------------------------------------------------- values of terms (exact, modulo a prime)
PRIME = (1 << 61) - 1


class Model:
    """Orbitals n per elementary space and spin; random exact tensors with the symmetries the library assumes."""

    def __init__(self, seed, n=2, hermitian=True, adapted=False, beta=False):
        self.seed, self.hermitian, self.adapted = seed, hermitian, adapted
        n = dict(c=n, a=n, v=n) if isinstance(n, int) else n
        self.orbs = {}
        for s in 'cav':
            self.orbs[s] = [(s, k) for k in range(n[s])]
            self.orbs[s.upper()] = [(s.upper(), k) for k in range(n[s])]
        self.cache = {}

    def range(self, letter):
        return [o for s in sorted(ELEM[letter]) for o in self.orbs[s]]

    def rnd(self, *k):
        v = self.cache.get(k)
        if v is None:
            import random
            v = random.Random(repr((self.seed,) + k)).randrange(1, PRIME)
            self.cache[k] = v
        return v

    def value(self, kind, name, u, l):
        """value of the tensor on orbitals u, l (tuples)"""
        if kind == 'K':
            return 1 if u == l else 0
        if kind == 'C':
            return ((1 if u == l else 0) - self.value('L', 'L', u, l)) % PRIME
        if kind == 'L':
            sp = {o[0].lower() for o in u + l}
            if len(u) == 1:
                if u[0][0] != l[0][0] or 'v' in sp:
                    return 0
                if 'c' in sp:
                    return 1 if u == l else 0
            elif sp != {'a'}:
                return 0
        if kind == 'T' and all(o[0] in 'aA' for o in u + l):
            return 0
        sign = 1
        if self.adapted:
            p = sorted(zip(u, l)) if len(u) == len(l) else list(zip(u, l))
            if len(u) == len(l):
                q = sorted(zip(l, u))
                if self.hermitian and q < p:
                    p = q
                return self.rnd(kind, name, tuple(p))
            return self.rnd(kind, name, u, l)
        if len(set(u)) < len(u) or len(set(l)) < len(l):
            return 0
        sign = parity(u) * parity(l)
        u, l = tuple(sorted(u)), tuple(sorted(l))
        if self.hermitian and l < u:
            u, l = l, u
        return sign * self.rnd(kind, name, u, l) % PRIME


def frac_mod(c):
    f = Fraction(c).limit_denominator(10 ** 9)
    return f.numerator * pow(f.denominator, PRIME - 2, PRIME) % PRIME


def evaluate(term, model, out=None, anti=True):
    """term = (coeff, [(kind, name, uppers, lowers)], (cre, ann)) -> {(cre orbs, ann orbs): value mod PRIME}.
    With anti, operators are normal-ordered antisymmetric strings."""
    coeff, tensors, (cre, ann) = term
    out = {} if out is None else out
    open_ = list(cre) + list(ann)
    # order of summation: tensors with densities first so that zeros prune early
    ts = sorted(tensors, key=lambda t: ('KLCTH'.find(t[0]) if t[0] in 'KLCTH' else 9, len(t[2])))
    c0 = frac_mod(coeff)
    if c0 == 0:
        return out
    n = len(ts)

    def rec(k, env, val):
        if k == n:
            free = [i for i in open_ if i not in env]
            if free:
                i = free[0]
                for o in model.range(i[0]):
                    e = dict(env)
                    e[i] = o
                    rec(k, e, val)
                return
            u = tuple(env[i] for i in cre)
            l = tuple(env[i] for i in ann)
            if anti:
                if len(set(u)) < len(u) or len(set(l)) < len(l):
                    return
                val = val * parity(u) * parity(l)
                u, l = tuple(sorted(u)), tuple(sorted(l))
            v = (out.get((u, l), 0) + val) % PRIME
            if v:
                out[(u, l)] = v
            else:
                out.pop((u, l), None)
            return
        kind, name, us, ls = ts[k]
        free = []
        for i in tuple(us) + tuple(ls):
            if i not in env and i not in free:
                free.append(i)

        def assign(j, e):
            if j == len(free):
                v = model.value(kind, name, tuple(e[i] for i in us), tuple(e[i] for i in ls))
                if v:
                    rec(k + 1, e, val * v % PRIME)
                return
            for o in model.range(free[j][0]):
                e2 = dict(e)
                e2[free[j]] = o
                assign(j + 1, e2)
        assign(0, env)
    rec(0, {}, c0)
    return out


def evaluate_sum(terms, model, anti=True):
    out = {}
    for t in terms:
        evaluate(t, model, out, anti)
    return out


# ---------------------------------------------------------------- Fock space ground truth (one determinant)
class Fock:
    """Fermions on m orbitals; operators are sparse dicts {(bra, ket): int mod PRIME}."""

    def __init__(self, occupied, m):
        self.m, self.occ = m, occupied
        self.dim = 1 << m

    def apply(self, ops, ket):
        """ops: list of ('+'|'-', orbital) applied right to left; returns (sign, ket) or None"""
        s = 1
        for t, o in reversed(ops):
            b = 1 << o
            if t == '+':
                if ket & b:
                    return None
            elif not ket & b:
                return None
            if bin(ket & (b - 1)).count('1') % 2:
                s = -s
            ket ^= b
        return s, ket

    def normal(self, cre, ann):
        """normal ordered string {c1+ c2+ ... a2 a1} with respect to the determinant: sign and operator list"""
        ops = [('+', o) for o in cre] + [('-', o) for o in reversed(ann)]
        qc = [k for k, (t, o) in enumerate(ops) if (t == '+') != (o in self.occ)]
        qa = [k for k, (t, o) in enumerate(ops) if (t == '+') == (o in self.occ)]
        return parity(qc + qa), [ops[k] for k in qc + qa]

    def matrix(self, cre, ann, coeff=1, out=None):
        out = {} if out is None else out
        s, ops = self.normal(cre, ann)
        for ket in range(self.dim):
            r = self.apply(ops, ket)
            if r:
                k = (r[1], ket)
                v = (out.get(k, 0) + coeff * s * r[0]) % PRIME
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return out


def mat_mul(a, b):
    rows = {}
    for (i, j), v in b.items():
        rows.setdefault(i, []).append((j, v))
    out = {}
    for (i, j), v in a.items():
        for k, w in rows.get(j, ()):
            x = (out.get((i, k), 0) + v * w) % PRIME
            out[(i, k)] = x
    return {k: v for k, v in out.items() if v}


def mat_add(a, b, c=1):
    out = dict(a)
    for k, v in b.items():
        x = (out.get(k, 0) + c * v) % PRIME
        if x:
            out[k] = x
        else:
            out.pop(k, None)
    return out

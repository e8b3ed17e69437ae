import contextlib
import io
import os
import re
import shutil
import tempfile
from math import factorial
from physics import *
import c15
from c15 import groups, multinomial, arrangements, ambit_name, ambit_index, parse_coeff, STMT, FACT
import c12
from dsrg_generator.write_forte_functions import save_terms_ambit_functions, save_direct_t3
from dsrg_generator.helper.file_utils import ChangeDir
for _p in ('C12', 'C14', 'C15'):
    harness.CLAUSES.pop(_p, None)


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif-c19-')
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def read(f):
    with open(f) as x:
        return x.read()


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs + ds:
            out[os.path.relpath(os.path.join(r, f), d)] = f in ds
    return out


def canon_terms(ts, kind='so'):
    """distinct canonical terms"""
    out = {}
    for t in ts:
        r = mk_term(t, kind).canonicalize()
        if not r.is_void():
            out[like_key(r)] = d_term(r)
    return [out[k] for k in sorted(out, key=repr)]


def rnd_terms(rng, letters, n_terms, max_open, kind='so', only_open=None):
    ts = []
    tries = 0
    while len(ts) < n_terms and tries < 200:
        tries += 1
        heavy = [('H', 'H', r, r) for r in [rng.choice([1, 1, 2])]] + [('T', 'T', r, r) for r in (rng.choice([1, 1, 2]) for _ in range(rng.choice([0, 1, 1, 2])))]
        o = rng.choice(range(max_open + 1)) if only_open is None else only_open
        t = c12.connect(rng, letters, heavy, o, o)
        if t is not None and len(t[2][0]) == o:
            ts.append(t)
    return ts


def H(u, l):
    return ['H', 'H', u, l]


def T(u, l):
    return ['T', 'T', u, l]


#: blocks with several permutation forms and several terms per form
MIXED = [
    [[1.0, [H(['v2'], ['v0']), T(['c0', 'c1'], ['v2', 'v1'])], [['v0', 'v1'], ['c0', 'c1']]],
     [-1.0, [H(['c0'], ['c2']), T(['c2', 'c1'], ['v0', 'v1'])], [['v0', 'v1'], ['c0', 'c1']]],
     [.25, [H(['c0', 'c1'], ['v0', 'v1'])], [['v0', 'v1'], ['c0', 'c1']]],
     [1.0, [H(['c0', 'v2'], ['v0', 'c2']), T(['c2', 'c1'], ['v2', 'v1'])], [['v0', 'v1'], ['c0', 'c1']]],
     [.5, [H(['v2'], ['c2']), T(['c2', 'c1'], ['v0', 'v1']), T(['c0'], ['v2'])], [['v0', 'v1'], ['c0', 'c1']]],
     [.5, [H(['v2'], ['c2']), T(['c0', 'c1'], ['v2', 'v1']), T(['c2'], ['v0'])], [['v0', 'v1'], ['c0', 'c1']]]],
    [[1.0, [H(['v3', 'c0'], ['v0', 'v1']), T(['c1', 'c2'], ['v3', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]],
     [-.5, [H(['c0', 'c1'], ['v0', 'c3']), T(['c3', 'c2'], ['v1', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]],
     [.25, [H(['v3'], ['v0']), T(['c0', 'c1', 'c2'], ['v3', 'v1', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]],
     [.25, [H(['c0'], ['c3']), T(['c3', 'c1', 'c2'], ['v0', 'v1', 'v2'])], [['v0', 'v1', 'v2'], ['c0', 'c1', 'c2']]]],
]


def gen_cat(rng, tier):
    for ts in MIXED:
        yield dict(ts=ts, seed=1)
    for _ in range(60 if tier == 'quick' else 700):
        yield dict(ts=rnd_terms(rng, rng.choice(['cv', 'cv', 'hp', 'cva', 'gphvca']), rng.randrange(0, 9), 3), seed=rng.randrange(999))


def entry(t, kind='so'):
    """expected contributions of a term: Counter of (coefficient, factors, target indices)"""
    c, ts, op = t
    pc, pa = groups(op[0], ts), groups(op[1], ts)
    n = multinomial(pc) * multinomial(pa)
    w = fr(c) * factorial(len(op[0])) * factorial(len(op[1])) / n
    fac = tuple(sorted((ambit_name(*x), ambit_index(x[0], x[2], x[3])) for x in ts))
    out = Counter()
    for s1, a in arrangements(op[1], pa, kind == 'si'):
        for s2, b in arrangements(op[0], pc, kind == 'si'):
            out[(w * s1 * s2, fac, tuple(a) + tuple(b))] += 1
    return out


def space(t):
    return ''.join(i[0] for i in tuple(t[2][1]) + tuple(t[2][0]))


def perm_form(t):
    out = []
    for l in (t[2][0], t[2][1]):
        g = groups(l, t[1])
        out.append(frozenset(map(frozenset, g)) if multinomial(g) > 1 else None)
    return tuple(out)


@clause('C19', 'categorize', gen_cat, ['categorize_contractions', 'print_terms_ambit', 'print_terms_latex'])
def _(d):
    ts = canon_terms(d['ts'])
    objs = [mk_term(t) for t in ts]
    random.Random(d['seed']).shuffle(objs)
    before = [d_term(x) for x in objs]
    cat = PC.categorize_contractions(objs)
    check([d_term(x) for x in objs] == before, 'terms modified')
    got = Counter()
    for b, perms in cat.items():
        check(perms, 'empty block', b)
        seen = set()
        for p, l in perms.items():
            check(l and all(l[k] <= l[k + 1] for k in range(len(l) - 1)), 'not sorted', b, p, l)
            forms = {perm_form(d_term(x)) for x in l}
            check(len(forms) == 1 and (p == '') == (forms == {(None, None)}), 'terms of different permutation form in one group', b, p, l)
            check(not forms & seen, 'one permutation form in two groups', p)
            seen |= forms
            for x in l:
                check(space(d_term(x)) == b, 'wrong block', b, x)
                got[repr(d_term(x))] += 1
    check(got == Counter(map(repr, before)), 'every term exactly once', got)
    # printed forms
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        PC.print_terms_ambit(objs)
    env = c15.run_ambit(s.getvalue())
    g = Counter()
    for k, es in env.items():
        if k != 'temp':
            for c, fac, li in es:
                check(k == 'C' + str(len(li) // 2), 'target', k, li)
                g[(c, tuple(sorted(fac)), li)] += 1
    w = Counter()
    for t in ts:
        w += entry(t)
    check(g == w, 'printed ambit statements', list((g - w).items())[:2], list((w - g).items())[:2])
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        PC.print_terms_latex(objs)
    text = s.getvalue()
    lines = [x.replace(' \\\\', '').strip() for x in text.split('\n') if x.strip() and 'align}' not in x]
    check(sorted(lines) == sorted(x.latex(delimiter=True).strip() for x in objs), 'printed latex', lines)
    check(text.count('\\begin{align}') == text.count('\\end{align}') == len(cat), 'align environments', text)


# ---------------------------------------------------------------- generated files
SIG = re.compile(r'void (\w+)::(\w+)\(([^)]*)\) \{')


def body_of(text, path):
    check(text.count('{') == text.count('}'), path + ': braces')
    m = re.search(r'namespace forte \{\s*(.*)\}\s*// namespace forte\s*$', text, re.S)
    check(m, path + ': template frame', text[:200])
    return m.group(1).strip()


def params(s):
    out = []
    for x in s.split(','):
        m = re.match(r'^\s*(double&?|BlockedTensor&) (\w+)\s*$', x)
        check(m, 'parameter', s)
        out.append((m.group(1), m.group(2)))
    return out


def run_block(stmts, pars, block, what):
    """interpret the statements of a block function: list of (coeff, factors, target, indices)"""
    have = {n for _, n in pars}
    declared = built = False
    temp, out = [], []
    for st in stmts:
        st = st.strip()
        if not st:
            continue
        if st == 'BlockedTensor temp;':
            declared = True
            continue
        m = re.match(r'^temp = ambit::BlockedTensor::build\(ambit::CoreTensor, "temp", \{"(\w*)"\}\);$', st)
        if m:
            check(declared, what + ': temp built before its declaration')
            check(m.group(1) == block, what + ': temp spaces', st, block)
            built, temp = True, []
            continue
        if st == 'temp.zero();':
            check(built, what + ': temp zeroed before it is built')
            temp = []
            continue
        m = STMT.match(st)
        check(m, what + ': unknown statement', st)
        lhs, li, sign, rhs = m.groups()
        li = tuple(li.split(',')) if li else ()
        s = 1 if sign == '+' else -1
        fs = rhs.split(' * ')
        if fs[0].startswith('temp['):
            check(built and len(fs) == 1, what + ': temp used before it is built', st)
            ti = tuple(FACT.match(fs[0]).group(2).split(','))
            check(lhs in have, what + ': unknown target', st, pars)
            for c, fac, ei in temp:
                check(ei == ti, what + ': temp read with other indices', ei, ti)
                out.append((s * c, fac, lhs, li))
            continue
        c = s * parse_coeff(fs[0])
        fac = []
        for f in fs[1:]:
            g = FACT.match(f)
            check(g and g.group(1) in have, what + ': factor is not a parameter', f, pars)
            fac.append((g.group(1), tuple(g.group(2).split(','))))
        fac = tuple(sorted(fac))
        if lhs == 'temp':
            check(built, what + ': temp used before it is built', st)
            temp.append((c, fac, li))
        else:
            check(lhs in have, what + ': unknown target', st, pars)
            out.append((c, fac, lhs, li))
    return out


def gen_files(rng, tier):
    for ts in MIXED:
        for dag in (True, False):
            for seed in (1, 2):
                yield dict(ts=ts, fn='f', ns='X', dag=dag, destroy=dag, sub='out', seed=seed)
        for k in range(2 if tier == 'quick' else 20):
            yield dict(ts=rng.sample(ts, 3), fn='f', ns='X', dag=True, destroy=False, sub='out', seed=rng.randrange(99))
    for _ in range(60 if tier == 'quick' else 700):
        ts = rnd_terms(rng, rng.choice(['cv', 'cv', 'hp', 'cva', 'gphvca']), rng.randrange(1, 9), 3)
        yield dict(ts=ts, fn=rng.choice(['comm_H_T', 'f']), ns=rng.choice(['MRDSRG_SO', 'X']), dag=rng.random() < .6, destroy=rng.random() < .4, sub=rng.choice(['out', 'a/b']), seed=rng.randrange(99))


@clause('C19', 'files', gen_files, ['save_terms_ambit_functions', 'save_terms_blocks_ambit_function', 'multi_gsub', 'categorize_contractions'], share=1.3)
def _(d):
    ts = canon_terms(d['ts'])
    if not ts:
        raise Skip()
    objs = [mk_term(t) for t in ts]
    random.Random(d['seed']).shuffle(objs)
    before = [d_term(x) for x in objs]
    with scratch() as top:
        os.makedirs(d['sub'])
        old = tree(top)
        opts = {}
        if not d['dag'] or d['seed'] % 2:
            opts['add_t_dagger'] = d['dag']
        if d['destroy'] or d['seed'] % 3:
            opts['destroy_h'] = d['destroy']
        save_terms_ambit_functions(objs, d['fn'], d['ns'], d['sub'], **opts)
        check(os.path.realpath(os.getcwd()) == os.path.realpath(top), 'working directory changed')
        new = [f for f in tree(top) if f not in old]
        files = {os.path.basename(f): read(f) for f in new}
        check(all(os.path.dirname(f) == d['sub'] for f in new), 'files outside the requested directory', new)
    check([d_term(x) for x in objs] == before, 'terms modified')
    fn, ns = d['fn'], d['ns']
    blocks = {}
    for t in ts:
        blocks.setdefault(space(t) or '0', []).append(t)
    check(set(files) == {fn + '.cc', fn + '_functions.h'} | {f'{fn}_{b}.cc' for b in blocks}, 'files written', sorted(files))
    decl = {}
    for line in files[fn + '_functions.h'].split('\n'):
        m = re.match(r'^void (\w+)\(([^)]*)\);$', line.strip())
        check(m, 'declaration', line)
        check(m.group(1) not in decl, 'declared twice', line)
        decl[m.group(1)] = params(m.group(2))
    check(set(decl) == {fn} | {f'{fn}_{b}' for b in blocks}, 'declarations', decl)
    used = set()
    for b, l in blocks.items():
        name = f'{fn}_{b}'
        text = files[name + '.cc']
        check(f'#include "mrdsrg-so/{ns.lower()}.h"' in text, 'header', text[:100])
        bd = body_of(text, name)
        m = SIG.match(bd)
        check(m and m.group(1) == ns and m.group(2) == name, 'signature', bd[:100])
        pars = params(m.group(3))
        check(pars == decl[name], 'declaration and definition differ', pars, decl[name])
        n = 0 if b == '0' else len(b) // 2
        tgt = 'C' + str(n)
        want_p = {ambit_name(*x) for t in l for x in t[1]} | {tgt}
        check({x for _, x in pars} == want_p and len(pars) == len(want_p), 'parameters', pars, want_p)
        check(all(ty == ('double&' if x == 'C0' else 'BlockedTensor&') for ty, x in pars), 'parameter types', pars)
        used |= want_p
        check(bd.rstrip().endswith('}'), 'function end')
        stm = [x + ';' for x in bd[m.end():].rstrip()[:-1].split(';') if x.strip()]
        got = Counter()
        for c, fac, t, li in run_block(stm, pars, b, name):
            check(t == tgt, 'target', t, tgt)
            got[(c, fac, li)] += 1
        want = Counter()
        for t in l:
            want += entry(t)
        check(got == want, name + ': statements', list((got - want).items())[:2], list((want - got).items())[:2])
    # driver
    bd = body_of(files[fn + '.cc'], fn)
    m = SIG.match(bd)
    check(m and (m.group(1), m.group(2)) == (ns, fn), 'driver signature', bd[:100])
    pars = params(m.group(3))
    check(pars == decl[fn], 'driver declaration', pars, decl[fn])
    check({x for _, x in pars} == used | {'factor'} and len(pars) == len(used) + 1 and pars[0] == ('double', 'factor'), 'driver parameters', pars)
    types = {x: ty for ty, x in pars}
    check(all(ty.rstrip('&') == ('double' if x in ('C0', 'factor') else 'BlockedTensor') for x, ty in types.items()) and all(ty.endswith('&') for x, ty in types.items() if x != 'factor'), 'driver parameter types', pars)
    targets = sorted(x for x in used if x[0] == 'C')
    log = {t: [] for t in targets}
    declared = set(types)
    saved = {}
    for st in [x.strip() + ';' for x in bd[m.end():].rstrip()[:-1].split(';') if x.strip()]:
        if st in ('BlockedTensor temp;',):
            check('temp' not in declared, 'temp declared twice')
            declared.add('temp')
            continue
        m = re.match(r'^(\w+)\(([^)]*)\);$', st)
        if m:
            check(m.group(1) in decl, 'call of an unknown function', st)
            args = [x.strip() for x in m.group(2).split(',')]
            check(args == [x for _, x in decl[m.group(1)]], 'arguments', st, decl[m.group(1)])
            log[args[-1]].append(('call', m.group(1)))
            continue
        m = re.match(r'^C0 (=|\*=) ([\w.]+);$', st)
        if m:
            log['C0'].append({('=', '0.0'): 'zero', ('*=', 'factor'): 'scale', ('*=', '2.0'): 'dagger'}.get(m.groups(), st))
            continue
        m = re.match(r'^(\w+)\.(zero\(\)|scale\(factor\));$', st)
        if m:
            log[m.group(1)].append(m.group(2)[:4].replace('scal', 'scale'))
            continue
        m = re.match(r'^temp = ambit::BlockedTensor::build\(ambit::CoreTensor, "temp", \{"(\w*)"\}\);$', st)
        if m:
            check('temp' in declared, 'temp is not declared', st)
            saved['temp'] = ('built', m.group(1))
            continue
        m = re.match(r'^(\w+)\["([^"]*)"\] (=|\+=) (\w+)\["([^"]*)"\];$', st)
        check(m, 'unknown driver statement', st)
        l, li, o, r, ri = m.groups()
        li, ri = li.split(','), ri.split(',')
        if o == '=':
            check(l in declared and (l != 'temp' or saved.get('temp', ('',))[0] == 'built'), 'intermediate not available', st)
            check(l == 'temp' or (d['destroy'] and l[0] == 'H'), 'overwrites', st)
            if l == 'temp':
                check(len(saved['temp'][1]) == len(li) and set(saved['temp'][1]) == {'g'}, 'size of temp', saved)
            check(li == ri and len(set(li)) == len(li) and r in log, 'copy', st)
            saved[l] = ('copy', r, tuple(log[r]))
        else:
            h = len(li) // 2
            check(r in saved and saved[r][0] == 'copy' and saved[r][1:] == (l, tuple(log[l])), 'conjugate of another state', st, saved)
            check(len(set(li)) == len(li) and li == ri[h:] + ri[:h] and l == 'C' + str(h), 'conjugate', st)
            log[l].append('dagger')
    for t in targets:
        n = t[1:]
        calls = sorted(('call', f'{fn}_{b}') for b in blocks if ('0' if b == '0' else str(len(b) // 2)) == n)
        x = log[t]
        check(x[:1] == ['zero'] and sorted(x[1:1 + len(calls)]) == calls and x[1 + len(calls):] == ['scale'] + (['dagger'] if d['dag'] else []), 'sequence for ' + t, x, calls)


def indices(t):
    return sorted({i for k, n, u, l in t[1] for i in list(u) + list(l)} | set(t[2][0]) | set(t[2][1]))


def gen_t3(rng, tier):
    yield dict(ts=MIXED[1], fn='sr', ns='SRC')
    for a in range(4):
        for b in range(a):
            yield dict(ts=[MIXED[1][a], MIXED[1][b]], fn='sr', ns='SRC')
    for _ in range(25 if tier == 'quick' else 300):
        ts = []
        while len(ts) < 7:
            heavy = [('H', 'H', 2, 2)] + [('T', 'T', r, r) for r in rng.choice([(2,), (3,), (2, 1), (2, 2), (3, 1)])]
            t = c12.connect(rng, 'a', heavy, 3, 3)
            if t is None:
                continue
            m = {}
            for i in indices(t):
                m[i] = ('v' if i in t[2][0] else 'c' if i in t[2][1] else rng.choice('cv')) + i[1:]
            f = lambda l: [m[i] for i in l]
            t = [t[0], [[k, n, f(u), f(l)] for k, n, u, l in t[1]], [f(t[2][0]), f(t[2][1])]]
            if all(k != 'T' or amp_ok(u, l) for k, n, u, l in t[1]):
                ts.append(t)
        yield dict(ts=ts, fn='sr', ns='SRC')


@clause('C19', 'direct-t3', gen_t3, ['save_direct_t3'], share=.5)
def _(d):
    ts = [t for t in canon_terms(d['ts']) if space(t) == 'cccvvv']
    if not ts:
        raise Skip()
    with scratch() as top:
        os.mkdir('o')
        save_direct_t3(PC.categorize_contractions([mk_term(t) for t in ts])['cccvvv'], d['fn'], d['ns'], 'o')
        check(sorted(tree(top)) == ['o', 'o/sr_direct_t3.cc'], 'files', tree(top))
        text = read('o/sr_direct_t3.cc')
    m = re.search(r'void SRC::sr_direct_t3\(([^)]*)\) \{(.*?)C3\.iterate', text, re.S)
    check(m and '#include "mrdsrg-so/src.h"' in text, 'signature', text[:300])
    pars = params(m.group(1))
    check(sorted(x for _, x in pars) == sorted({ambit_name(*x) for t in ts for x in t[1]}), 'parameters', pars)
    st = [x.strip() + ';' for x in m.group(2).split(';') if x.strip()]
    check(st[0].startswith('BlockedTensor C3 = ') and st[1].startswith('BlockedTensor temp = '), 'temporaries', st[:2])
    st = ['BlockedTensor temp;', 'temp = ambit::BlockedTensor::build(ambit::CoreTensor, "temp", {"cccvvv"});'] + st[2:]
    got = Counter((c, fac, li) for c, fac, t, li in run_block(st, pars + [('', 'C3')], 'cccvvv', 't3'))
    want = Counter()
    for t in ts:
        want += entry(t)
    check(got == want, 'direct t3 statements', list((got - want).items())[:2], list((want - got).items())[:2])


def gen_dir(rng, tier):
    for ex in (None, 'ValueError', 'KeyboardInterrupt', 'inner'):
        for exists in (False, True):
            for nest in (False, True):
                yield dict(ex=ex, exists=exists, nest=nest)
    yield dict(ex='bad', exists=False, nest=False)


@clause('C19', 'change-dir', gen_dir, ['ChangeDir'], share=.1)
def _(d):
    with scratch() as top:
        top = os.path.realpath(top)
        if d['ex'] == 'bad':
            expect(ValueError, lambda: ChangeDir(3), 'no text')
            check(os.path.realpath(os.getcwd()) == top, 'working directory changed')
            return
        if d['exists']:
            os.mkdir('x')
        try:
            with ChangeDir('x'):
                check(os.path.realpath(os.getcwd()) == os.path.join(top, 'x'), 'inside', os.getcwd())
                if d['nest']:
                    with ChangeDir('y'):
                        check(os.path.realpath(os.getcwd()) == os.path.join(top, 'x', 'y'), 'nested', os.getcwd())
                        if d['ex'] == 'inner':
                            raise ValueError('x')
                    check(os.path.realpath(os.getcwd()) == os.path.join(top, 'x'), 'after the nested one', os.getcwd())
                if d['ex'] == 'ValueError':
                    raise ValueError('x')
                if d['ex'] == 'KeyboardInterrupt':
                    raise KeyboardInterrupt()
                if d['ex'] == 'inner' and not d['nest']:
                    os.mkdir('deep')
                    os.chdir('deep')
        except (ValueError, KeyboardInterrupt):
            check(d['ex'] is not None, 'error from ChangeDir')
        else:
            check(d['ex'] in (None, 'inner') and not (d['ex'] == 'inner' and d['nest']), 'the error was swallowed')
        check(os.path.realpath(os.getcwd()) == top, 'not restored', os.getcwd())
        check(set(tree(top)) <= {'x', 'x/y', 'x/deep'}, 'files', tree(top))

"""C27: general helpers, the vector base class and equality do what they document."""
import os
import random

import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need, exact
from modred.vectors import Vector
import modred as mr

ID = 'C27'
RULE = ('arguments of each helper (nested lists, arrays of any dimension, file names, objects, '
        'scripts, vector objects, vector spaces); non-trivial = an argument which is not empty')
ASSUMPTIONS = ['equality is judged on plain objects and arrays without nan']

numbers = st.one_of(st.integers(-5, 5), st.floats(-5, 5), st.complex_numbers(max_magnitude=5))
FUNCS = ['atleast_2d', 'iterable', 'flatten', 'files', 'members', 'sums', 'smart_eq', 'block',
         'vector', 'space_eq', 'script']


@st.composite
def cases(draw, func):
    c = dict(func=func, seed=draw(gen.seeds()), cplx=draw(st.booleans()))
    if func in ('atleast_2d', 'iterable', 'smart_eq'):
        c['shape'] = draw(st.one_of(*[st.lists(st.integers(0, 4), max_size=3)] * 6 + [
            st.lists(st.integers(15, 60), min_size=2, max_size=2)]))
        c['kind'] = draw(st.sampled_from(['array', 'list', 'tuple', 'F', 'strided', 'int']))
        c['other'] = draw(st.sampled_from(['same', 'same', 'value', 'shape', 'type', 'dtype',
                                           'broadcast', 'plain']))
        c['at'] = draw(st.one_of(st.integers(0, 100), st.integers(0, 3000)))
        c['scale'] = draw(st.sampled_from([1, 1, 1e-10, 1e-30, 1e20]))
        c['step'] = draw(st.sampled_from([1., 1e-6, 1e-12]))
    if func == 'iterable':
        c['arg'] = draw(st.sampled_from(['number', 'string', 'dict', 'generator', 'object',
                                         'none', 'handle', 'range', 'array', '0d']))
    if func == 'flatten':
        c['lists'] = draw(st.lists(st.lists(st.integers(0, 9), max_size=4), max_size=5))
        c['inner'] = draw(st.sampled_from(['list', 'tuple', 'array', 'range', 'nested']))
    if func == 'files':
        c['names'] = draw(st.lists(st.text('atx._-T', min_size=1, max_size=7).filter(
            lambda s: s not in ('.', '..')), max_size=8, unique=True))
        c['ext'] = draw(st.one_of(st.none(), st.sampled_from(
            ['.txt', 'txt', 't', '.tat', 'x', '.TXT', 'a.txt']),
            st.text('atx.', min_size=1, max_size=4)))
        c['suffix'] = draw(st.lists(st.booleans(), min_size=8, max_size=8))
        c['folder'] = draw(st.booleans())
    if func == 'members':
        c['names'] = draw(st.lists(st.text('ab_', min_size=1, max_size=5), max_size=6, unique=True))
        c['cls'] = draw(st.lists(st.text('cd_', min_size=1, max_size=5), max_size=3, unique=True))
    if func == 'sums':
        c['n'], c['m'] = draw(st.integers(0, 6)), draw(st.integers(0, 6))
        c['items'] = draw(st.sampled_from(['int', 'float', 'str', 'list', 'array']))
    if func == 'block':
        c['n'], c['m'], c['k'] = [draw(st.integers(1, 4)) for _ in range(3)]
    if func == 'vector':
        c['n'] = draw(st.integers(1, 5))
        c['scalar'] = draw(st.sampled_from([0, 1, -1, 2, 2.5, -.25, 'complex', 'numpy']))
    if func == 'space_eq':
        c['w'] = [draw(st.sampled_from(['none', 'a1', 'b1', 'a2', 'b2', 'l1', 'n1']))
                  for _ in range(2)]
        c['ip'] = [draw(st.sampled_from(['f', 'g', 'none'])) for _ in range(2)]
        c['verb'] = [draw(st.integers(0, 1)) for _ in range(2)]
        c['n'] = draw(st.integers(1, 4))
    if func == 'script':
        c['lines'] = draw(st.lists(st.tuples(st.sampled_from('abc'), st.integers(-9, 9)).map(list),
                                   min_size=1, max_size=6))
        c['where'] = draw(st.sampled_from(['caller', 'globals', 'both']))
        c['newline'] = draw(st.booleans())
    return c


def strategies(tier):
    k = 3 if tier == 'quick' else 25
    return [('helper', cases(f), 90 * k) for f in FUNCS]


def make(case):
    a = gen.rand(tuple(case['shape']), case['seed'], case['cplx'], 'int') * case['scale']
    if case['kind'] == 'int' and case['scale'] == 1:
        return a.real.astype(int)
    if case['kind'] == 'F':
        return np.asfortranarray(a)
    if case['kind'] == 'strided' and a.ndim:
        return gen.same_layouts(a, 'strided')
    if case['kind'] == 'list':
        return a.tolist()
    if case['kind'] == 'tuple' and a.ndim:
        return tuple(a.tolist())
    return a


def run_case(name, case, ctx):
    ctx.label(case['func'])
    ctx.nontrivial(True)
    globals()['do_' + case['func']](case, ctx)


def do_atleast_2d(case, ctx):
    arg = make(case)
    a = np.array(arg)
    ctx.nontrivial(a.size > 0)
    before = a.copy()
    row, col = mr.atleast_2d_row(arg), mr.atleast_2d_col(arg)
    shapes = {0: ((1, 1), (1, 1)), 1: ((1, a.size), (a.size, 1))}.get(a.ndim, (a.shape, a.shape))
    for got, shape, what in ((row, shapes[0], 'atleast_2d_row'), (col, shapes[1], 'atleast_2d_col')):
        need(isinstance(got, np.ndarray), '%s gave a %s', what, type(got))
        need(got.dtype == a.dtype, '%s gave %s of %s', what, got.dtype, a.dtype)
        exact(got, before.reshape(shape), what)
        if got.size:
            got[...] = 77           # results are new arrays
    exact(np.array(arg), before, 'argument after changing the results')


class Thing(object):
    pass


def do_iterable(case, ctx):
    kind = case['arg']
    arg = {'number': case['seed'], 'string': 'abc', 'dict': {1: 2},
           'generator': (i for i in (1, 2, 3)), 'object': Thing(), 'none': None,
           'handle': mr.VecHandleInMemory(np.ones(2)), 'range': range(3), 'array': make(case),
           '0d': np.array(3.)}[kind]
    ctx.label('iterable:' + kind)
    got = mr.make_iterable(arg)
    single = kind in ('number', 'object', 'none', 'handle', '0d') or (
        kind == 'array' and (np.ndim(arg) == 0))
    if single:
        need(isinstance(got, list) and len(got) == 1 and got[0] is arg,
             'make_iterable(%r) gave %r', arg, got)
    elif kind == 'generator':
        need(list(got) == [1, 2, 3], 'make_iterable used up a generator')
    else:
        need(got is arg, 'make_iterable(%r) gave %r', arg, got)


def do_flatten(case, ctx):
    conv = {'list': list, 'tuple': tuple, 'array': np.array,
            'range': lambda x: range(len(x)), 'nested': lambda x: [[i] for i in x]}[case['inner']]
    arg = [conv(x) for x in case['lists']]
    want = []
    for x in arg:
        for y in x:
            want.append(y)
    lengths = [len(x) for x in arg]
    got = mr.flatten_list(arg)
    need(isinstance(got, list) and got == want, 'flatten_list(%r) gave %r', arg, got)
    need([len(x) for x in arg] == lengths, 'flatten_list changed its argument')


def do_files(case, ctx):
    d, ext = ctx.scratch(), case['ext']
    names = set()
    for n, suf in zip(case['names'], case['suffix']):
        n = n + ext if suf and ext else n
        if n not in names and n not in ('.', '..'):
            names.add(n)
            open(os.path.join(d, n), 'w').close()
    if case['folder']:
        os.mkdir(os.path.join(d, 'zz' + (ext or '')))
        names.add('zz' + (ext or ''))
    if ext is None:
        got = mr.get_file_list(d)
    else:
        got = mr.get_file_list(d, ext)
    want = [n for n in names if ext is None or n.endswith(ext)]
    ctx.nontrivial(bool(want))
    need(isinstance(got, list) and sorted(got) == sorted(want),
         'get_file_list for %r in %s gave %s', ext, sorted(names), got)
    need(set(os.listdir(d)) == names, 'files changed')


def do_members(case, ctx):
    body = {n: 'class ' + n for n in case['cls'] if not n.startswith('__')}
    body['method'] = lambda self: 1
    body['__init__'] = lambda self: None
    obj = type('Obj', (object,), dict(body))()
    want = {n: v for n, v in body.items() if n not in ('method', '__init__')}
    for i, n in enumerate(case['names']):
        if not n.startswith('__'):
            val = [i, str(i), None, [i]][i % 4]
            setattr(obj, n, val)
            want[n] = val
    ctx.nontrivial(bool(want))
    got = mr.get_data_members(obj)
    need(got == want, 'get_data_members gave %r, expected %r', got, want)


def do_sums(case, ctx):
    r, n, m = random.Random(case['seed']), case['n'], case['m']
    mk = {'int': lambda: r.randint(-9, 9), 'float': lambda: r.randint(-9, 9) / 4.,
          'str': lambda: r.choice(['', 'a', 'bc']), 'list': lambda: [r.randint(0, 3)],
          'array': lambda: np.array([r.randint(-9, 9), r.randint(-9, 9)])}[case['items']]
    a, b = [mk() for _ in range(n)], [mk() for _ in range(m)]
    keep = repr(a), repr(b)
    ctx.nontrivial(n > 0)
    if n != m:
        try:
            got = mr.sum_lists(a, b)
        except Exception:
            return
        need(False, 'sum_lists of %d and %d elements gave %r', n, m, got)
    got = mr.sum_lists(a, b)
    need(isinstance(got, list) and repr(got) == repr([x + y for x, y in zip(a, b)]),
         'sum_lists(%r, %r) gave %r', a, b, got)
    need((repr(a), repr(b)) == keep, 'sum_lists changed its arguments')
    if case['items'] in ('int', 'float', 'array') and n:
        for conv in (list, np.array):
            x, y = conv(a), conv(b)
            s = mr.sum_arrays(x, y)
            exact(s, np.array([i + j for i, j in zip(a, b)]), 'sum_arrays')
            s[...] = 99
            need(repr(list(x)) == repr(list(conv(a))) and repr(list(y)) == repr(list(conv(b))),
                 'sum_arrays shares memory with its arguments')


def do_smart_eq(case, ctx):
    a = make(case)
    other, at = case['other'], case['at']
    ctx.label('smart_eq:%s %s' % (case['kind'], other))
    if other == 'plain':
        vals = [1, 1., '1', 'abc', [1, 2], [1, 3], (1, 2), None, {'a': 1}, {'a': 2}, 2, True]
        x, y = vals[at % len(vals)], vals[(at // len(vals)) % len(vals)]
        want = type(x) == type(y) and x == y
    else:
        x, y, want = a, make(case), True
        arr = np.array(a)
        if other == 'value' and arr.size:
            arr = arr.copy()
            old = arr.flat[at % arr.size]
            arr.flat[at % arr.size] += 1 if arr.dtype.kind == 'i' else (
                case['step'] * (old or case['scale']))
            y, want = (arr if isinstance(a, np.ndarray) else
                       tuple(arr.tolist()) if isinstance(a, tuple) else arr.tolist()), False
        elif other == 'shape':
            y = arr[np.newaxis]
            want = False
        elif other == 'broadcast' and arr.ndim:
            x, y = np.zeros((3,) + arr.shape[1:]), np.zeros((1,) + arr.shape[1:])
            want = False
        elif other == 'type':
            y, want = (arr.tolist() if isinstance(a, np.ndarray) else arr), False
        elif other == 'dtype' and isinstance(a, np.ndarray):
            y = a.astype(complex)
    for p, q in ((x, y), (y, x)):
        got = mr.smart_eq(p, q)
        need(isinstance(got, (bool, np.bool_)) and bool(got) == want,
             'smart_eq(%r, %r) gave %r', p, q, got)


def do_block(case, ctx):
    X = gen.rand((case['k'], case['n']), case['seed'], case['cplx'], 'int')
    Y = gen.rand((case['k'], case['m']), case['seed'] + 1, case['cplx'], 'int')
    got = mr.InnerProductBlock(np.vdot)(list(X.T), list(Y.T))
    exact(got, X.conj().T.dot(Y), 'InnerProductBlock')


class Minimal(Vector):
    """Only what the documentation asks for."""
    def __init__(self, arr):
        self.arr = arr

    def __add__(self, other):
        return Minimal(self.arr + other.arr)

    def __mul__(self, scalar):
        return Minimal(self.arr * scalar)


def do_vector(case, ctx):
    a = gen.rand((case['n'],), case['seed'], case['cplx'], 'int')
    b = gen.rand((case['n'],), case['seed'] + 1, case['cplx'], 'int')
    s = {'complex': 1 + 2j, 'numpy': np.float64(1.5)}.get(case['scalar'], case['scalar'])
    v, w = Minimal(a.copy()), Minimal(b.copy())
    for got, want, what in ((v + w, a + b, 'v + w'), (v - w, a - b, 'v - w'), (v * s, a * s, 'v * s'),
                            (v - w * s, a - b * s, 'v - w * s'),
                            (v.__lmul__(s), s * a, 'v.__lmul__(s)'),
                            (v.__rmul__(s), s * a, 'v.__rmul__(s)')):
        need(isinstance(got, Minimal), '%s is a %s', what, type(got))
        exact(got.arr, want, what)
    if case['scalar'] != 'numpy':        # numpy scalars broadcast over objects
        got = s * v
        need(isinstance(got, Minimal), 's * v is a %s', type(got))
        exact(got.arr, s * a, 's * v')
    exact(v.arr, a, 'v afterwards')
    exact(w.arr, b, 'w afterwards')
    hs = [mr.VecHandleInMemory(v, base_vec_handle=mr.VecHandleInMemory(w), scale=2.)]
    exact(hs[0].get().arr, (a - b) * 2, '(v - w) * 2 by a handle')
    class Nothing(Vector):
        def __init__(self):
            pass
    for f, what in ((lambda: Nothing() + Nothing(), '+'), (lambda: Nothing() * 2, '*'),
                    (lambda: 2 * Nothing(), '*'), (lambda: Nothing() - Nothing(), '-'),
                    (lambda: Vector(), 'constructor')):
        try:
            f()
        except NotImplementedError:
            continue
        need(False, 'vector class without %s did not raise NotImplementedError', what)


def f_ip(a, b):
    return np.vdot(a, b)


def g_ip(a, b):
    return np.vdot(a, b)


def do_space_eq(case, ctx):
    n = case['n']
    a, b = np.arange(1., n + 1), np.arange(2., n + 2)
    W = {'none': None, 'a1': a, 'b1': b, 'a2': np.diag(a), 'b2': np.diag(b), 'l1': list(a),
         'n1': a + 1e-9}
    key = {'l1': 'a1'}
    if n == 1:                           # one weight in any form is the same
        key.update({'a2': 'a1', 'b2': 'b1'})
    k = [key.get(x, x) for x in case['w']]
    x, y = [mr.VectorSpaceArrays(weights=W[w]) for w in case['w']]
    need(bool(x == y) == (k[0] == k[1]) and bool(x != y) == (k[0] != k[1]),
         'VectorSpaceArrays with weights %s: == gives %s, != gives %s', case['w'], x == y, x != y)
    ip = {'f': f_ip, 'g': g_ip, 'none': None}
    p, q = [mr.VectorSpaceHandles(inner_product=ip[i], max_vecs_per_node=10, verbosity=v)
            for i, v in zip(case['ip'], case['verb'])]
    same = case['ip'][0] == case['ip'][1] and case['verb'][0] == case['verb'][1]
    need(bool(p == q) == same and bool(p != q) != same,
         'VectorSpaceHandles with %s, %s: == gives %s, != gives %s', case['ip'], case['verb'],
         p == q, p != q)
    need(not x == p and x != p and not p == x and p != x, 'spaces of different classes are equal')


def do_script(case, ctx):
    path = os.path.join(ctx.scratch(), 'script.py')
    text = '\n'.join('%s = %d' % tuple(l) for l in case['lines']) + '\nresult = [%s]' % ', '.join(
        sorted(set(l[0] for l in case['lines']))) + ('\n' if case['newline'] else '')
    with open(path, 'w') as f:
        f.write(text)
    want = [dict(map(tuple, case['lines']))[k] for k in sorted(set(l[0] for l in case['lines']))]
    if case['where'] == 'caller':
        ns = dict(mr=mr, path=path)
        exec('mr.run_script(path)', ns)
        got = ns.get('result')
    elif case['where'] == 'globals':
        ns = dict()
        mr.run_script(path, globals=ns, locals=ns)
        got = ns.get('result')
    else:
        ns, loc = dict(), dict()
        mr.run_script(path, ns, loc)
        need('result' not in ns, 'run_script assigned in globals instead of locals')
        got = loc.get('result')
    need(got == want, 'run_script (%s) of %r gave %r', case['where'], text, got)

"""C21: Hankel builders place every element and chunk on its skew diagonal."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, exact

ID = 'C21'
RULE = ('first columns x last rows (lengths, types, chunk shapes), compared entry by entry; '
        'non-trivial = at least two rows and two columns')
ASSUMPTIONS = ['chunks are arrays, given in lists']


@st.composite
def elem_cases(draw):
    return dict(rows=draw(st.integers(1, 8)), cols=draw(st.one_of(st.none(), st.integers(1, 8))),
                types=[draw(st.sampled_from(['float', 'int', 'complex'])) for _ in range(2)],
                seed=draw(gen.seeds()), form=draw(st.sampled_from(
                    ['1d', 'list', 'column', 'row', 'strided', 'reversed'])),
                row_form=draw(st.sampled_from(['1d', 'column', 'row', 'strided', 'list'])))


@st.composite
def chunk_cases(draw):
    return dict(rows=draw(st.integers(1, 6)), cols=draw(st.one_of(st.none(), st.integers(1, 6))),
                shape=[draw(st.integers(1, 4)), draw(st.integers(1, 4))],
                types=[draw(st.sampled_from(['float', 'int', 'complex'])) for _ in range(2)],
                seed=draw(gen.seeds()), late=draw(st.booleans()),
                layout=draw(st.sampled_from(['C', 'F', 'strided', 'reversed', 'swapped', 'readonly'])))


@st.composite
def large_cases(draw, what):
    case = draw(what)
    sizes = st.one_of(st.integers(1, 8), st.integers(9, 80), st.integers(9, 200))
    case['rows'] = draw(sizes)
    if case['cols'] is not None:
        case['cols'] = draw(sizes)
    return case


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('elements', elem_cases(), 500 * k), ('chunks', chunk_cases(), 500 * k),
            ('elements', large_cases(elem_cases()), 40 * k),
            ('chunks', large_cases(chunk_cases()), 40 * k)]


def make(shape, typ, seed):
    a = gen.rand(shape, seed, typ == 'complex', 'int' if typ == 'int' else 'normal')
    return a.astype(int) if typ == 'int' else a


def form(a, kind):
    return {'1d': lambda: a.copy(), 'list': lambda: a.tolist(),
            'column': lambda: a.reshape(-1, 1).copy(), 'row': lambda: a.reshape(1, -1).copy(),
            'strided': lambda: gen.same_layouts(a, 'strided'),
            'reversed': lambda: gen.same_layouts(a, 'reversed')}[kind]()


def check_type(got, parts, what):
    cplx = any(np.iscomplexobj(p) for p in parts)
    need(np.iscomplexobj(got) == cplx, '%s has type %s', what, got.dtype)


def run_case(name, case, ctx):
    from modred import util
    r, c = case['rows'], case['cols']
    cols = r if c is None else c
    ctx.nontrivial(r > 1 and cols > 1)
    ctx.label('types:%s,%s' % tuple(case['types']), 'default row' if c is None else
              'wide' if c > r else 'tall' if c < r else 'square')
    if name == 'elements':
        col = make((r,), case['types'][0], case['seed'])
        arg = form(col, case['form'])
        before = np.array(arg)
        if c is None:
            row, args, rest = np.zeros(r), (arg,), [0.] * (r - 1)
        else:
            row = make((c,), case['types'][1], case['seed'] + 1)
            args = (arg, form(row, case['row_form']))
            rest = list(row[1:])
        got = util.Hankel(*args)
        seq = list(col) + rest
        want = np.array([[seq[i + j] for j in range(cols)] for i in range(r)])
        exact(got, want, 'Hankel array')
        exact(np.array(arg), before, 'first column after the call')
        if c is not None:
            exact(np.ravel(args[1]), row, 'last row after the call')
            if c > 1:
                check_type(got, [col, row], 'Hankel array')
        else:
            check_type(got, [col], 'Hankel array')
        return
    p, q = case['shape']
    ctx.label('chunks:' + ('square' if p == q else 'rectangular'))
    def chunks(num, typ, seed):
        out = [make((p, q), typ, seed + 10 * i) for i in range(num)]
        if typ == 'complex' and case['late']:
            out[:-1] = [np.real(a) for a in out[:-1]]   # only the last is complex
        return out
    first = chunks(r, case['types'][0], case['seed'])
    fargs = [gen.same_layouts(a, case['layout']) for a in first]
    if c is None:
        last, args = [np.zeros((p, q))] * r, (fargs,)
    else:
        last = chunks(c, case['types'][1], case['seed'] + 5)
        args = (fargs, [gen.same_layouts(a, case['layout']) for a in last])
    got = util.Hankel_chunks(*args)
    seq = first + last[1:]
    want = np.zeros((r * p, cols * q), complex)
    for i in range(r):
        for j in range(cols):
            want[i * p:(i + 1) * p, j * q:(j + 1) * q] = seq[i + j]
    exact(got, want, 'Hankel array')
    check_type(got, seq, 'Hankel array')
    need(len(args[0]) == r and (c is None or len(args[1]) == c), 'lists changed length')
    for a, b in zip(fargs, first):
        exact(a, b, 'chunk after the call')
    if c is not None:
        for a, b in zip(args[1], last):
            exact(a, b, 'chunk after the call')

"""C15: supplied inner products are the weighted quadrature they claim to be."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close
from harness import fail

ID = 'C15'
RULE = ('grids (1-4 dimensions, uneven, increasing or not) x vectors; non-trivial = at least '
        'two points in some dimension')
ASSUMPTIONS = ['vectors are numpy arrays, grids 1D numpy arrays']

GRIDS = ['uniform', 'random', 'cosine', 'quadratic', 'int', 'decreasing', 'shuffled', 'negative']


@st.composite
def trapz_cases(draw):
    dims = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    return dict(
        sizes=[draw(st.integers(1, 7 if dims < 4 else 3)) for _ in range(dims)]
        if draw(st.integers(0, 4)) else [
            draw(st.integers(1, [0, 1500, 60, 20, 9][dims])) for _ in range(dims)],
        grids=[draw(st.sampled_from(GRIDS)) for _ in range(dims)],
        cplx=[draw(st.booleans()), draw(st.booleans())], seed=draw(gen.seeds()),
        kind=draw(st.sampled_from(['normal', 'normal', 'int', 'zero1'])),
        layouts=[draw(st.sampled_from(['C', 'F', 'strided', 'reversed', 'swapped', 'readonly'])) for _ in range(2)],
        scales=[draw(st.sampled_from([1., 1., 1e-7, 1e-20, 1e7])) for _ in range(dims)],
        intdata=draw(st.booleans()), method=draw(st.sampled_from(['call', 'method'])))


@st.composite
def refuse_cases(draw):
    dims = draw(st.integers(1, 3))
    return dict(sizes=[draw(st.integers(1, 4)) for _ in range(dims)], seed=draw(gen.seeds()),
                which=draw(st.sampled_from([0, 1, 2])),
                how=draw(st.sampled_from(['longer', 'shorter', 'transposed', 'flat', 'extra',
                                          'one', 'nogrid', 'list', 'tuple', 'scalar',
                                          'same size'])),
                axis=draw(st.integers(0, 2)))


@st.composite
def uniform_cases(draw):
    return dict(shape=draw(st.one_of(
        st.lists(st.integers(1, 5), min_size=1, max_size=4),
        st.lists(st.integers(1, 5), min_size=1, max_size=4),
        st.lists(st.integers(1, 40), min_size=1, max_size=2),
        st.lists(st.integers(200, 3000), min_size=1, max_size=1))),
                cplx=[draw(st.booleans()), draw(st.booleans())], seed=draw(gen.seeds()),
                kind=draw(st.sampled_from(['normal', 'int'])), intdata=draw(st.booleans()),
                layouts=[draw(st.sampled_from(['C', 'F', 'strided', 'reversed', 'swapped', 'readonly']))
                         for _ in range(2)])


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('trapz', trapz_cases(), 600 * k), ('refuse', refuse_cases(), 250 * k),
            ('uniform', uniform_cases(), 300 * k)]


def grid(kind, n, seed):
    r = gen.rng(seed)
    g = np.cumsum(r.rand(n) + 0.05)
    if kind == 'uniform':
        return np.linspace(-1, 2.5, n)
    if kind == 'cosine':
        return 1 - np.cos(np.linspace(0, np.pi, n))
    if kind == 'quadratic':
        return np.linspace(0.2, 1, n) ** 2
    if kind == 'int':
        return np.cumsum(r.randint(1, 4, n))
    if kind == 'decreasing':
        return g[::-1].copy()
    if kind == 'shuffled':
        return r.permutation(g)
    if kind == 'negative':
        return g - 50.
    return g


def trapz_weights(g, size=False):
    """Weights of the trapezoidal rule, or bounds of their terms' sizes."""
    n = len(g)
    w = np.zeros(n)
    for i in range(n - 1):
        h = float(g[i + 1]) - float(g[i])
        h = abs(h) if size else h
        w[i] += h / 2
        w[i + 1] += h / 2
    return w


def data(shape, case, j):
    a = gen.rand(shape, case['seed'] + j, case['cplx'][j], case['kind']
                 if case['kind'] != 'zero1' else 'normal')
    if case['kind'] == 'int' and case['intdata'] and not case['cplx'][j]:
        a = a.astype(int)
    return a


def run_case(name, case, ctx):
    import modred as mr
    if name == 'refuse':
        return refuse(case, ctx, mr)
    shape = tuple(case['sizes'] if name == 'trapz' else case['shape'])
    vals = [data(shape, case, j) for j in range(2)]
    if case['kind'] == 'zero1':
        vals[0] = vals[0] * 0
    third = gen.rand(shape, case['seed'] + 7, True)
    args = [gen.same_layouts(v, l) for v, l in zip(vals, case['layouts'])]
    ctx.nontrivial(max(shape) > 1)
    if name == 'trapz':
        grids = [grid(k, n, case['seed'] + 100 + i)
                 for i, (k, n) in enumerate(zip(case['grids'], shape))]
        grids = [g if s == 1. else g * s for g, s in zip(grids, case['scales'])]
        copies = [g.copy() for g in grids]
        w, absw = np.ones(()), np.ones(())
        for g in grids:
            w = np.multiply.outer(w, trapz_weights(g))
            absw = np.multiply.outer(absw, trapz_weights(g, True))
        obj = mr.InnerProductTrapz(*grids)
        ip = obj if case['method'] == 'call' else obj.inner_product
        ctx.label('dims:%d' % len(shape), *(['grid:' + k for k in case['grids']] +
                                               ['scale:%g' % k for k in case['scales']]))
    else:
        w = absw = np.ones(shape)
        ip = mr.inner_product_array_uniform
        ctx.label('uniform dims:%d' % len(shape))
    ctx.label('cplx' if any(case['cplx']) else 'real')
    def ref(a, b):
        return complex(np.sum(np.conj(a) * b * w))
    def size(a, b):
        return float(np.sum(np.abs(a) * np.abs(b) * absw))
    u, v = args
    got = ip(u, v)
    need(np.ndim(got) == 0, 'inner product has shape %s', np.shape(got))
    close(got, ref(*vals), 'inner product', 1e-12, scale=size(*vals))
    if not any(case['cplx']):
        need(not np.iscomplexobj(got), 'inner product of real vectors has type %s', type(got))
    close(ip(v, u), np.conj(got), 'conjugate symmetry', 1e-12, scale=size(*vals))
    al, be = 1.5 - 0.5j, -2.
    close(ip(u, al * v + be * third), al * got + be * ip(u, third), 'linearity', 1e-12,
          scale=4 * (size(*vals) + size(vals[0], third)))
    sq = ip(v, v)
    close(sq, ref(vals[1], vals[1]), 'squared norm', 1e-12, scale=size(vals[1], vals[1]))
    positive = name == 'uniform' or (np.min(shape) > 1 and all(
        np.all(np.diff(g) > 0) for g in grids))
    if positive and np.any(vals[1]):
        need(abs(np.imag(sq)) <= 1e-12 * abs(sq) and np.real(sq) > 0,
             'inner product of a vector with itself is %s', sq)
    for a, b in zip(args, vals):
        gen.exact(a, b, 'vector after the call')
    if name == 'trapz':
        for g, c in zip(grids, copies):
            gen.exact(g, c, 'grid after the call')


def refuse(case, ctx, mr):
    sizes = tuple(case['sizes'])
    grids = [np.linspace(0, 1, n) for n in sizes]
    how, ax = case['how'], case['axis'] % len(sizes)
    ctx.nontrivial()
    ctx.label('refuse:' + how)
    def refused(f, what):
        try:
            f()
        except (TypeError, ValueError):
            return
        fail('%s was accepted', what)
    if how == 'nogrid':
        return refused(lambda: mr.InnerProductTrapz(), 'no grid')
    if how in ('list', 'tuple', 'scalar'):
        bad = list(grids)
        bad[ax] = {'list': list, 'tuple': tuple, 'scalar': lambda g: 1.0}[how](grids[ax])
        return refused(lambda: mr.InnerProductTrapz(*bad), 'a grid of type ' + how)
    ip = mr.InnerProductTrapz(*grids)
    bad = list(sizes)
    if how == 'longer':
        bad[ax] += 1
    elif how == 'shorter':
        bad[ax] -= 1
    elif how == 'one':
        bad[ax] = 1
    elif how == 'transposed':
        bad = bad[::-1]
    elif how == 'flat':
        bad = [int(np.prod(sizes))]
    elif how == 'extra':
        bad = bad + [1]
    elif how == 'same size':
        bad = [1, int(np.prod(sizes))]
    if tuple(bad) == sizes:
        ctx.label('same shape after all')
        return
    good = gen.rand(sizes, case['seed'])
    wrong = gen.rand(tuple(bad), case['seed'] + 1)
    u = wrong if case['which'] in (0, 2) else good
    v = wrong if case['which'] in (1, 2) else good
    refused(lambda: ip(u, v), 'vectors of shapes %s, %s on a grid of shape %s' % (
        u.shape, v.shape, sizes))
    refused(lambda: ip.inner_product(u, v), 'vectors of shapes %s, %s on a grid of shape %s' % (
        u.shape, v.shape, sizes))

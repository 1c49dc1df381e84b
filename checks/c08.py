"""C08: POD by both array methods and by handles satisfies its definition."""
import hypothesis.strategies as st
import numpy as np

import gen
import decomp
import vecs
from decomp import rel
from gen import close, exact, need, need_shape
import modred as mr

ID = 'C08'
RULE = ('data sets X = R^-1 U S V^* with W = R^* R and a designed spectrum; non-trivial = at '
        'least two kept components, or a component is truncated')
ASSUMPTIONS = ['truncation levels separate the kept from the dropped components both as '
               'singular values and as eigenvalues, except in the kind level (method of '
               'snapshots and handles), where the level lies between two neighbouring '
               'eigenvalues']


@st.composite
def cases(draw, impls, big=False):
    sizes = st.one_of(st.integers(1, 9), st.integers(3, 9), st.integers(4, 6))
    n = draw(st.integers(501, 520)) if big is True else draw(
        st.integers(10, 90)) if big else draw(sizes)
    m = draw(st.integers(20, 70)) if big == 'many' else draw(sizes)
    full = min(n, m)
    r = draw(st.integers(1, min(full, 12))) if big == 'many' else full - draw(
        st.integers(0, full - 1))
    d = draw(st.integers(0, full - r))
    truncs = ['atol', 'rtol', 'both', 'loose_atol', 'loose_rtol']
    if r == full:
        truncs += ['default'] * 4
    impl = draw(st.sampled_from(impls))
    return dict(
        n=n, m=m, r=r, d=d, cplx=draw(st.booleans()),
        w=draw(st.sampled_from(['2d', '2dc', '2dc'] if big is True else gen.WEIGHTS)), seed=draw(gen.seeds()),
        scale=draw(st.sampled_from([1., 1., 1., 1e-2, 1e2, 1e5, 1e8] + (
            [] if impl == 'direct' else [1e-9, 1e-6, 1e-4, 1e10]))),
        ties=draw(st.sampled_from([False, False, False, 'two', 'all'])),
        trunc=draw(st.sampled_from(truncs)), level=draw(st.sampled_from([0., .5, 1.])),
        impl=impl, aslist=draw(st.booleans()),
        **{k: draw(v) for k, v in dict(
            decomp.handle_fields(), **decomp.index_fields()).items()})


@st.composite
def level_cases(draw):
    case = draw(cases(['snaps', 'handles']))
    case['d'], case['ties'] = 0, False
    case['cut'] = case['r'] - draw(st.integers(0, case['r'] - 1))
    case['trunc'] = draw(st.sampled_from(['atol', 'rtol', 'both']))
    return case


@st.composite
def rounding_cases(draw):
    case = draw(cases(['snaps', 'handles', 'snaps', 'handles', 'direct']))
    case['m'] = draw(st.integers(3, 9))
    case['r'] = draw(st.integers(1, min(case['n'], case['m'] - 1)))
    case['d'] = 0
    case['scale'] = draw(st.sampled_from([1., 1e2, 1e4]))
    case['atol'] = draw(st.sampled_from(['default', 0., 1e-20]))
    return case


def strategies(tier):
    k = 1 if tier == 'quick' else 15
    return [('pod', cases(['snaps', 'direct', 'handles']), 900 * k),
            ('level', level_cases(), 300 * k),
            ('rounding', rounding_cases(), 200 * k),
            ('big', cases(['direct', 'snaps'], True), 3 * k),
            ('many', cases(['snaps', 'direct', 'handles'], 'many'), 15 * k)]


def compute(case, X, warg, W, kw, ctx):
    """Returns the result of the implementation as a dict, with the modes
    selected by the case's indices."""
    if case['impl'] == 'handles':
        env = decomp.env_of(ctx, case)
        hs = decomp.handles(X, case, env, 'x')
        obj = mr.PODHandles(**decomp.obj_kw(case, W))
        ret = obj.compute_decomp(hs, **kw)
        exact(ret[0], obj.eigvals, 'returned eigenvalues')
        exact(ret[1], obj.eigvecs, 'returned eigenvectors')
        k = len(ret[0])
        need(k > 0, 'everything was truncated')
        idx = decomp.indices(case, k)[1]
        res = dict(eigvals=ret[0], eigvecs=ret[1], corr=obj.correlation_array,
                   proj=obj.compute_proj_coeffs(),
                   modes=decomp.modes_from(obj.compute_modes, idx, case['n'],
                                           case['idxkind']),
                   all_modes=decomp.modes_from(obj.compute_modes, list(range(k)),
                                               case['n'], vec_handles=hs))
        vecs.handles_unchanged(hs, X, 'data vector')
        return res, idx
    fun = {'snaps': mr.compute_POD_arrays_snaps_method,
           'direct': mr.compute_POD_arrays_direct_method}[case['impl']]
    if warg is not None:
        kw = dict(kw, inner_product_weights=warg)
    data = X.tolist() if case['aslist'] and X.size < 200 else X
    full = fun(data, **kw)
    k = len(full.eigvals)
    need(k > 0, 'everything was truncated')
    arg, idx = decomp.indices(case, k)
    part = full if arg is None else fun(data, mode_indices=arg, **kw)
    res = dict(eigvals=part.eigvals, eigvecs=part.eigvecs, proj=part.proj_coeffs,
               modes=part.modes, all_modes=full.modes,
               corr=getattr(part, 'correlation_array', None))
    exact(full.eigvals, part.eigvals, 'eigenvalues with mode indices')
    return res, idx


def verify(res, idx, X, W, e, tol):
    """e: expected kept eigenvalues."""
    k = len(e)
    G = X.conj().T.dot(W).dot(X)
    decomp.descending_positive(res['eigvals'], k, 'eigenvalues')
    rel(res['eigvals'], e, 'eigenvalues', tol)
    E, V = res['eigvals'], res['eigvecs']
    need_shape(V, (X.shape[1], k), 'eigenvectors')
    gen.orthonormal(V, 'Gram array of eigenvectors', tol=tol)
    rel(G.dot(V), V * E, 'X^*WX times eigenvectors', tol)
    if res['corr'] is not None:
        rel(res['corr'], G, 'correlation array', tol)
    T = V * E ** -.5
    modes = res['all_modes']
    need_shape(modes, (X.shape[0], k), 'modes')
    gen.orthonormal(modes, 'weighted Gram array of modes', W, tol=tol)
    rel(res['modes'], X.dot(T)[:, idx], 'modes of the requested indices', tol)
    need_shape(res['proj'], (k, X.shape[1]), 'projection coefficients')
    Phi = X.dot(T)
    rel(res['proj'], Phi.conj().T.dot(W).dot(X), 'projection coefficients', tol)
    # energy beyond the kept components, in the weighted norm
    D = X - Phi.dot(res['proj'])
    lost = np.real(np.trace(D.conj().T.dot(W).dot(D)))
    rest = max(0., np.real(np.trace(G)) - np.sum(E))
    need(lost <= rest + tol * np.real(np.trace(G)),
         'energy %g is lost, %g is in the truncated components', lost, rest)


def verify_rounding(res, idx, X, W, e, m):
    """Dependent data and a level below rounding: rounding errors may leave
    positive eigenvalues, which are as good as zero; negative ones must go."""
    k, r = len(res['eigvals']), len(e)
    need(k >= r, '%d eigenvalues for data of rank %d', k, r)
    decomp.descending_positive(res['eigvals'], k, 'eigenvalues')
    rel(res['eigvals'][:r], e, 'eigenvalues', 1e-8)
    need(np.all(res['eigvals'][r:] < 1e-11 * e[0]), 'eigenvalues %s of data of rank %d',
         res['eigvals'], r)
    need_shape(res['eigvecs'], (m, k), 'eigenvectors')
    gen.orthonormal(res['eigvecs'], 'Gram array of eigenvectors', tol=1e-8)
    for key in ('modes', 'all_modes', 'proj'):
        need(np.all(np.isfinite(res[key])), '%s are not finite', key)
    gen.orthonormal(res['all_modes'][:, :r], 'weighted Gram array of modes', W, tol=1e-6)
    rel(res['proj'][:r], res['all_modes'][:, :r].conj().T.dot(W).dot(X),
        'projection coefficients', 1e-6)


def run_case(name, case, ctx):
    n, m, r, d = case['n'], case['m'], case['r'], case['d']
    warg, W, R = gen.weights(case['w'], n, case['seed'])
    X, U, s, V = decomp.lowrank(n, m, r, d, case['cplx'], R, case['seed'],
                                case['scale'], case['ties'])
    e = s ** 2
    if name == 'level':
        c = case['cut']
        lev = (e[c - 1] * e[c]) ** .5 if c < r else e[-1] * .9
        kw = {'atol': dict(atol=lev), 'rtol': dict(rtol=lev / e[0]),
              'both': dict(atol=lev, rtol=lev / e[0] * (1 if c % 2 else .01))}[case['trunc']]
        if case['trunc'] == 'rtol' and (m > r or e[-1] < 1e-10):
            kw['atol'] = 1e-12 * e[0]
        e = e[:c]
    elif name == 'rounding':
        kw = {} if case['atol'] == 'default' else dict(atol=case['atol'])
        res, idx = compute(case, X, warg, W, kw, ctx)
        ctx.nontrivial()
        ctx.label('rounding, impl:' + case['impl'],
                  len(res['eigvals']) > r and 'positive rounding errors kept')
        verify_rounding(res, idx, X, W, e, m)
        return
    elif case['trunc'] == 'default':
        # singular and zero data need a level above rounding
        kw = {} if m <= r and case['scale'] > 1e-5 else dict(atol=1e-9 * case['scale'] ** 2)
    else:
        kw = decomp.gap_level(case, case['scale'])
    ctx.nontrivial(r > 1 or d > 0)
    ctx.label('impl:' + case['impl'], 'w:' + case['w'], 'trunc:' + case['trunc'],
              'idx:' + case['idxkind'], case['cplx'] and 'complex',
              n < m and 'wide', n > m and 'tall', d and 'truncated',
              len(e) == 1 and 'one component', case['ties'] and 'ties')
    X0 = X.copy()
    res, idx = compute(case, X, warg, W, kw, ctx)
    exact(X, X0, 'data afterwards')
    tol = 1e-8 * max(1., 1e-4 * e[0] / e[-1])
    if d:
        tol = max(tol, 1e-6)
    verify(res, idx, X, W, e, tol)

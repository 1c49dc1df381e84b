"""C12: SVD and eigendecomposition wrappers return valid truncated factors."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close, exact, need_shape
from harness import fail

ID = 'C12'
RULE = ('arrays with designed spectra (gaps around the tolerances, or exactly representable '
        'diagonal ones where a value may equal the tolerance); non-trivial = at least two '
        'values, or a value is dropped')
ASSUMPTIONS = ['values are generated with relative gaps of at least 10% around a tolerance, '
               'or arrays are (permuted) diagonal so that their spectra are exact',
               'eig_biorthog is given arrays with distinct eigenvalues, for which a biorthonormal '
               'set exists; tolerances grow when two eigenvectors are nearly parallel']


@st.composite
def spectra(draw, signed):
    k = draw(st.one_of(*[st.integers(1, 8)] * 9 + [st.integers(9, 60)]))
    small = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return dict(
        k=k, hi=draw(st.sampled_from([1e-3, 1., 1., 30., 1e5])),
        decades=draw(st.sampled_from([0.5, 1, 3, 8])),
        zeros=min(small, k - 1),
        neg=draw(st.lists(st.booleans(), min_size=8, max_size=8)) if signed else [],
        cut_a=draw(st.sampled_from(['default', 'none', 'zero'] + list(range(0, 9)) + [20, 40])),
        cut_r=draw(st.sampled_from(['none', 'zero'] + list(range(0, 9)))))


def values(case):
    """Magnitudes, descending with gaps, the last few zero."""
    sp = case['spec']
    k = sp['k']
    nz = k - sp['zeros']
    v = np.zeros(k)
    if nz > 1:
        v[:nz] = sp['hi'] * 10. ** (-sp['decades'] * np.arange(nz) / (nz - 1))
    else:
        v[:nz] = sp['hi']
    return v, nz


def tolerances(case, v, nz):
    """(kwargs, expected number kept given magnitudes); tolerances lie in gaps."""
    sp = case['spec']
    kw = {}
    n_a = nz           # number of non-zero values: zeros are numerically noise
    eps = 1e-12 * v[0]
    if sp['cut_a'] == 'default':
        # 1e-13 must separate: skip zeros unless noise is clearly below
        if nz < len(v):
            kw['atol'] = max(eps * 10, 1e-13)
    elif sp['cut_a'] == 'none' or sp['cut_a'] == 'zero':
        kw['atol'] = None if sp['cut_a'] == 'none' else 0.
        if nz < len(v):
            kw['atol'] = eps * 10
    else:
        c = min(sp['cut_a'], nz)
        kw['atol'] = _between(v[:nz], c, eps)
        n_a = c
    n_r = len(v)
    if sp['cut_r'] == 'zero':
        kw['rtol'] = 0.
    elif sp['cut_r'] != 'none':
        c = min(sp['cut_r'], nz)
        kw['rtol'] = _between(v[:nz], c, eps) / v[0]
        n_r = c
    return kw, min(n_a, n_r)


def _between(v, c, eps):
    """A level below the first c values and above the others."""
    if c == 0:
        return v[0] * 1.5
    if c == len(v):
        return max(v[-1] * 0.5, 10 * eps)
    return (v[c - 1] * v[c]) ** 0.5


@st.composite
def svd_cases(draw):
    sp = draw(spectra(False))
    return dict(spec=sp, rows=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 9, 45, 400])),
                cols=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 9, 45, 400])),
                cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                layout=draw(st.sampled_from(['C', 'C', 'F', 'strided', 'reversed', 'list', 'swapped', 'readonly'])))


@st.composite
def eigh_cases(draw):
    return dict(spec=draw(spectra(True)), cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                pd=draw(st.booleans()), all_pos=draw(st.booleans()),
                layout=draw(st.sampled_from(['C', 'C', 'F', 'strided', 'reversed', 'list', 'swapped', 'readonly'])))


@st.composite
def exact_cases(draw):
    """Permuted diagonal arrays of powers of two, tolerance equal to a value."""
    k = draw(st.integers(1, 6))
    e = sorted(draw(st.lists(st.integers(-6, 6), min_size=k, max_size=k, unique=True)),
               reverse=True)
    return dict(exps=e, func=draw(st.sampled_from(['svd', 'eigh'])),
                perm=draw(st.permutations(list(range(k)))),
                neg=draw(st.lists(st.booleans(), min_size=k, max_size=k)),
                pd=draw(st.booleans()),
                atol=draw(st.one_of(st.none(), st.integers(0, k - 1))),
                rtol=draw(st.one_of(st.none(), st.integers(0, k - 1))))


@st.composite
def eig_cases(draw):
    return dict(k=draw(st.one_of(*[st.integers(1, 8)] * 9 + [st.integers(9, 40)])), cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                normal=draw(st.booleans()), conj=draw(st.booleans()),
                scale=draw(st.sampled_from([1., 1., 1e-4, 1e4])),
                defect=draw(st.sampled_from([0, 0, 0, 0, 1e-3, 1e-5, 1e-7])),
                choice=draw(st.sampled_from(['default', 'left', 'right', 'LEFT', 'Right',
                                             'both', ''])),
                layout=draw(st.sampled_from(['C', 'F', 'strided', 'list', 'swapped', 'readonly'])))


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('svd', svd_cases(), 500 * k), ('eigh', eigh_cases(), 500 * k),
            ('exact', exact_cases(), 300 * k), ('eig', eig_cases(), 400 * k)]


def call(f, a, layout, *args, **kw):
    arg = gen.same_layouts(a, layout)
    before = np.array(arg)
    out = f(arg, *args, **kw)
    exact(np.array(arg), before, 'argument after the call')
    return out


def check_factors(A, U, S, V, v, n, what):
    """v: expected magnitudes (all), n: expected number kept."""
    tol = 1e-12
    need_shape(S, (n,), what + ' values')
    need_shape(U, (A.shape[0], n), what + ' left vectors')
    need_shape(V, (A.shape[1], n), what + ' right vectors')
    top = v[0]
    close(np.abs(S), v[:n], what + ' values', tol, scale=top)
    need(np.all(np.diff(np.abs(S)) <= 1e-12 * top), '%s values not descending: %s', what, S)
    gen.orthonormal(U, what + ' left vectors')
    gen.orthonormal(V, what + ' right vectors')
    err = np.linalg.norm(A - (U * S).dot(V.conj().T), 2) if A.size else 0.
    rest = v[n] if n < len(v) else 0.
    need(abs(err - rest) <= 1e-9 * top,
         '%s factors reconstruct with error %.3g, truncated part is %.3g', what, err, rest)


def run_case(name, case, ctx):
    import modred as mr
    from modred import util
    if name == 'exact':
        return run_exact(case, ctx, util)
    if name == 'eig':
        return run_eig(case, ctx, util)
    v, nz = values(case)
    k = len(v)
    kw, n = tolerances(case, v, nz)
    ctx.nontrivial(k > 1 or n < k)
    ctx.label('dropped' if n < k else 'kept all', 'rtol' if kw.get('rtol') else None,
              'layout:' + case['layout'], 'cplx' if case['cplx'] else 'real')
    if name == 'svd':
        m1, m2 = k + case['rows'], k + case['cols']
        if case['rows'] and case['cols']:
            m1 = k              # min(shape) is k: there are exactly k values
        A = (gen.ortho(m1, k, case['seed'], case['cplx']) * v).dot(
            gen.ortho(m2, k, case['seed'] + 1, case['cplx']).conj().T)
        ctx.label('tall' if m1 > m2 else 'wide' if m1 < m2 else 'square')
        U, S, V = call(util.svd, A, case['layout'], **kw)
        check_factors(A, U, S, V, v, n, 'svd')
        need(np.all(S > 0), 'svd returned values %s', S)
        return
    Q = gen.ortho(k, k, case['seed'], case['cplx'])
    neg = np.resize(case['spec']['neg'], k) & (not case['all_pos'])
    lam = np.where(neg, -v, v)
    A = (Q * lam).dot(Q.conj().T)
    A = 0.5 * (A + A.conj().T)
    if case['pd']:
        kw['is_positive_definite'] = True
        if neg[:nz].any():
            n = min(n, int(np.argmax(neg)))     # only those above the most negative
            ctx.label('indefinite made positive')
    e, Vec = call(util.eigh, A, case['layout'], **kw)
    need(not np.iscomplexobj(e), 'complex eigenvalues')
    check_factors(A, Vec, e, Vec, v, n, 'eigh')
    close(e, lam[:n], 'eigenvalues', 1e-10, scale=v[0])
    if case['pd']:
        need(np.all(e > 0), 'eigenvalues of positive definite decomposition: %s', e)


def run_exact(case, ctx, util):
    v = 2. ** np.array(case['exps'])
    k = len(v)
    kw = {}
    keep = np.ones(k, bool)
    if case['atol'] is not None:
        kw['atol'] = v[case['atol']]
        keep &= v > kw['atol']
    else:
        kw['atol'] = None
    if case['rtol'] is not None:
        kw['rtol'] = v[case['rtol']] / v[0]
        keep &= v / v[0] > kw['rtol']
    lam = np.where(case['neg'], -v, v) if case['func'] == 'eigh' else v
    if case['func'] == 'eigh' and case['pd']:
        kw['is_positive_definite'] = True
        if lam.min() < 0:
            keep &= v > -lam.min()
    n = int(keep.sum())
    ctx.nontrivial(k > 1)
    ctx.label('exact:' + case['func'], 'on boundary')
    A = np.diag(lam)[:, case['perm']]
    if case['func'] == 'svd':
        U, S, V = util.svd(A, **kw)
    else:
        A = np.diag(lam[list(case['perm'])])
        S, U = util.eigh(A, **kw)
        V = U
        close(S, lam[:n], 'eigenvalues', 1e-13, scale=v[0])
    check_factors(A, U, S, V, v, n, case['func'])


def run_eig(case, ctx, util):
    k, cplx = case['k'], case['cplx']
    r = gen.rng(case['seed'])
    mags = 1. + 0.3 * np.arange(k) + 0.1 * r.rand(k)
    if cplx:
        lam = mags * np.exp(2j * np.pi * r.rand(k))
    else:
        lam = mags * r.choice([-1, 1], k)
    lam = lam * case['scale']
    if case['normal']:
        R = gen.ortho(k, k, case['seed'] + 1, cplx)
    else:
        R = np.eye(k) + 0.3 * gen.rand((k, k), case['seed'] + 1, cplx) / k ** 0.5
    A = R.dot(np.diag(lam)).dot(np.linalg.inv(R))
    if not cplx and case['conj'] and k >= 2:
        D = np.diag(lam)
        D[0, 1], D[1, 0], D[1, 1] = 0.7 * lam[0], -0.7 * lam[0], D[0, 0]
        A = R.dot(D).dot(np.linalg.inv(R))
        lam = np.linalg.eigvals(D)
        ctx.label('complex pair')
    delta = case['defect'] if k >= 2 else 0
    if k > 8 and delta:         # rounding grows with the norm
        delta = max(delta, 1e-3)
    if delta:
        # two eigenvectors that are nearly parallel
        Q = gen.ortho(k, k, case['seed'] + 1, cplx)
        D = np.diag(np.append(1., 3. + np.arange(k - 1)).astype(A.dtype))
        D[0, 1], D[1, 1] = 1., 1 + delta
        lam = np.diag(D) * case['scale']
        A = case['scale'] * Q.dot(D).dot(Q.conj().T)
        ctx.label('nearly parallel eigenvectors')
    A = np.real(A) if not cplx else A
    ctx.nontrivial(k > 1)
    if case['choice'].lower() not in ('left', 'right', 'default'):
        ctx.label('invalid choice')
        try:
            util.eig_biorthog(A, scale_choice=case['choice'])
        except ValueError:
            return
        fail('scale_choice %r accepted', case['choice'])
    kw = {} if case['choice'] == 'default' else dict(scale_choice=case['choice'])
    e, R_, L_ = call(util.eig_biorthog, A, case['layout'], **kw)
    s = case['scale'] * (2 + k)
    if delta:
        need_shape(R_, (k, k), 'right eigenvectors')
        need_shape(L_, (k, k), 'left eigenvectors')
        close(A.dot(R_) / s, R_ * e / s, 'A R - R diag(e)', 1e-9)
        LR = L_.conj().T.dot(R_)
        close(np.diag(LR), np.ones(k), 'diagonal of L* R', 1e-12 / delta)
        if delta > 1e-4:
            gen.match_spectrum(e / s, lam / s, 'eigenvalues', 1e-9)
            close(LR, np.eye(k), 'L* R', 1e-12 / delta ** 2)
        unit = R_ if case['choice'].lower() in ('left', 'default') else L_
        close(np.linalg.norm(unit, axis=0), np.ones(k), 'norms of the unscaled set', 1e-10)
        return
    gen.match_spectrum(e / s, lam / s, 'eigenvalues', 1e-9)
    need_shape(R_, (k, k), 'right eigenvectors')
    need_shape(L_, (k, k), 'left eigenvectors')
    close(A.dot(R_) / s, R_ * e / s, 'A R - R diag(e)', 1e-9)
    close(L_.conj().T.dot(A) / s, (L_.conj().T.T * e).T / s, 'L* A - diag(e) L*', 1e-9)
    close(L_.conj().T.dot(R_), np.eye(k), 'L* R', 1e-9)
    unit = R_ if case['choice'].lower() in ('left', 'default') else L_
    close(np.linalg.norm(unit, axis=0), np.ones(k), 'norms of the unscaled set', 1e-10)
    ctx.label('eig:' + case['choice'].lower())

"""C11: total-least-squares DMD equals DMD of the de-noised data."""
import numpy as np

import decomp
import dmdlib
import gen
from decomp import rel
from dmdlib import interval, usable, separable, between
from gen import need_shape, exact

ID = 'C11'
RULE = ('generated data sets with and without noise, all implementations, weights and '
        'truncations; non-trivial = at least two DMD modes, or the data are projected onto a '
        'proper subspace')
ASSUMPTIONS = ['as for C10, for the stacked data and for the de-noised data',
               'atol and rtol apply to both eigendecompositions (stacked and de-noised data), '
               'as max_num_eigvals does; generated levels are usable for both']


def strategies(tier):
    k = 1 if tier == 'quick' else 15
    return [('tls', dmdlib.cases(tls=True), 1100 * k),
            ('tls', dmdlib.cases(tls=True, many=True), 20 * k),
            ('tls', dmdlib.cases(tls=True, many='big'), 4 * k)]


def project(X, Y, V):
    P = V.dot(V.conj().T)
    return X.dot(P), Y.dot(P)


def truncation(case, X, Y, R):
    """(keyword arguments, dimension of the right singular subspace, V, number
    of DMD eigenvalues), or None."""
    impl, t, m = case['impl'], case['trunc'], case['m']
    Zs, V = np.linalg.svd(np.vstack((R.dot(X), R.dot(Y))))[1:]
    V = V.conj().T
    rank = int(np.sum(Zs > 2e-3 * Zs[0]))

    def second(c1):
        X1 = project(X, Y, V[:, :c1])[0]
        return np.linalg.svd(R.dot(X1), compute_uv=False)

    options = []
    kinds = {'atol': ['atol'], 'rtol': ['rtol'], 'both': ['atol', 'rtol'],
             'max+atol': ['atol'], 'max+rtol': ['rtol']}.get(t)
    if kinds:
        for c1 in range(1, rank + 1):
            if not all(usable(Zs, c1, impl, kd) for kd in kinds):
                continue
            s2 = second(c1)
            for c2 in range(1, min(c1, len(s2)) + 1):
                if s2[c2 - 1] < 2e-3 * s2[0]:
                    break
                iv = {}
                for kd in kinds:
                    a, b = interval(Zs, c1, impl, kd), interval(s2, c2, impl, kd)
                    iv[kd] = max(a[0], b[0]), min(a[1], b[1])
                if all(b > 1.3 * a for a, b in iv.values()):
                    options.append((c1, c2, iv))
        if options:
            c1, c2, iv = options[-1 - case['cut'] % len(options)]
            kw = {kd: between(case, *iv[kd]) for kd in kinds}
            if t == 'both':
                kw[kinds[case['cut'] % 2]] *= 1e-3
            if t.startswith('max'):
                mx = 1 + case['over'] % c1
                s2 = None
                if separable(Zs, mx):
                    s2 = second(mx)
                    k2 = min(mx, len(s2))
                    lo_ok = all(s2[k2 - 1] ** (1 if impl == 'direct' else 2) >
                                1.3 * kw[kd] * (1 if kd == 'atol' else s2[0])
                                and s2[k2 - 1] ** 2 > 1.3 * kw[kd] * (
                                    1 if kd == 'atol' else s2[0] ** 2)
                                for kd in kinds)
                    if lo_ok and s2[k2 - 1] > 2e-3 * s2[0]:
                        return dict(kw, max_num_eigvals=mx), mx, V, k2
            return kw, c1, V, c2
        t = 'max'
    if t == 'default' and rank == m and Zs[-1] ** 2 > 1e-10:
        s2 = second(m)
        k2 = int(np.sum(s2 > 2e-3 * s2[0]))
        if k2 == m:
            kw = dict(max_num_eigvals=m + case['over'] - 1) if case['over'] else {}
            return kw, m, V, k2
    cs = []
    for c in range(1, rank + 1):
        if separable(Zs, c):
            s2 = second(c)
            k2 = int(np.sum(s2 > 2e-3 * s2[0]))
            k2 = min(k2, c)
            # what is left must be rounding errors or excluded by the maximum
            if k2 == c or case.get('scale', 1.) <= 1 and (
                    k2 == len(s2) or s2[k2] < 1e-14 * s2[0]):
                cs.append((c, k2))
    if not cs:
        return None
    c, k2 = cs[-1 - case['cut'] % len(cs)]
    return dict(max_num_eigvals=c), c, V, k2


def run_case(name, case, ctx):
    warg, W, R = gen.weights(case['w'], case['n'], case['seed'])
    allv, X, Y, true = dmdlib.make_data(case, R)
    # 'documented' (known finding): levels meant for eigenvalues in every method
    tr = truncation(dict(case, impl='snaps') if name == 'documented' else case, X, Y, R)
    if tr is None:
        ctx.label('no usable truncation level')
        return
    kw, c1, V, k2 = tr
    X1, Y1 = project(X, Y, V[:, :c1])
    lam, cond, s = dmdlib.oracle(X1, Y1, R, k2)
    if k2 < len(s) and not separable(s, k2):
        ctx.label('no usable truncation level')
        return
    Zs = np.linalg.svd(np.vstack((R.dot(X), R.dot(Y))), compute_uv=False)
    # sensitivity of the leading right singular subspace
    gap = 1. if c1 >= len(Zs) else 1 - Zs[c1] / Zs[c1 - 1]
    cond = cond * (Zs[0] / Zs[c1 - 1]) ** 2 / gap
    if not cond < 1e7:
        ctx.label('ill conditioned')
        return
    m = case['m']
    ctx.nontrivial(k2 > 1 or c1 < m)
    ctx.label('impl:' + case['impl'], 'w:' + case['w'], 'data:' + case['data'],
              'kw:' + ','.join(sorted(kw)), case['cplx'] and 'complex', k2 == 1 and 'one mode',
              case['n'] < m and 'wide', 'idx:' + case['idxkind'],
              c1 < m and 'projected', c1 == m and 'standard DMD', k2 < c1 and 'second truncation',
              case['noise'] and 'noise', 'scale:%g' % case.get('scale', 1.))
    res, idx = dmdlib.results(case, True, allv, X, Y, warg, W, kw, ctx)
    tol = max(1e-8, 1e-13 * cond)
    # stacked data
    decomp.descending_positive(res['sumvals'], c1, 'sum correlation eigenvalues')
    rel(res['sumvals'], Zs[:c1] ** 2, 'sum correlation eigenvalues', 1e-8)
    S = (X.conj().T.dot(W).dot(X) + Y.conj().T.dot(W).dot(Y))
    need_shape(res['sumvecs'], (m, c1), 'sum correlation eigenvectors')
    gen.orthonormal(res['sumvecs'], 'Gram array of the sum correlation eigenvectors', tol=tol)
    rel(S.dot(res['sumvecs']), res['sumvecs'] * res['sumvals'],
        'sum correlation array times eigenvectors', 1e-8)
    dmdlib.verify(res, idx, X1, Y1, W, s[:k2], lam, tol, pre='proj')
    if true is not None and len(true) == k2:
        gen.match_spectrum(res['eigvals'], true, 'eigenvalues of the dynamics', max(tol, 1e-7))
    if case['impl'] != 'direct':
        WX, WY = W.dot(X), W.dot(Y)
        rel(res['correlation_array'], X.conj().T.dot(WX), 'correlation array', 1e-9)
        rel(res['cross_correlation_array'], X.conj().T.dot(WY),
            'cross-correlation array', 1e-9)
        rel(res['adv_correlation_array'], Y.conj().T.dot(WY),
            'advanced correlation array', 1e-9)

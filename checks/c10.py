"""C10: DMD by both array methods and by handles satisfies its definitions."""
import numpy as np

import dmdlib
import gen
from decomp import rel
from dmdlib import interval, usable, separable, between

ID = 'C10'
RULE = ('generated data sets (designed compression, random sequences, linear dynamics), all '
        'implementations, weights and truncations; non-trivial = at least two DMD modes, or '
        'components truncated')
ASSUMPTIONS = ['the kept correlation spectrum spans at most a factor 2e-3 in singular values '
               'and the low-order map has eigenvalues at least 1e-3 apart (relative) with '
               'eigenvector conditioning (times squared spectrum ratio) below 1e7; worse '
               'conditioned cases are generated but not judged',
               'truncation levels separate kept from dropped components as eigenvalues and, '
               'for the direct method, also as singular values',
               'exact modes are judged when no eigenvalue is below 1e-12 (their inner products with '
               'adjoint modes when none is below 1e-3)']


def strategies(tier):
    k = 1 if tier == 'quick' else 15
    return [('dmd', dmdlib.cases(), 1100 * k), ('dmd', dmdlib.cases(many=True), 20 * k),
            ('dmd', dmdlib.cases(many='big'), 4 * k)]


def truncation(case, s):
    """(keyword arguments, number of components kept)."""
    impl, t = case['impl'], case['trunc']
    m = case['m']
    rank = int(np.sum(s > 2e-3 * s[0]))
    kw, k = {}, None
    seps = [c for c in range(1, rank + 1) if separable(s, c)]
    if 'atol' in t or 'rtol' in t or t == 'both':
        kinds = ['atol', 'rtol'] if t == 'both' else [t[-4:]]
        cs = [c for c in range(1, rank + 1)
              if all(usable(s, c, impl, kd) for kd in kinds)]
        if cs:
            k = cs[-1 - case['cut'] % len(cs)]
            for kd in kinds:
                kw[kd] = between(case, *interval(s, k, impl, kd))
            if t == 'both':
                kw[kinds[case['cut'] % 2]] *= 1e-3
        else:
            t = 'max'
    if t == 'default' and not (
            rank == len(s) == m and s[-1] ** 2 > 1e-10):
        t = 'max'
    if t == 'default':
        k = m
        if case['over']:
            kw['max_num_eigvals'] = m + case['over'] - 1
    elif t.startswith('max'):
        ok = [c for c in seps if k is None or c <= k]
        if not ok:
            return (kw, k) if k else (None, None)
        mx = ok[-1 - case['cut'] % len(ok)]
        kw['max_num_eigvals'] = mx
        k = mx
    return kw, k


def run_case(name, case, ctx):
    warg, W, R = gen.weights(case['w'], case['n'], case['seed'])
    allv, X, Y, true = dmdlib.make_data(case, R)
    s = np.linalg.svd(R.dot(X), compute_uv=False)
    # 'documented' (known finding): levels meant for eigenvalues in every method
    kw, k = truncation(dict(case, impl='snaps') if name == 'documented' else case, s)
    if k is None:
        ctx.label('no usable truncation level')
        return
    lam, cond, s = dmdlib.oracle(X, Y, R, k)
    if not cond < 1e7:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(k > 1 or k < len(s))
    ctx.label('impl:' + case['impl'], 'w:' + case['w'], 'data:' + case['data'],
              'kw:' + ','.join(sorted(kw)), case['cplx'] and 'complex', k == 1 and 'one mode',
              case['n'] < case['m'] and 'wide', 'idx:' + case['idxkind'],
              'scale:%g' % case.get('scale', 1.),
              k < np.sum(s > 1e-9 * s[0]) and 'truncated',
              np.min(np.abs(lam)) < 1e-3 and 'eigenvalue below 1e-3',
              true is not None and len(true) == k and 'true eigenvalues')
    res, idx = dmdlib.results(case, False, allv, X, Y, warg, W, kw, ctx)
    tol = max(1e-8, 1e-13 * cond)
    dmdlib.verify(res, idx, X, Y, W, s[:k], lam, tol)
    if true is not None and len(true) == k:
        gen.match_spectrum(res['eigvals'], true, 'eigenvalues of the dynamics', max(tol, 1e-7))
    if case['impl'] != 'direct':
        rel(res['correlation_array'], X.conj().T.dot(W).dot(X), 'correlation array', 1e-9)
        rel(res['cross_correlation_array'], X.conj().T.dot(W).dot(Y),
            'cross-correlation array', 1e-9)

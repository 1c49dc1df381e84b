"""Data, truncation levels, uniform access and verification for DMD and
total-least-squares DMD."""
import hypothesis.strategies as st
import numpy as np

import decomp
import gen
import vecs
from decomp import rel
from gen import close, exact, need, need_shape
import modred as mr

FIELDS = ['eigvals', 'R', 'L', 'spectral', 'exact', 'projm', 'adj', 'proj', 'adv']


@st.composite
def cases(draw, tls=False, many=False):
    sizes = st.one_of(st.integers(1, 9), st.integers(3, 8), st.integers(4, 6))
    n, m = draw(sizes), draw(sizes)
    if many == 'big':       # weights of this size are announced as costly
        n, m = draw(st.integers(501, 515)), draw(st.integers(2, 9))
    elif many:
        n, m = draw(st.integers(8, 60)), draw(st.integers(10, 60))
    full = min(n, m)
    data = draw(st.sampled_from(['paired', 'paired', 'seq', 'dynseq', 'dynpair']))
    r = draw(st.integers(1, 10)) if many is True else full - draw(st.integers(0, full - 1))
    r = min(r, full)
    if data == 'dynseq':
        r = min(r, 4)
    if many and data == 'seq':
        data = 'paired'
    return dict(
        n=n, m=m, r=r, d=draw(st.integers(0, full - r)), data=data,
        cplx=draw(st.booleans()), w=draw(st.sampled_from(['2d', '2dc', '2dc'] if many == 'big' else gen.WEIGHTS)),
        seed=draw(gen.seeds()), ties=draw(st.sampled_from([False, False, False, 'two'])),
        noise=draw(st.sampled_from([0., .05])) if tls else 0.,
        scale=draw(st.sampled_from([1., 1., 1., 1e-3, 1e4, 1e8])),
        tiny=draw(st.sampled_from([0., 0., 0., 0., 1e-2, 1e-4, 1e-6])),
        trunc=draw(st.sampled_from(['default', 'default', 'max', 'max', 'atol', 'rtol', 'both',
                                    'max+atol', 'max+rtol'])),
        cut=draw(st.integers(0, 30)), over=draw(st.integers(0, 2)),
        level=draw(st.sampled_from([.2, .5, .8])),
        impl=draw(st.sampled_from(['direct'] * 5 * (many == 'big') + ['snaps', 'direct', 'handles'])),
        aslist=draw(st.booleans()), explicit=draw(st.booleans()),
        **{k: draw(v) for k, v in dict(
            decomp.handle_fields(), **decomp.index_fields()).items()})


def separated(k, seed, cplx, tiny=0.):
    """k x k array with separated eigenvalues of size 0.3 to 1.4 (the first of
    size tiny, unless zero) and well conditioned eigenvectors, and its
    eigenvalues."""
    r = gen.rng(seed + 41)
    rad = .35 + np.arange(k) * 1. / max(k, 1) + .05 * r.rand(k)
    if tiny and k > 1:
        rad[0] = tiny * (1 + r.rand())
    rad = rad[r.permutation(k)]
    if cplx:
        lam = rad * np.exp(2j * np.pi * r.rand(k))
        D = np.diag(lam)
    else:
        D = np.zeros((k, k))
        lam = []
        i = 0
        while i < k:
            if i + 1 < k and r.rand() < .5:
                z = rad[i] * np.exp(1j * np.pi * (.15 + .7 * r.rand()))
                D[i:i + 2, i:i + 2] = [[z.real, z.imag], [-z.imag, z.real]]
                lam += [z, z.conjugate()]
                i += 2
            else:
                D[i, i] = rad[i] * (1 if r.rand() < .6 else -1)
                lam.append(D[i, i])
                i += 1
        lam = np.array(lam)
    P = gen.ortho(k, k, seed + 42, cplx) + \
        .25 * gen.rand((k, k), seed + 43, cplx) / max(k, 1) ** .5
    return P.dot(D).dot(np.linalg.inv(P)), lam


def make_data(case, R):
    allv, X, Y, true = unscaled(case, R)
    c = case.get('scale', 1.)
    if allv is None:
        return None, X * c, Y * c, true
    allv = allv * c
    return allv, allv[:, :-1], allv[:, 1:], true


def unscaled(case, R):
    """(all vectors, X, Y, true eigenvalues or None); for sequential data all
    vectors is the one array given, else None."""
    n, m, r, d, c, seed = (case[k] for k in ('n', 'm', 'r', 'd', 'cplx', 'seed'))
    kind = case['data']
    solve = lambda a: np.linalg.solve(R, a)
    noise = case['noise'] * gen.rand((n, m + 1), seed + 60, c)
    if kind == 'seq':
        Z = solve(gen.rand((n, m + 1), seed + 50, c))
        return Z, Z[:, :-1], Z[:, 1:], None
    A, lam = separated(r, seed, c, case.get('tiny', 0.))
    if kind == 'dynseq':
        U = gen.ortho(n, r, seed + 51, c)
        ev, P = np.linalg.eig(A)
        x0 = P.sum(axis=1)
        x = [x0 if c else x0.real if np.allclose(x0.imag, 0) else
             (P + P.conj()).sum(axis=1).real]
        for _ in range(m):
            x.append(A.dot(x[-1]))
        Z = U.dot(np.array(x).T)
        Z = solve(Z / np.max(np.abs(Z)) * 2 + noise)
        return Z, Z[:, :-1], Z[:, 1:], None if case['noise'] else lam
    X, U, s, V = decomp.lowrank(n, m, r, 0 if kind == 'dynpair' else d, c, R,
                                seed, 1., case['ties'])
    Xw = R.dot(X)
    if kind == 'dynpair':
        Y = solve(U.dot(A).dot(U.conj().T).dot(Xw) + noise[:, 1:])
        return None, X + solve(noise[:, :-1]), Y, None if case['noise'] else lam
    # leading block controlled, so that truncations stay well conditioned
    kb = 1 + case['cut'] % r if case['trunc'].startswith('max') else r
    M = gen.rand((r, r), seed + 44, c) * .5
    M[:kb, :kb] = separated(kb, seed + 1, c, case.get('tiny', 0.))[0]
    G = gen.rand((n, r), seed + 45, c)
    G = G - U.dot(U.conj().T.dot(G))
    H = gen.rand((n, m), seed + 46, c)
    H = H - H.dot(V).dot(V.conj().T)
    Yw = (U.dot(M) + G).dot((V * s).conj().T) + H
    return None, X + solve(noise[:, :-1]), solve(Yw + noise[:, 1:]), None


def interval(s, c, impl, kind):
    """Open interval of tolerances that keep exactly the first c of the
    singular values s, for the implementation (and, for the direct method,
    whether the level is meant for singular values or their squares)."""
    s = np.asarray(s, dtype=float)
    v = s / s[0] if kind == 'rtol' else s
    nxt = v[c] if c < len(v) else 0.
    lo = nxt ** 2 if impl != 'direct' else max(nxt, nxt ** 2)
    floor = 1e-13 if kind == 'rtol' else 1e-13 * max(s[0], s[0] ** 2)
    hi = v[c - 1] ** 2 if impl != 'direct' else min(v[c - 1], v[c - 1] ** 2)
    return max(lo, floor), hi


def usable(s, c, impl, kind):
    lo, hi = interval(s, c, impl, kind)
    return hi > 1.3 * lo and s[c - 1] > 2e-3 * s[0]


def separable(s, c):
    return s[c - 1] > 2e-3 * s[0] and (c == len(s) or s[c] < .95 * s[c - 1])


def between(case, lo, hi):
    return float(np.exp(np.log(lo) * (1 - case['level']) +
                        np.log(hi) * case['level']))


def results(case, tls, all_vecs, X, Y, warg, W, kw, ctx):
    """(dict of results, indices of the modes)."""
    n = case['n']
    src = X if all_vecs is None else all_vecs
    if case['impl'] != 'handles':
        fun = {(0, 'snaps'): mr.compute_DMD_arrays_snaps_method,
               (0, 'direct'): mr.compute_DMD_arrays_direct_method,
               (1, 'snaps'): mr.compute_TLSqrDMD_arrays_snaps_method,
               (1, 'direct'): mr.compute_TLSqrDMD_arrays_direct_method}[
                   int(tls), case['impl']]
        kw = dict(kw)
        if warg is not None:
            kw['inner_product_weights'] = warg
        conv = (lambda a: a.tolist()) if case['aslist'] else (lambda a: a)
        if all_vecs is None:
            kw['adv_vecs'] = conv(Y)
        x0, y0 = src.copy(), Y.copy()
        res = fun(conv(src), **kw)
        arg, idx = decomp.indices(case, len(res.eigvals))
        if arg is not None:
            res = fun(conv(src), mode_indices=arg, **kw)
        exact(src, x0, 'vecs afterwards')
        exact(Y, y0, 'adv_vecs afterwards')
        res = res._asdict()
        out = dict(eigvals=res['eigvals'], R=res['R_low_order_eigvecs'],
                   L=res['L_low_order_eigvecs'], spectral=res['spectral_coeffs'],
                   exact=res['exact_modes'], projm=res['proj_modes'],
                   adj=res['adjoint_modes'], proj=res['proj_coeffs'],
                   adv=res['adv_proj_coeffs'])
        pre = ['sum', 'proj'] if tls else ['']
        for p in pre:
            q = p + '_' if p else ''
            out[p + 'vals'] = res[q + 'correlation_array_eigvals']
            out[p + 'vecs'] = res[q + 'correlation_array_eigvecs']
        for k in ('correlation_array', 'cross_correlation_array',
                  'adv_correlation_array'):
            if k in res:
                out[k] = res[k]
        return out, idx
    env = decomp.env_of(ctx, case)
    hs = decomp.handles(src, case, env, 'x')
    ha = None if all_vecs is not None else decomp.handles(Y, case, env, 'y')
    obj = (mr.TLSqrDMDHandles if tls else mr.DMDHandles)(**decomp.obj_kw(case, W))
    if ha is None:
        ret = obj.compute_decomp(hs, **kw)
    else:
        ret = obj.compute_decomp(hs, adv_vec_handles=ha, **kw)
    k = len(ret[0])
    idx = decomp.indices(case, k)[1]
    out = dict(eigvals=ret[0], R=ret[1], L=ret[2],
               correlation_array=obj.correlation_array,
               cross_correlation_array=obj.cross_correlation_array)
    if tls:
        out.update(sumvals=ret[3], sumvecs=ret[4], projvals=ret[5], projvecs=ret[6],
                   adv_correlation_array=obj.adv_correlation_array)
        names = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
                 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']
    else:
        out.update(vals=ret[3], vecs=ret[4])
        names = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
                 'correlation_array_eigvals', 'correlation_array_eigvecs']
    for a, b in zip(ret, names):
        exact(a, getattr(obj, b), 'returned %s' % b)
    out['spectral'] = obj.compute_spectrum()
    out['proj'], out['adv'] = obj.compute_proj_coeffs()
    ke, kx = {}, {}
    if case['explicit']:
        ke = dict(adv_vec_handles=ha if ha is not None else hs[1:])
        kx = dict(vec_handles=hs[:-1] if ha is None and case['over'] else hs)
    kind = case['idxkind']
    if np.min(np.abs(ret[0])) > 1e-8:
        out['exact'] = decomp.modes_from(obj.compute_exact_modes, idx, n, kind, **ke)
    out['projm'] = decomp.modes_from(obj.compute_proj_modes, idx, n, kind, **kx)
    out['adj'] = decomp.modes_from(obj.compute_adjoint_modes, idx, n, kind, **kx)
    exact(out['spectral'], obj.spectral_coeffs, 'attribute spectral_coeffs')
    exact(out['proj'], obj.proj_coeffs, 'attribute proj_coeffs')
    exact(out['adv'], obj.adv_proj_coeffs, 'attribute adv_proj_coeffs')
    vecs.handles_unchanged(hs, src, 'data vector')
    if ha is not None:
        vecs.handles_unchanged(ha, Y, 'advanced vector')
    return out, idx


def oracle(X, Y, R, k):
    """Compression of the best-fit map to the leading k POD modes; returns
    (eigenvalues, conditioning, singular values)."""
    U, s, Vh = np.linalg.svd(R.dot(X), full_matrices=False)
    At = (U[:, :k].conj().T.dot(R.dot(Y)).dot(Vh[:k].conj().T)) / s[:k]
    lam, P = np.linalg.eig(At)
    cond = np.linalg.cond(P) * (s[0] / s[k - 1]) ** 2 * max(
        1., np.linalg.norm(At) / max(np.max(np.abs(lam)), 1e-300))
    if k > 1:
        d = np.abs(lam[:, None] - lam[None, :]) + np.eye(k) * 1e9
        if np.min(d) < 1e-3 * np.max(np.abs(lam)):
            cond = np.inf
    return lam, cond, s


def verify(res, idx, X, Y, W, s, lam, tol, pre='', proj_weights=None):
    """All relations between the results and the data X, Y (for total least
    squares the de-noised data); s: expected kept singular values."""
    k = len(s)
    m = X.shape[1]
    E, V = res[pre + 'vals'], res[pre + 'vecs']
    decomp.descending_positive(E, k, 'correlation eigenvalues')
    rel(E, s ** 2, 'correlation eigenvalues', tol)
    need_shape(V, (m, k), 'correlation eigenvectors')
    gen.orthonormal(V, 'Gram array of the correlation eigenvectors', tol=tol)
    WX = W.dot(X)
    G = X.conj().T.dot(WX)
    C = X.conj().T.dot(W).dot(Y)
    rel(G.dot(V), V * E, 'correlation array times eigenvectors', tol)
    T = V * E ** -.5
    At = T.conj().T.dot(C).dot(T)
    lams = np.asarray(res['eigvals'])
    gen.match_spectrum(lams, lam, 'eigenvalues', tol)
    Rv, L = np.asarray(res['R']), np.asarray(res['L'])
    need_shape(Rv, (k, k), 'right low-order eigenvectors')
    need_shape(L, (k, k), 'left low-order eigenvectors')
    rel(At.dot(Rv), Rv * lams, 'low-order map times right eigenvectors', tol)
    rel(L.conj().T.dot(At), (L * lams.conj()).conj().T,
        'left eigenvectors times low-order map', tol)
    close(L.conj().T.dot(Rv), np.eye(k), 'biorthogonality of the low-order eigenvectors', tol)
    close(np.linalg.norm(Rv, axis=0), np.ones(k), 'norms of right eigenvectors', tol)
    if 'exact' in res:
        if np.min(np.abs(lams)) > 1e-12:
            rel(np.asarray(res['exact']) * lams[idx], Y.dot(T).dot(Rv)[:, idx],
                'exact modes times eigenvalues', tol)
            need_shape(res['exact'], (X.shape[0], len(idx)), 'exact modes')
        if np.min(np.abs(lams)) > 1e-3:
            rel(res['adj'].conj().T.dot(W).dot(res['exact']),
                np.array([[float(i == j) for j in idx] for i in idx]),
                'inner products of adjoint and exact modes', tol * 10)
        else:
            need_shape(res['exact'], (X.shape[0], len(idx)), 'exact modes')
    rel(res['projm'], X.dot(T).dot(Rv)[:, idx], 'projected modes', tol)
    Psi = X.dot(T).dot(L)
    rel(res['adj'], Psi[:, idx], 'adjoint modes', tol)
    close(res['adj'].conj().T.dot(W).dot(res['projm']),
          np.array([[float(i == j) for j in idx] for i in idx]),
          'inner products of adjoint and projected modes', tol * 10)
    need_shape(res['proj'], (k, m), 'projection coefficients')
    need_shape(res['adv'], (k, m), 'advanced projection coefficients')
    pw = Psi.conj().T.dot(W)
    rel(res['proj'], pw.dot(X), 'projection coefficients', tol)
    rel(res['adv'], pw.dot(Y), 'advanced projection coefficients', tol)
    need_shape(res['spectral'], (k,), 'spectral coefficients')
    rel(res['spectral'], np.abs(pw.dot(X[:, 0])), 'spectral coefficients', tol)

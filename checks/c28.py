"""C28: different routes to the same model or modes agree."""
import os

import hypothesis.strategies as st
import numpy as np

import decomp
import gen
import vecs
from gen import close, need, need_shape
import modred as mr

ID = 'C28'
RULE = ('linear systems and data sets taken through two routes (BPOD + Galerkin / ERA, ERA / '
        'balanced truncation, BPOD / POD, POD + Galerkin / DMD, OKID + ERA + simulation / true '
        'outputs); non-trivial = model of order at least two (at least two modes)')
ASSUMPTIONS = ['smallest kept Hankel singular value above 1e-4 of the largest, at most 0.9 of it '
               'is discarded; others are generated but not judged',
               'models are compared by their Markov parameters, modes up to phase']


def impls(draw, *names):
    return {k: draw(st.sampled_from(['arrays', 'handles'])) for k in names}


@st.composite
def system_cases(draw, kind):
    return dict(
        kind=kind, n=draw(st.integers(1, 6)), p=draw(st.integers(1, 3)), q=draw(st.integers(1, 3)),
        sx=draw(st.integers(1, 6)), sy=draw(st.integers(1, 6)), seed=draw(gen.seeds()),
        radius=draw(st.sampled_from([.9, .7, 1.05])), w=draw(st.sampled_from(gen.WEIGHTS)),
        order=draw(st.integers(1, 30)), scale=draw(st.sampled_from(
            [1., 1e-2, 30., 1e-9, 1e9] if kind == 'era_bt' else [1., 1., 1e-2, 30.])),
        feed=draw(st.sampled_from([0., 1.])), cplx=draw(st.booleans()), files=draw(st.booleans()),
        orthonormal=draw(st.booleans()),
        **dict(impls(draw, 'bpod', 'gal'),
               **{k: draw(v) for k, v in decomp.handle_fields().items()}))


@st.composite
def data_cases(draw, kind):
    n = draw(st.integers(2, 10))
    return dict(
        kind=kind, n=n, m=draw(st.integers(1, n)), cplx=draw(st.booleans()),
        w=draw(st.sampled_from(gen.WEIGHTS)), seed=draw(gen.seeds()),
        order=draw(st.integers(1, 30)), scale=draw(st.sampled_from([1., 1., .1, 20.])),
        dt=draw(st.sampled_from([1., .1, 3])),
        pod=draw(st.sampled_from(['snaps', 'direct', 'handles'])),
        dmd=draw(st.sampled_from(['snaps', 'direct', 'handles'])),
        **dict(impls(draw, 'bpod', 'gal'),
               **{k: draw(v) for k, v in decomp.handle_fields().items()}))


def strategies(tier):
    k = 2 if tier == 'quick' else 20
    return [('bpod_era', system_cases('bpod_era'), 300 * k),
            ('era_bt', system_cases('era_bt'), 100 * k),
            ('okid_era', system_cases('okid_era'), 100 * k),
            ('bpod_pod', data_cases('bpod_pod'), 250 * k),
            ('galerkin_dmd', data_cases('galerkin_dmd'), 300 * k)]


def system(case, radius):
    n, seed = case['n'], case['seed']
    c = case['cplx'] and case['kind'] != 'okid_era'     # lsim is for real systems
    A = .8 * gen.ortho(n, n, seed, c) + .6 * gen.rand((n, n), seed + 1, c) / n ** .5
    A *= radius / np.max(np.abs(np.linalg.eigvals(A)))
    return (A, gen.rand((n, case['p']), seed + 2, c) * case['scale'],
            gen.rand((case['q'], n), seed + 3, c))


def markov(A, B, C, num):
    out, x = [], np.array(B)
    for _ in range(num):
        out.append(C.dot(x))
        x = A.dot(x)
    return np.array(out)


def usable_order(case, s):
    """An order below which there is a gap in the singular values, or None."""
    ok = [r for r in range(1, len(s) + 1) if s[r - 1] > 1e-4 * s[0] and
          (r == len(s) or s[r] < .9 * s[r - 1])]
    return ok[-1 - case['order'] % len(ok)] if ok else None


def handle_modes(method, num, n):
    return decomp.modes_from(method, list(range(num)), n)


def run_case(name, case, ctx):
    ctx.label(case['kind'])
    globals()['do_' + case['kind']](case, ctx)


def bpod(case, X, Y, warg, W, p, q, r, ctx):
    """(singular values, r direct and adjoint modes, direct coefficients)."""
    if case['bpod'] == 'handles':
        env = decomp.env_of(ctx, case)
        obj = mr.BPODHandles(**decomp.obj_kw(case, W))
        s = obj.compute_decomp(decomp.handles(X, case, env, 'x'), decomp.handles(Y, case, env, 'y'),
                               num_inputs=p, num_outputs=q)[0]
        r = len(s) if r is None else r
        need(len(s) >= r, 'BPOD has %d modes instead of %d', len(s), r)
        return (s, handle_modes(obj.compute_direct_modes, r, len(X)),
                handle_modes(obj.compute_adjoint_modes, r, len(X)),
                obj.compute_direct_proj_coeffs())
    res = mr.compute_BPOD_arrays(X, Y, num_inputs=p, num_outputs=q, inner_product_weights=warg)
    r = len(res.sing_vals) if r is None else r
    return (res.sing_vals, res.direct_modes[:, :r], res.adjoint_modes[:, :r],
            res.direct_proj_coeffs)


def galerkin(case, Phi, Psi, warg, W, AP, B, CP, orthonormal, ctx):
    if case['gal'] == 'arrays':
        return mr.LTIGalerkinProjectionArrays(
            Phi, adjoint_basis_vecs=Psi, is_basis_orthonormal=orthonormal,
            inner_product_weights=warg).compute_model(AP, B, CP)
    env = decomp.env_of(ctx, case)
    hs = [None if x is None else decomp.handles(x, case, env, 'g%d' % i)
          for i, x in enumerate((Phi, Psi, AP, B))]
    return mr.LTIGalerkinProjectionHandles(
        decomp.ip_of(W), hs[0], adjoint_basis_vec_handles=hs[1], is_basis_orthonormal=orthonormal,
        verbosity=0, max_vecs_per_node=case['max_vecs']).compute_model(
            hs[2], hs[3], [CP[:, i] for i in range(CP.shape[1])])


def same_models(got, want, num, what, tol):
    m, w = markov(*(tuple(got) + (num,))), markov(*(tuple(want) + (num,)))
    close(m, w, what, tol, scale=max(1e-12, float(np.max(np.abs(w)))))


def do_bpod_era(case, ctx):
    A, B, C = system(case, case['radius'])
    n, p, q, sx, sy = case['n'], case['p'], case['q'], case['sx'], case['sy']
    warg, W, R = gen.weights(case['w'], n, case['seed'])
    Ap = np.linalg.solve(W, A.conj().T.dot(W))
    X, Y = [B], [np.linalg.solve(W, C.conj().T)]
    for _ in range(sx - 1):
        X.append(A.dot(X[-1]))
    for _ in range(sy - 1):
        Y.append(Ap.dot(Y[-1]))
    M = markov(A, B, C, sx + sy)
    H = np.vstack([np.hstack([M[i + j] for j in range(sx)]) for i in range(sy)])
    s = np.linalg.svd(H, compute_uv=False)
    s = s[s > 1e-11 * s[0]]
    r = usable_order(case, s)
    if r is None or s[-1] < 1e-8 * s[0]:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(r > 1)
    ctx.label('bpod:' + case['bpod'], 'galerkin:' + case['gal'], 'order below rank' if
              r < len(s) else 'full order')
    sv, Phi, Psi, _ = bpod(case, np.hstack(X), np.hstack(Y), warg, W, p, q, r, ctx)
    close(sv[:r], s[:r], 'BPOD singular values', 1e-8, scale=s[0])
    model = galerkin(case, Phi, Psi, warg, W, A.dot(Phi), B, C.dot(Phi), case['orthonormal'], ctx)
    times = [t for k in range(sx + sy - 1) for t in (k, k + 1)]
    era = mr.ERA(verbosity=0)
    data = M[times]
    if len(data) < sx + sy + 2:
        data = np.concatenate([data] * 4)       # only a check of the code's; not used
    era_model = era.compute_model(data, r, mc=sx, mo=sy)
    close(era.sing_vals[:r], s[:r], 'ERA singular values', 1e-8, scale=s[0])
    same_models(model, era_model, sx + sy + 2,
                'Markov parameters: BPOD with Galerkin projection against ERA', 1e-6)


def do_era_bt(case, ctx):
    A, B, C = system(case, min(case['radius'], .7) * .8)
    N = 40
    M = markov(A, B, C, 2 * N + 1)
    X = np.hstack([np.linalg.matrix_power(A, k).dot(B) for k in range(2 * N)])
    Z = np.hstack([np.linalg.matrix_power(A.conj().T, k).dot(C.conj().T) for k in range(2 * N)])
    hankel = np.linalg.svd(Z.conj().T.dot(X), compute_uv=False)[:case['n']]
    gram = [np.linalg.svd(x.dot(x.conj().T), compute_uv=False) for x in (X, Z)]
    r = usable_order(case, hankel[hankel > 1e-11 * hankel[0]])
    if r is None or min(g[-1] / g[0] for g in gram) < 1e-6 or hankel[-1] < 1e-5 * hankel[0]:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(r > 1)
    times = [t for k in range(2 * N) for t in (k, k + 1)]
    era = mr.ERA(verbosity=0)
    era_model = era.compute_model(M[times], r)
    bt = mr.balanced_truncation(A, B, C, order=r, return_sing_vals=True)
    k = len(hankel)
    close(era.sing_vals[:k], hankel, 'ERA singular values', 1e-7, scale=hankel[0])
    close(bt[3], hankel, 'balanced truncation singular values', 1e-7, scale=hankel[0])
    same_models(era_model, bt[:3], 20, 'Markov parameters: ERA against balanced truncation', 1e-5)
    if case['cplx']:
        return
    M2 = mr.impulse(bt[0], bt[1], bt[2], 20)
    close(M2, markov(bt[0], bt[1], bt[2], 20), 'impulse response of the balanced system', 1e-9)


def do_okid_era(case, ctx):
    A, B, C = system(case, min(case['radius'], .9))
    n, p, q = case['n'], case['p'], case['q']
    D = gen.rand((q, p), case['seed'] + 4) * case['feed'] * case['scale']
    d = -(-n // min(p, q)) + 1
    num = 2 * d + 4             # Markov parameters, with D
    nt = p * (num * (q + 1) + n + 2) + 2 * (p + q) * num + 10
    r = gen.rng(case['seed'] + 5)
    u, u2 = r.randn(nt, p), r.randn(12, p)

    def outputs(u):
        x, y = np.zeros(n), []
        for k in range(len(u)):
            y.append(C.dot(x) + D.dot(u[k]))
            x = A.dot(x) + B.dot(u[k])
        return np.array(y)

    y, y2 = outputs(u), outputs(u2)
    M = markov(A, B, C, 2 * d)
    H = np.vstack([np.hstack([M[i + j] for j in range(d)]) for i in range(d)])
    sv = np.linalg.svd(H, compute_uv=False)
    O = np.vstack([C.dot(np.linalg.matrix_power(A, k)) for k in range(num)])
    so = np.linalg.svd(O, compute_uv=False)
    if sv[n - 1] < 1e-4 * sv[0] or so[-1] < 1e-3 * so[0]:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(n > 1)
    ctx.label(case['files'] and 'okid: data from files')
    if case['files']:
        loaded = []
        for name, a in (('u', u), ('y', y)):
            path = os.path.join(ctx.scratch(), name + '.txt')
            mr.save_array_text(np.hstack((np.arange(nt)[:, None], a)), path)
            loaded.append(mr.load_multiple_signals([path])[1][0])
        u, y = loaded
    est = mr.OKID(u.T, y.T, num)
    need_shape(est, (num, q, p), 'OKID result')
    model = mr.compute_ERA_model(mr.make_sampled_format(
        np.arange(num - 1), est[1:])[1], n)
    got = mr.lsim(model[0], model[1], model[2], u2) + u2.dot(est[0].T)
    close(got, y2, 'outputs of the identified model', 1e-5,
          scale=max(1e-12, float(np.max(np.abs(y2)))))


def dataset(case, ctx):
    n, m = case['n'], case['m']
    warg, W, R = gen.weights(case['w'], n, case['seed'])
    s = gen.spread(m, .05, 2., case['seed'] + 3) * case['scale']
    U, V = gen.ortho(n, m, case['seed'] + 1, case['cplx']), gen.ortho(
        m, m, case['seed'] + 2, case['cplx'])
    X = np.linalg.solve(R, (U * s).dot(V.conj().T))
    return X, s, warg, W


def pod(case, X, warg, W, r, ctx):
    if case['pod'] == 'handles':
        obj = mr.PODHandles(**decomp.obj_kw(case, W))
        vals, _ = obj.compute_decomp(decomp.handles(X, case, decomp.env_of(ctx, case), 'p'))
        need(len(vals) >= r, 'POD has %d modes instead of %d', len(vals), r)
        return vals, handle_modes(obj.compute_modes, r, len(X)), obj.compute_proj_coeffs()
    f = getattr(mr, 'compute_POD_arrays_%s_method' % case['pod'])
    res = f(X, inner_product_weights=warg)
    return res.eigvals, res.modes[:, :r], res.proj_coeffs


def do_bpod_pod(case, ctx):
    X, s, warg, W = dataset(case, ctx)
    m = case['m']
    ctx.nontrivial(m > 1)
    ctx.label('bpod:' + case['bpod'], 'pod:' + case['pod'])
    if np.any(s[1:] > .9 * s[:-1]):
        ctx.label('close singular values')
        return
    vals, modes, coeffs = pod(case, X, warg, W, m, ctx)
    sv, Phi, Psi, dcoeffs = bpod(case, X, X.copy(), warg, W, m, m, None, ctx)
    close(sv, s ** 2, 'BPOD singular values', 1e-9, scale=s[0] ** 2)
    close(vals, s ** 2, 'POD eigenvalues', 1e-9, scale=s[0] ** 2)
    need_shape(Phi, modes.shape, 'direct modes')
    ph = np.diag(modes.conj().T.dot(W).dot(Phi))
    close(np.abs(ph), np.ones(m), 'products of POD and direct modes', 1e-6)
    close(Phi, modes * ph, 'direct modes against POD modes', 1e-5)
    close(Psi, modes * ph, 'adjoint modes against POD modes', 1e-5)
    close(dcoeffs, coeffs * ph.conj()[:, None], 'coefficients of BPOD against POD', 1e-5,
          scale=s[0])


def do_galerkin_dmd(case, ctx):
    X, s, warg, W = dataset(case, ctx)
    n, m, seed = case['n'], case['m'], case['seed']
    A = (.7 * gen.ortho(n, n, seed + 7, case['cplx']) +
         .4 * gen.rand((n, n), seed + 8, case['cplx']) / n ** .5)
    Y = A.dot(X)
    ok = [r for r in range(1, m + 1) if r == m or s[r] < .9 * s[r - 1]]
    r = ok[-1 - case['order'] % len(ok)]
    vals, modes, _ = pod(case, X, warg, W, r, ctx)
    B, C = gen.rand((n, 2), seed + 9, case['cplx']), gen.rand((3, n), seed + 10, case['cplx'])
    model = galerkin(case, modes, None, warg, W, A.dot(modes), B, C.dot(modes), True, ctx)
    if case['dmd'] == 'handles':
        env = decomp.env_of(ctx, case)
        obj = mr.DMDHandles(**decomp.obj_kw(case, W))
        lam = obj.compute_decomp(decomp.handles(X, case, env, 'dx'),
                                 adv_vec_handles=decomp.handles(Y, case, env, 'dy'),
                                 max_num_eigvals=r)[0]
    else:
        f = getattr(mr, 'compute_DMD_arrays_%s_method' % case['dmd'])
        lam = f(X, adv_vecs=Y, inner_product_weights=warg, max_num_eigvals=r).eigvals
    want = np.linalg.eigvals(model[0])
    evecs = np.linalg.eig(model[0])[1]
    if np.linalg.cond(evecs) > 1e4:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(r > 1)
    ctx.label('pod:' + case['pod'], 'galerkin:' + case['gal'], 'dmd:' + case['dmd'],
              r < m and 'truncated')
    gen.match_spectrum(lam, want, 'DMD eigenvalues against those of the POD-Galerkin model', 1e-6)
    # continuous-time model from time derivatives
    dmodes = mr.compute_derivs_arrays(modes, A.dot(modes), case['dt'])
    cont = galerkin(case, modes, None, warg, W, dmodes, B, C.dot(modes), True, ctx)
    close(cont[0], (model[0] - np.eye(r)) / case['dt'], 'A from time derivatives', 1e-7)
    close(cont[1], model[1], 'B of both models', 1e-9)
    close(cont[2], model[2], 'C of both models', 1e-12)

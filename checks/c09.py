"""C09: BPOD by arrays and handles satisfies its definition."""
import hypothesis.strategies as st
import numpy as np

import gen
import decomp
import vecs
from decomp import rel
from gen import close, exact, need, need_shape
import modred as mr

ID = 'C09'
RULE = ('direct and adjoint impulse responses of generated linear systems with any numbers of '
        'inputs, outputs and steps; non-trivial = at least two components exist and the Hankel '
        'array has more than one block')
ASSUMPTIONS = ['the adjoint data are those of the adjoint system in the weighted inner '
               'product, so the Hankel array has Hankel structure',
               'truncation levels lie between neighbouring singular values at least 5% apart '
               'and above 1e-6 of the largest']


@st.composite
def cases(draw, sizes=st.integers(1, 9), steps=st.integers(1, 6)):
    return dict(
        n=draw(sizes), p=draw(st.integers(1, 3)), q=draw(st.integers(1, 3)),
        sx=draw(steps), sy=draw(steps),
        cplx=draw(st.booleans()), w=draw(st.sampled_from(gen.WEIGHTS)),
        seed=draw(gen.seeds()), decay=draw(st.sampled_from([.95, .7, 1.])),
        scale=draw(st.sampled_from([1., 1., 1e-2, 1e2, 1e-6, 1e-10])),
        yscale=draw(st.sampled_from([1., 1., 1., 1e-6, 1e8])),
        trunc=draw(st.sampled_from(['default', 'atol', 'rtol', 'both', 'none'])),
        cut=draw(st.integers(0, 30)),
        impl=draw(st.sampled_from(['arrays', 'handles'])), aslist=draw(st.booleans()),
        explicit=draw(st.booleans()), defaults=draw(st.booleans()),
        idxkind2=draw(st.sampled_from(decomp.IDX_KINDS)),
        idx2=draw(st.lists(st.integers(0, 30), min_size=1, max_size=6)),
        **{k: draw(v) for k, v in dict(
            decomp.handle_fields(), **decomp.index_fields()).items()})


def strategies(tier):
    k = 2 if tier == 'quick' else 15
    return [('bpod', cases(), 900 * k),
            ('bpod', cases(st.integers(5, 30), st.integers(7, 30)), 15 * k)]


def data(case, R):
    n, seed, c = case['n'], case['seed'], case['cplx']
    r = gen.rng(seed + 11)
    Aw = case['decay'] * (.8 * gen.ortho(n, n, seed, c) +
                          .3 * gen.rand((n, n), seed + 1, c) / n)
    X = [gen.rand((n, case['p']), seed + 2, c) * case['scale']]
    Y = [gen.rand((n, case['q']), seed + 3, c) * case['yscale']]
    for _ in range(case['sx'] - 1):
        X.append(Aw.dot(X[-1]))
    for _ in range(case['sy'] - 1):
        Y.append(Aw.conj().T.dot(Y[-1]))
    return (np.linalg.solve(R, np.hstack(X)), np.linalg.solve(R, np.hstack(Y)))


def truncation(case, s):
    """(tolerance arguments, number kept)."""
    ok = [c for c in range(1, len(s) + 1) if s[c - 1] > 1e-6 * s[0] and
          (c == len(s) or s[c] < .95 * s[c - 1])]
    full = len(s) if s[-1] > 1e-6 * s[0] else None
    kind = case['trunc']
    if kind in ('default', 'none') and full and (kind == 'none' or s[-1] > 1e-12):
        return ({} if kind == 'default' else dict(atol=0., rtol=None)), full
    if not ok:
        return None, None
    c = ok[-1 - case['cut'] % len(ok)]
    nxt = s[c] if c < len(s) else 0.
    lev = (s[c - 1] * max(nxt, 1e-9 * s[0])) ** .5
    if kind == 'rtol' and lev > 1e-12:     # above the default atol
        return dict(rtol=lev / s[0]), c
    if kind == 'both':
        a = .01 if case['cut'] % 2 else 1.
        return dict(atol=lev * a, rtol=lev / s[0] * (.01 / a)), c
    return dict(atol=lev), c


def compute(case, X, Y, warg, W, kw, ctx):
    kw = dict(kw)
    if not (case['defaults'] and case['p'] == case['q'] == 1):
        kw.update(num_inputs=case['p'], num_outputs=case['q'])
    if case['impl'] == 'handles':
        env = decomp.env_of(ctx, case)
        hx = decomp.handles(X, case, env, 'x')
        hy = decomp.handles(Y, case, env, 'y')
        obj = mr.BPODHandles(**decomp.obj_kw(case, W))
        ret = obj.compute_decomp(hx, hy, **kw)
        for a, b in zip(ret, (obj.sing_vals, obj.L_sing_vecs, obj.R_sing_vecs)):
            exact(a, b, 'returned factor')
        k = len(ret[0])
        need(k > 0, 'everything was truncated')
        di = decomp.indices(case, k)[1]
        ai = decomp.indices(case, k, '2')[1]
        kd = dict(direct_vec_handles=hx) if case['explicit'] else {}
        ka = dict(adjoint_vec_handles=hy) if case['explicit'] else {}
        n = case['n']
        res = dict(
            sing_vals=ret[0], L_sing_vecs=ret[1], R_sing_vecs=ret[2],
            Hankel_array=obj.Hankel_array,
            direct_modes=decomp.modes_from(obj.compute_direct_modes, di, n,
                                           case['idxkind'], **kd),
            adjoint_modes=decomp.modes_from(obj.compute_adjoint_modes, ai, n,
                                            case['idxkind2'], **ka),
            direct_proj_coeffs=obj.compute_direct_proj_coeffs(),
            adjoint_proj_coeffs=obj.compute_adjoint_proj_coeffs())
        exact(obj.direct_proj_coeffs, res['direct_proj_coeffs'], 'attribute')
        exact(obj.adjoint_proj_coeffs, res['adjoint_proj_coeffs'], 'attribute')
        vecs.handles_unchanged(hx, X, 'direct vector')
        vecs.handles_unchanged(hy, Y, 'adjoint vector')
        return res, di, ai
    if warg is not None:
        kw['inner_product_weights'] = warg
    dx, dy = (X.tolist(), Y.tolist()) if case['aslist'] else (X, Y)
    X0, Y0 = X.copy(), Y.copy()
    res = mr.compute_BPOD_arrays(dx, dy, **kw)
    k = len(res.sing_vals)
    need(k > 0, 'everything was truncated')
    da, di = decomp.indices(case, k)
    aa, ai = decomp.indices(case, k, '2')
    if da is not None:
        kw['direct_mode_indices'] = da
    if aa is not None:
        kw['adjoint_mode_indices'] = aa
    if da is not None or aa is not None:
        res = mr.compute_BPOD_arrays(dx, dy, **kw)
    exact(X, X0, 'direct data afterwards')
    exact(Y, Y0, 'adjoint data afterwards')
    return res._asdict(), di, ai


def verify(res, di, ai, X, Y, W, H, s, tol):
    k = len(s)
    rel(res['Hankel_array'], H, 'Hankel array (Y^*WX)', 1e-10)
    S, L, Rv = res['sing_vals'], res['L_sing_vecs'], res['R_sing_vecs']
    decomp.descending_positive(S, k, 'singular values')
    rel(S, s, 'singular values', 1e-7)
    need_shape(L, (Y.shape[1], k), 'left singular vectors')
    need_shape(Rv, (X.shape[1], k), 'right singular vectors')
    gen.orthonormal(L, 'Gram array of left singular vectors')
    gen.orthonormal(Rv, 'Gram array of right singular vectors')
    rel(H.dot(Rv), L * S, 'Hankel array times right singular vectors', 1e-8)
    rel(H.conj().T.dot(L), Rv * S, 'adjoint Hankel array times left singular vectors', 1e-8)
    D, A = X.dot(Rv * S ** -.5), Y.dot(L * S ** -.5)
    rel(res['direct_modes'], D[:, di], 'direct modes', tol)
    rel(res['adjoint_modes'], A[:, ai], 'adjoint modes', tol)
    close(np.asarray(res['adjoint_modes']).conj().T.dot(W).dot(res['direct_modes']),
          np.array([[float(i == j) for j in di] for i in ai]),
          'inner products of adjoint and direct modes', tol)
    need_shape(res['direct_proj_coeffs'], (k, X.shape[1]), 'direct coefficients')
    need_shape(res['adjoint_proj_coeffs'], (k, Y.shape[1]), 'adjoint coefficients')
    rel(res['direct_proj_coeffs'], A.conj().T.dot(W).dot(X),
        'direct projection coefficients', tol)
    rel(res['adjoint_proj_coeffs'], D.conj().T.dot(W).dot(Y),
        'adjoint projection coefficients', tol)


def run_case(name, case, ctx):
    warg, W, R = gen.weights(case['w'], case['n'], case['seed'])
    X, Y = data(case, R)
    H = Y.conj().T.dot(W).dot(X)
    s = np.linalg.svd(H, compute_uv=False)
    kw, c = truncation(case, s)
    if c is None:
        ctx.label('no usable truncation level')
        return
    ctx.nontrivial(len(s) > 1 and case['sx'] * case['sy'] > 1)
    ctx.label('impl:' + case['impl'], 'w:' + case['w'], 'trunc:' + ','.join(sorted(kw)),
              case['cplx'] and 'complex', c < len(s) and 'truncated',
              (case['p'] > 1 or case['q'] > 1) and 'several inputs/outputs',
              case['p'] != case['q'] and 'inputs != outputs',
              case['sx'] != case['sy'] and 'steps differ', c == 1 and 'one component',
              case['sx'] == 1 and 'one direct step', case['sy'] == 1 and 'one adjoint step')
    res, di, ai = compute(case, X, Y, warg, W, kw, ctx)
    verify(res, di, ai, X, Y, W, H, s[:c], 1e-8 * max(1., 1e-3 * s[0] / s[c - 1]))

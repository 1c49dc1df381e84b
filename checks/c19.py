"""C19: balanced truncation balances the discrete-time Gramians."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close, need_shape

ID = 'C19'
RULE = ('stable discrete-time systems x orders; Gramians by an independent linear solve; '
        'non-trivial = controllable and observable with at least two states (smallest '
        'Hankel singular value at least 1e-5 of the largest)')
ASSUMPTIONS = ['systems whose Hankel singular values or Gramian eigenvalues (apart from states that '
               'are not excited at all, or not seen at all) range over more '
               'than 1e5 are numerically not minimal and are skipped']


@st.composite
def cases(draw, large=False):
    n = draw(st.integers(7, 20) if large else st.integers(1, 6))
    ends = st.integers(n - 3, n + 3) if large else st.integers(1, 4)
    return dict(n=n, inputs=draw(ends), outputs=draw(ends),
                cplx=draw(st.sampled_from([False, False, True])), seed=draw(gen.seeds()),
                spectrum=draw(st.sampled_from(['real', 'pairs', 'negative', 'zero', 'slow',
                                               'repeated'])),
                scale=draw(st.sampled_from([1., 1., 0.01, 100., 1e-8, 1e-12, 1e8])),
                outscale=draw(st.sampled_from([1., 1., 1., 1e-8, 1e-12, 1e8])),
                idle=draw(st.sampled_from([[0, 0]] * 3 + [[1, 0], [0, 1], [2, 0], [0, 2]])),
                shear=draw(st.sampled_from([0., 0.3, 1.])),
                order=draw(st.one_of(st.none(), st.integers(1, n))),
                return_sv=draw(st.booleans()),
                layout=draw(st.sampled_from(['C', 'F', 'list', 'strided', 'swapped', 'readonly'])))


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('system', cases(), 700 * k), ('system', cases(True), 20 * k)]


def system(case):
    n, cplx, seed = case['n'], case['cplx'], case['seed']
    r = gen.rng(seed)
    lam = r.uniform(0.1, 0.9, n)
    sp = case['spectrum']
    D = np.zeros((n, n), complex if cplx else float)
    if sp == 'pairs':
        i = 0
        while i < n:
            if i + 1 < n:
                th = r.uniform(0.3, 2.8)
                D[i:i + 2, i:i + 2] = lam[i] * np.array(
                    [[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
            else:
                D[i, i] = lam[i]
            i += 2
    else:
        if sp == 'negative':
            lam = lam * r.choice([-1, 1], n)
        elif sp == 'zero':
            lam[0] = 0.
        elif sp == 'slow':
            lam[0] = 0.98
        elif sp == 'repeated':
            lam[:] = lam[0]
            D += np.diag(np.full(n - 1, 0.4), 1)    # one Jordan block
        np.fill_diagonal(D, lam)
        if cplx:
            D = D * np.exp(2j * np.pi * r.rand())
    idle = sum(case['idle'])    # states that are not excited, or not seen
    if idle:
        D = np.block([[D, np.zeros((n, idle))],
                      [np.zeros((idle, n)), np.diag(r.uniform(-.8, .8, idle))]])
    small = n
    n += idle
    T = gen.ortho(n, n, seed + 1, cplx) + case['shear'] * gen.rand(
        (n, n), seed + 2, cplx) / (2 * n)
    A = T.dot(D).dot(np.linalg.inv(T))
    B = gen.rand((n, case['inputs']), seed + 3, cplx) * case['scale']
    C = gen.rand((case['outputs'], n), seed + 4, cplx) * case['outscale']
    if idle:
        B, C = np.linalg.solve(T, B), C.dot(T)
        if case['idle'][0]:
            B[small:] = 0
        else:
            C[:, small:] = 0
        B, C = T.dot(B), np.linalg.solve(T.T, C.T).T
    return A, B, C


def gramian(A, Q):
    """X = A X A^* + Q by a Kronecker linear solve."""
    n = A.shape[0]
    x = np.linalg.solve(np.eye(n * n) - np.kron(A, A.conj()), Q.reshape(-1))
    X = x.reshape(n, n)
    return 0.5 * (X + X.conj().T)


def markovs(A, B, C, num):
    out, x = [], B
    for _ in range(num):
        out.append(C.dot(x))
        x = A.dot(x)
    return np.array(out)


def run_case(name, case, ctx):
    from modred import util
    A, B, C = system(case)
    n = case['n']
    P = gramian(A, B.dot(B.conj().T))
    Q = gramian(A.conj().T, C.conj().T.dot(C))
    ep, eq = np.linalg.eigvalsh(P), np.linalg.eigvalsh(Q)
    hsv = np.sqrt(np.abs(np.linalg.eigvals(P.dot(Q))))
    hsv = np.sort(hsv)[::-1][:n]
    noise = 0.
    if case['idle'][0]:
        noise, ep = np.max(np.abs(ep[:-n])) / ep[-1], ep[-n:]
    elif case['idle'][1]:
        noise, eq = np.max(np.abs(eq[:-n])) / eq[-1], eq[-n:]
    if (max(abs(np.linalg.eigvals(A))) >= 0.995 or ep[0] < 1e-6 * ep[-1]
            or eq[0] < 1e-6 * eq[-1] or hsv[-1] < 1e-5 * hsv[0]
            or noise > 1e-14):
        ctx.label('not minimal (skipped)')
        return
    ctx.nontrivial(n > 1)
    ctx.label('scale:%.0e' % (case['scale'] * case['outscale']))
    ctx.label('spectrum:' + case['spectrum'], 'cplx' if case['cplx'] else 'real',
              'idle:%d,%d' % tuple(case['idle']), 'order:' + ('all' if case['order'] is None else 'given'))
    args = [gen.same_layouts(M, case['layout']) for M in (A, B, C)]
    def call(order, sv=True):
        kw = {} if order is None else dict(order=order)
        if sv:
            kw['return_sing_vals'] = True
        return util.balanced_truncation(*args, **kw)
    full = call(None)
    for arg, M in zip(args, (A, B, C)):
        gen.exact(np.array(arg), M, 'argument after the call')
    Ab, Bb, Cb, E = full
    for got, shape, what in (
            (Ab, (n, n), 'A'), (Bb, (n, B.shape[1]), 'B'), (Cb, (C.shape[0], n), 'C'),
            (E, (n,), 'singular values')):
        need_shape(got, shape, 'balanced ' + what)
    top = hsv[0]
    tol = 1e-6
    close(E, hsv, 'Hankel singular values', tol, scale=top)
    need(np.all(np.diff(E) <= 1e-12 * top), 'singular values not descending: %s', E)
    num = 2 * n + 4
    h = markovs(A, B, C, num)
    hs = max(np.max(np.abs(h)), 1e-3 * top)
    close(markovs(Ab, Bb, Cb, num), h, 'Markov parameters of the balanced system', tol,
          scale=hs)
    # Gramians of the returned system
    close(gramian(Ab, Bb.dot(Bb.conj().T)), np.diag(E), 'controllability Gramian', tol,
          scale=top)
    close(gramian(Ab.conj().T, Cb.conj().T.dot(Cb)), np.diag(E), 'observability Gramian', tol,
          scale=top)
    k = case['order']
    if k is None:
        k = n
    red = call(k, case['return_sv'])
    need(len(red) == (4 if case['return_sv'] else 3), '%d values returned', len(red))
    s = max(1., np.max(np.abs(Ab)))
    close(red[0], Ab[:k, :k], 'A of order %d' % k, 1e-8, scale=s)
    close(red[1], Bb[:k], 'B of order %d' % k, 1e-8, scale=np.max(np.abs(Bb)))
    close(red[2], Cb[:, :k], 'C of order %d' % k, 1e-8, scale=np.max(np.abs(Cb)))
    if case['return_sv']:
        close(red[3], hsv, 'Hankel singular values when truncated', tol, scale=top)
    diff = markovs(*(tuple(red[:3]) + (num,))) - h
    worst = max(np.linalg.norm(d, 2) for d in diff)
    bound = 2 * hsv[k:].sum()
    need(worst <= bound + tol * hs, 'Markov parameter error %.4g above twice the discarded '
         'singular values %.4g', worst, bound)

"""C17: ERA reproduces the Markov parameters of a finite-order system."""
import os

import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close, exact, need_shape
from harness import fail

ID = 'C17'
RULE = ('systems x sampling interval P x Hankel dimensions (default, constructor, call) x '
        'numbers of samples, one object used repeatedly; non-trivial = at least two states '
        'and a well-conditioned Hankel array (smallest used singular value 1e-5 of the largest)')
ASSUMPTIONS = ['mc and mo given together', 'Hankel arrays with used singular values '
               'spread over more than 1e5 are numerically of lower order and are skipped']


@st.composite
def data_sets(draw):
    return dict(n=draw(st.integers(1, 5)), inputs=draw(st.integers(1, 3)),
                outputs=draw(st.integers(1, 3)), seed=draw(gen.seeds()),
                P=draw(st.sampled_from([1, 2, 2, 3, 4])),
                spectrum=draw(st.sampled_from(['real', 'pairs', 'negative', 'unstable'])),
                samples=draw(st.sampled_from(['tight', 'tight odd', 'ample', 'ample odd'])),
                extra=draw(st.one_of(*[st.integers(1, 9)] * 6 + [st.integers(10, 60)])),
                dims=draw(st.sampled_from(['default', 'default', 'call', 'constructor', 'both'])),
                more=[draw(st.one_of(*[st.integers(0, 3)] * 6 + [st.integers(4, 30)]))
                      for _ in range(2)],
                form=draw(st.sampled_from(['array', 'list', 'F', 'squeezed', 'strided'])),
                states=draw(st.sampled_from(['n', 'n', 'fewer'])),
                cplx=draw(st.sampled_from([False, False, True])),
                units=draw(st.sampled_from([[1., 1.], [1., 1.], [1e-7, 1e-7], [1e-14, 1.],
                                            [1., 1e9], [1e-20, 1e3], [1e6, 1e5]])),
                keyword=draw(st.booleans()), impulse=draw(st.booleans()))


@st.composite
def model_cases(draw, most):
    return dict(sets=draw(st.lists(data_sets(), min_size=1, max_size=most)),
                put=draw(st.sampled_from(['memory', 'text'])),
                ctor=[draw(st.integers(0, 3)), draw(st.integers(0, 3))],
                verbosity=draw(st.sampled_from([0, 1])))


@st.composite
def format_cases(draw):
    return dict(steps=draw(st.one_of(*[st.integers(2, 12)] * 6 + [st.integers(13, 400)])), inputs=draw(st.integers(1, 3)),
                outputs=draw(st.integers(1, 3)), seed=draw(gen.seeds()),
                dt=draw(st.sampled_from([1, 1., 0.1, 0.003, 250., 2])),
                t0=draw(st.sampled_from([0, 0., 3., -1.5])),
                bad=draw(st.sampled_from([None, None, None, 'time', 'fewer', 'more', 'tol'])),
                where=draw(st.one_of(st.integers(0, 11), st.integers(0, 399))), form=draw(st.sampled_from(['array', 'list'])),
                jitter=draw(st.booleans()), cplx=draw(st.booleans()))


def strategies(tier):
    k = 2 if tier == 'quick' else 25
    return [('model', model_cases(1), 350 * k), ('model', model_cases(3), 150 * k),
            ('format', format_cases(), 250 * k)]


def system(s):
    n, r = s['n'], gen.rng(s['seed'])
    lam = 0.35 + 0.6 * (np.arange(n) + r.uniform(0.2, 0.8, n)) / n
    D = np.diag(lam)
    if s['spectrum'] == 'pairs':
        for i in range(0, n - 1, 2):
            th = r.uniform(0.3, 1.2) * 2 / s['P']
            D[i:i + 2, i:i + 2] = lam[i + 1] * np.array(
                [[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    elif s['spectrum'] == 'negative' and s['P'] % 2 == 1:
        D[::2] *= -1
    elif s['spectrum'] == 'unstable':
        D[-1, -1] = 1.08
    c = s['cplx']
    if c and s['spectrum'] == 'pairs':      # and their conjugates are no eigenvalues
        D = np.diag(lam * np.exp(1j * r.uniform(.1, .6, n) * 2 / s['P']))
    T = gen.ortho(n, n, s['seed'] + 1, c) + 0.2 * gen.rand((n, n), s['seed'] + 2, c) / n
    A = T.dot(D).dot(np.linalg.inv(T))
    return (A, gen.rand((n, s['inputs']), s['seed'] + 3, c) * s['units'][0],
            gen.rand((s['outputs'], n), s['seed'] + 4, c) * s['units'][1])


def markov(A, B, C, k):
    return C.dot(np.linalg.matrix_power(A, k)).dot(B)


def prepare(s, ctor):
    """Data, Hankel dimensions (or None), kwargs for compute_model."""
    n, m, p = s['n'], s['inputs'], s['outputs']
    A, B, C = system(s)
    least = -(-n // min(m, p))
    mo, mc = least + s['more'][0], least + s['more'][1]
    kw = {}
    if s['dims'] == 'default':
        d = least + (0 if 'tight' in s['samples'] else s['extra'])
        nt = 4 * d + 2
        dims = None
        if 'ample' in s['samples']:
            nt += s['extra'] % 3
    else:
        if s['dims'] == 'constructor':
            mc, mo = least + ctor[0], least + ctor[1]
        else:
            kw = dict(mc=mc, mo=mo)
        dims = (mo, mc)
        nt = 2 * (mo + mc)      # the code wants 2 (mo + mc) - 2 and mo + mc + 2 samples
        nt = max(nt - 2, mo + mc + 2)
        nt += nt % 2
        if 'ample' in s['samples']:
            nt += s['extra']
    if 'odd' in s['samples'] and nt % 2 == 0:
        nt += 1
    times = [P2 + j for P2 in range(0, s['P'] * nt, s['P']) for j in (0, 1)][:nt]
    Y = np.array([markov(A, B, C, k) for k in times])
    return (A, B, C), times, Y, dims, kw


def form(Y, kind):
    if kind == 'list':
        return Y.tolist()
    if kind == 'F':
        return np.asfortranarray(Y)
    if kind == 'strided':
        return gen.same_layouts(Y, 'strided')
    if kind == 'squeezed':      # documented for single inputs and outputs
        if Y.shape[2] == 1:
            Y = Y[:, :, 0]
            if Y.shape[1] == 1:
                Y = Y[:, 0]
    return Y.copy()


def run_case(name, case, ctx):
    import modred as mr
    if name == 'format':
        return run_format(case, ctx, mr)
    d = ctx.scratch()
    store = {}
    def put_memory(a, dest):
        need(dest not in store, 'array put twice to %s', dest)
        store[dest] = np.array(a)
    kw = dict(verbosity=case['verbosity'])
    if case['put'] == 'memory':
        kw['put_array'] = put_memory
    ctor_used = [s for s in case['sets'] if s['dims'] == 'constructor']
    ctor = case['ctor']
    fixed = None
    if ctor_used:
        s = ctor_used[0]        # the constructor's dimensions suit this data set
        least = -(-s['n'] // min(s['inputs'], s['outputs']))
        fixed = (least + ctor[0], least + ctor[1])
        kw.update(mc=fixed[0], mo=fixed[1])
    era = mr.ERA(**kw)
    for num, s in enumerate(case['sets']):
        s = dict(s)
        if fixed is not None:
            if s['dims'] == 'default':
                s['dims'] = 'call'      # the constructor's are the default then
            elif s['dims'] == 'constructor' and s is not ctor_used[0]:
                least = -(-s['n'] // min(s['inputs'], s['outputs']))
                if least > min(fixed):
                    s['dims'] = 'both'
                else:
                    ctor = [fixed[0] - least, fixed[1] - least]
        if s['dims'] == 'both' and fixed is None:
            s['dims'] = 'call'
        one(case, s, num, era, ctor, store, d, ctx, mr)


def one(case, s, num, era, ctor, store, d, ctx, mr):
    from modred import util
    n, m, p = s['n'], s['inputs'], s['outputs']
    (A, B, C), times, Y, dims, kw = prepare(s, ctor)
    nt = len(times)
    ctx.label('P:%d' % s['P'], 'dims:' + s['dims'], 'samples:' + s['samples'],
              'spectrum:' + s['spectrum'], num > 0 and 'reused object', s['cplx'] and 'complex',
              'units:%g,%g' % tuple(s['units']))
    mo, mc = dims if dims else ((nt // 2 * 2 - 2) // 4,) * 2
    def hankel(shift, mo, mc):
        return np.vstack([np.hstack([Y[2 * (i + j) + shift] for j in range(mc)])
                          for i in range(mo)])
    what = 'data set %d' % num
    arg = form(Y, s['form'])
    before = np.array(arg)
    sv = np.linalg.svd(hankel(0, mo, mc), compute_uv=False)
    conditioned = sv[n - 1] > 1e-5 * sv[0]
    k = n if s['states'] == 'n' or n == 1 else max(1, n - 1 - s['seed'] % 2)
    if s['keyword']:
        out = era.compute_model(arg, num_states=k, **kw)
    else:
        out = era.compute_model(arg, k, *([kw['mc'], kw['mo']] if kw else []))
    exact(np.array(arg), before, what + ': Markov parameters after the call')
    need(len(out) == 3, '%d values returned', len(out))
    # Hankel arrays and dimensions
    H, H2 = era.Hankel_array, era.Hankel_array2
    if dims is None:
        need(H.shape[0] % p == 0 and H.shape[1] % m == 0, 'Hankel shape %s', H.shape)
        mo, mc = H.shape[0] // p, H.shape[1] // m
        need(mo == mc and mo >= (nt // 2 * 2 - 2) // 4,
             '%s: default dimensions mo=%d mc=%d for %d samples', what, mo, mc, nt)
    exact(H, hankel(0, mo, mc), what + ': Hankel array')
    exact(H2, hankel(1, mo, mc), what + ': second Hankel array')
    U, S, V = era.L_sing_vecs, era.sing_vals, era.R_sing_vecs
    full = np.linalg.svd(H, compute_uv=False)
    close(S, full[:len(S)], what + ': singular values', 1e-10, scale=full[0])
    gen.orthonormal(U, what + ': left singular vectors')
    gen.orthonormal(V, what + ': right singular vectors')
    close((U * S).dot(V.conj().T), H, what + ': decomposition of the Hankel array', 1e-9,
          scale=full[0])
    if not conditioned:     # perhaps numerically of lower order
        k = min(k, len(S))
    for got, attr, shape in zip(out, 'ABC', ((k, k), (k, m), (p, k))):
        need_shape(got, shape, what + ': ' + attr)
        exact(getattr(era, attr), got, what + ': attribute ' + attr)
    # saved arrays
    names = ['A', 'B', 'C', 's', 'L', 'R', 'H', 'H2', 's2']
    dest = {x: '%s%d' % (x, num) if case['put'] == 'memory' else
            os.path.join(d, '%s%d.txt' % (x, num)) for x in names}
    era.put_model(*[dest[x] for x in 'ABC'])
    era.put_decomp(*[dest[x] for x in ('s', 'L', 'R', 'H', 'H2')])
    era.put_sing_vals(dest['s2'])
    for x, want in zip(names, list(out) + [S, U, V, H, H2, S]):
        got = store[dest[x]] if case['put'] == 'memory' else util.load_array_text(
            dest[x], is_complex=np.iscomplexobj(want))
        if case['put'] == 'text' and np.ndim(want) == 1:
            want = want.reshape(-1, 1)
        exact(got, want, what + ': saved ' + x)
    # the model of a new object and the convenience function are the same
    fresh = mr.ERA(verbosity=0).compute_model(arg, k, mc=mc, mo=mo)
    for a, b, attr in zip(out, fresh, 'ABC'):
        exact(a, b, '%s: %s against a new object' % (what, attr))
    if dims is None:
        for a, b, attr in zip(mr.compute_ERA_model(arg, k), out, 'ABC'):
            exact(a, b, '%s: %s of compute_ERA_model' % (what, attr))
    if not conditioned:
        ctx.label('ill conditioned')
        return
    ctx.nontrivial(n > 1)
    big = mr.ERA(verbosity=0).compute_model(arg, n, mc=mc, mo=mo)
    if k < n:
        ctx.label('fewer states')
        for got, want, attr in zip(out, (big[0][:k, :k], big[1][:k], big[2][:, :k]), 'ABC'):
            close(got, want, '%s: %s of order %d' % (what, attr, k), 1e-8,
                  scale=np.max(np.abs(want)) + (attr == 'A'))
        out = big
    scale = max(1e-3 * np.prod(s['units']), np.max(np.abs(Y)))
    for t in range(times[-1] + 3):
        want = markov(A, B, C, t)
        close(markov(out[0], out[1], out[2], t), want, '%s: Markov parameter %d' % (what, t),
              1e-6, scale=max(scale, np.max(np.abs(want))))


def run_format(case, ctx, mr):
    nt, m, p = case['steps'], case['inputs'], case['outputs']
    r = gen.rng(case['seed'])
    times = case['t0'] + case['dt'] * np.arange(nt)
    Y = gen.rand((nt, p, m), case['seed'] + 1, case['cplx'])
    kw = {}
    if case['jitter']:
        times = times + 3e-8 * r.uniform(-1, 1, nt)     # within the default tolerance
    bad, w = case['bad'], case['where'] % nt
    if bad == 'time':
        if nt < 3:
            bad = None
        else:
            times = times.astype(float)
            times[w] += 0.3 * case['dt']
    elif bad == 'fewer':
        Y = Y[:-1]
    elif bad == 'more':
        times = times[:-1] if nt > 2 else np.append(times, times[-1] + case['dt'])
    elif bad == 'tol' and nt > 2:
        times = times + 1e-3 * case['dt'] * r.uniform(-1, 1, nt)
        kw['dt_tol'] = 1e-2 * case['dt']
    ctx.nontrivial(nt > 2)
    ctx.label('format:%s' % bad)
    args = [times, Y]
    if case['form'] == 'list':
        args = [times.tolist(), Y.tolist()]
    before = [np.array(a) for a in args]
    if bad in ('time', 'fewer', 'more'):
        try:
            mr.make_sampled_format(*args)
        except (ValueError, RuntimeError):
            return
        fail('make_sampled_format accepted %s', {
            'time': 'non-uniform times', 'fewer': 'fewer values than times',
            'more': 'numbers of times and values that differ'}[bad])
    out = mr.make_sampled_format(*args, **kw)
    steps = [0] + [i for i in range(1, nt - 1) for _ in (0, 1)] + [nt - 1]
    exact(out[0], np.array(steps), 'time steps')
    exact(out[1], Y[steps], 'values at the time steps')
    for a, b in zip(args, before):
        exact(np.array(a), b, 'argument after the call')

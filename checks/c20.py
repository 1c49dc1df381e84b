"""C20: simulations and random systems follow the discrete-time definitions."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close, need_shape

ID = 'C20'
RULE = ('systems x inputs x initial conditions against a plain time-stepping loop, random '
        'systems by dimensions and spectrum; non-trivial = at least two states and steps')
ASSUMPTIONS = ['real arrays (the simulations use scipy.signal, which is real)',
               'stable or mildly unstable systems so that rounding stays relative']


@st.composite
def sys_fields(draw):
    size = st.one_of(*[st.integers(1, 4)] * 9 + [st.integers(5, 12)])
    return dict(n=draw(st.one_of(*[st.integers(1, 6)] * 9 + [st.integers(7, 30)])),
                inputs=draw(size), outputs=draw(size), seed=draw(gen.seeds()),
                radius=draw(st.sampled_from([0., 0.01, 0.5, 0.95, 1., 1.1])),
                kind=draw(st.sampled_from(['normal', 'normal', 'int', 'int', 'positive'])),
                layout=draw(st.sampled_from(['C', 'F', 'list', 'strided', 'swapped', 'readonly'])),
                units=draw(st.sampled_from([[0, 0]] * 3 + [[-40, 0], [0, -40], [60, 30],
                                                           [-100, 100], [-50, -50]])))


@st.composite
def lsim_cases(draw):
    return dict(draw(sys_fields()), steps=draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([60, 400]))),
                ic=draw(st.sampled_from([None, 'random', 'zero', 'list', 'int'])),
                u=draw(st.sampled_from(['random', 'impulse', 'step', 'int', '1d'])),
                u_layout=draw(st.sampled_from(['C', 'F', 'list', 'strided', 'swapped', 'readonly'])))


@st.composite
def impulse_cases(draw):
    return dict(draw(sys_fields()), steps=draw(st.one_of(
        st.none(), st.integers(1, 12), st.sampled_from([50, 150, 300]))))


@st.composite
def random_cases(draw):
    return dict(func=draw(st.sampled_from(['drss', 'rss'])), n=draw(st.one_of(st.integers(1, 8), st.integers(9, 20))),
                inputs=draw(st.integers(1, 4)), outputs=draw(st.integers(1, 4)),
                seed=draw(gen.seeds()))


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('lsim', lsim_cases(), 400 * k), ('impulse', impulse_cases(), 300 * k),
            ('random', random_cases(), 300 * k)]


def system(case):
    n = case['n']
    A = gen.rand((n, n), case['seed'])
    rad = max(abs(np.linalg.eigvals(A)))
    if case['kind'] == 'positive':
        # no cancellation: even the smallest entries are accurate
        A = abs(A)
        A *= case['radius'] / max(abs(np.linalg.eigvals(A)))
        return (A, abs(gen.rand((n, case['inputs']), case['seed'] + 1)),
                abs(gen.rand((case['outputs'], n), case['seed'] + 2)))
    A = A * (case['radius'] / rad)
    B = gen.rand((n, case['inputs']), case['seed'] + 1, kind=case['kind'])
    C = gen.rand((case['outputs'], n), case['seed'] + 2, kind=case['kind'])
    return A, B, C


def relative(out, want):
    bad = ~(abs(out - want) <= 1e-9 * want + 1e-290)
    need(not np.any(bad), 'entries of a nonnegative system: %s instead of %s',
         out[bad][:3], want[bad][:3])


def run_case(name, case, ctx):
    from modred import util
    n, m, p = case['n'], case['inputs'], case['outputs']
    if name == 'random':
        np.random.seed(case['seed'])
        A, B, C = getattr(util, case['func'])(n, m, p)
        after = np.random.rand()
        for k in (1, 2, 3):
            # the numbers that follow are as random as before
            np.random.seed(case['seed'] + k)
            getattr(util, case['func'])(n, m, p)
            need(np.random.rand() != after, 'random numbers after %s do not depend on those '
                 'before', case['func'])
        need_shape(A, (n, n), 'A')
        need_shape(B, (n, m), 'B')
        need_shape(C, (p, n), 'C')
        for M in (A, B, C):
            need(not np.iscomplexobj(M) and np.all(np.isfinite(M)), 'not real and finite')
            need(np.any(M), 'an array of zeros')
        lam, V = np.linalg.eig(A)
        slack = 1e-13 * np.linalg.cond(V) * max(1., np.linalg.norm(A, 2))
        ctx.label(case['func'])
        if slack > 1e-3:
            ctx.label('ill conditioned (spectrum not checked)')
            return
        ctx.nontrivial(n > 1)
        need(np.max(np.abs(lam.imag)) <= slack ** 0.5, 'eigenvalues not real: %s', lam)
        if case['func'] == 'drss':
            need(np.max(np.abs(lam)) < 1 + slack, 'eigenvalues not stable: %s', lam)
        else:
            need(np.max(lam.real) < slack, 'eigenvalues not stable: %s', lam)
        return
    A, B, C = system(case)
    # units of the input (B, and the state with it) and the output: powers of two, so that
    # results are scaled exactly
    ub, uc = [2. ** k for k in case['units']]
    sent = (A, B * ub, C * uc)
    args = [gen.same_layouts(M, case['layout']) for M in sent]
    ctx.label('units:%s' % case['units'])
    steps = case['steps']
    ctx.nontrivial(n > 1 and steps != 1)
    ctx.label('radius:%g' % case['radius'], 'layout:' + case['layout'])
    if name == 'impulse':
        out = (util.impulse(*args) if steps is None else
               util.impulse(*args, num_time_steps=steps))
        if steps is None:
            steps = len(out)
            need(steps > 1, 'default impulse response has %d steps', steps)
        out = np.asarray(out) / (ub * uc)
        want, x = np.zeros((steps, p, m)), B
        for k in range(steps):
            want[k] = C.dot(x)
            x = A.dot(x)
        if case['kind'] == 'positive':
            relative(out, want)
        scales = np.maximum(1., [np.max(np.abs(w)) for w in want])
        need_shape(out, want.shape, 'impulse response')
        close(out / scales[:, None, None], want / scales[:, None, None], 'impulse response',
              1e-9, scale=10.)
    else:
        shape = (steps, m)
        u = gen.rand(shape, case['seed'] + 3, kind='int' if case['u'] == 'int' else 'normal')
        if case['u'] == 'impulse':
            u[1:] = 0
        elif case['u'] == 'step':
            u[:] = u[0]
        if case['kind'] == 'positive':
            u = abs(u)
        uarg = gen.same_layouts(u, case['u_layout'])
        if case['u'] == 'int':
            uarg = np.array(u, dtype=int)
        elif case['u'] == '1d' and m == 1:
            uarg = u[:, 0].copy()
            ctx.label('1D inputs')
        ubefore = np.array(uarg)
        x0 = gen.rand((n,), case['seed'] + 4, kind='int' if case['ic'] == 'int' else 'normal')
        if case['kind'] == 'positive':
            x0 = abs(x0)
        kw = {}
        if case['ic'] is None:
            x0 = np.zeros(n)
        else:
            if case['ic'] == 'zero':
                x0 = np.zeros(n)
            # integers cannot be scaled: the inputs are, then
            xs = x0 if case['ic'] == 'int' else x0 * ub
            kw['initial_condition'] = (xs.tolist() if case['ic'] == 'list' else
                                       xs.astype(int) if case['ic'] == 'int' else xs.copy())
            if case['ic'] == 'int':
                args[1] = gen.same_layouts(B, case['layout'])
                sent = (A, B, C * uc)
                ub = 1.
        ctx.label('ic:%s' % case['ic'], 'u:' + case['u'])
        out = np.asarray(util.lsim(*(args + [uarg]), **kw)) / (ub * uc)
        want, x = np.zeros((steps, p)), x0
        size = max(1., np.max(np.abs(x0)), np.max(np.abs(u)))
        for k in range(steps):
            want[k] = C.dot(x)
            x = A.dot(x) + B.dot(u[k])
            size = max(size, np.max(np.abs(x)))
        need_shape(out, want.shape, 'outputs')
        if case['kind'] == 'positive':
            relative(out, want)
        close(out, want, 'outputs', 1e-10, scale=10 * size)
        gen.exact(np.array(uarg), ubefore, 'inputs after the call')
        if kw:
            gen.exact(np.array(kw['initial_condition']), xs, 'initial condition after the call')
    for arg, M in zip(args, sent):
        gen.exact(np.array(arg), M, 'argument after the call')

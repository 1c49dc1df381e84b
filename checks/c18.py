"""C18: OKID recovers the Markov parameters from noise-free input-output data."""
import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, close, exact, need_shape
from harness import fail

ID = 'C18'
RULE = ('systems x random input signals (with or without a zero tail) x numbers of parameters; '
        'non-trivial = at least two states and parameters')
ASSUMPTIONS = ['the system is observable within the requested number of parameters '
               'and the inputs are long enough for the data to determine the parameters',
               'inputs start with random samples (a zero input determines nothing)']


@st.composite
def cases(draw, large=False):
    size = st.integers(2, 6) if large else st.integers(1, 3)
    return dict(n=draw(st.integers(5, 12) if large else st.integers(0, 4)),
                inputs=draw(size), outputs=draw(size), seed=draw(gen.seeds()),
                more=draw(st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(6, 20))), D=draw(st.booleans()),
                spectrum=draw(st.sampled_from(['real', 'pairs', 'slow'])),
                u=draw(st.sampled_from(['normal', 'tail', 'int', 'binary', 'delayed', 'burst', 'burst'])),
                scale=draw(st.sampled_from([1., 1., 1e-3, 1e3, 1e-5])),
                both=draw(st.sampled_from([1., 1., 1e-9, 1e9])),
                extra=draw(st.integers(0, 30)),
                form=draw(st.sampled_from(['array', 'list', 'F', 'strided', '1d'])),
                bad=draw(st.sampled_from([0] * 6 + [-1, 1])),
                cplx=draw(st.sampled_from([None] * 4 + ['system', 'inputs', 'both'])))


def strategies(tier):
    k = 3 if tier == 'quick' else 25
    return [('system', cases(), 450 * k), ('system', cases(True), 12 * k)]


def run_case(name, case, ctx):
    import modred as mr
    n, m, p, seed = case['n'], case['inputs'], case['outputs'], case['seed']
    if not n:
        case = dict(case, scale=min(case['scale'], case['scale'] ** 3))
    r = gen.rng(seed)
    lam = (np.arange(n) + r.uniform(0.2, 0.9, n)) / max(n, 1) * 0.8
    if case['spectrum'] == 'slow' and n:
        lam[-1] = 0.97
    D0 = np.diag(lam)
    if case['spectrum'] == 'pairs':
        for i in range(0, n - 1, 2):
            th = r.uniform(0.3, 1.5)
            D0[i:i + 2, i:i + 2] = lam[i + 1] * np.array(
                [[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    c = case['cplx'] in ('system', 'both')
    if c and case['spectrum'] == 'pairs':
        D0 = np.diag(lam * np.exp(1j * r.uniform(-2, 2, n)))
    if n:
        T = gen.ortho(n, n, seed + 1, c) + 0.2 * gen.rand((n, n), seed + 2, c) / n
        A = T.dot(D0).dot(np.linalg.inv(T))
    else:
        A = np.zeros((0, 0))
    B, C = gen.rand((n, m), seed + 3, c), gen.rand((p, n), seed + 4, c) * case['scale']
    D = gen.rand((p, m), seed + 5, c) * case['D'] * case['scale']
    M = max(1, -(-n // p)) + case['more']
    nt = m * (M * (p + 1) + n + 2) + 2 * (m + p) * M + 10 + case['extra']
    u = {'int': lambda: r.randint(-5, 6, (m, nt)), 'binary': lambda: r.choice([-1., 1.], (m, nt)),
         }.get(case['u'], lambda: r.randn(m, nt))()
    if case['cplx'] in ('inputs', 'both'):
        u = u * np.exp(1j * r.uniform(0, 6.3, u.shape))
    if case['u'] == 'tail':
        u = np.hstack((u, np.zeros((m, nt // 2))))
    elif case['u'] == 'delayed':
        u[:, :3] = 0
    elif case['u'] == 'burst':
        # The response to a short burst, seen long enough, determines the parameters if no
        # combination of up to M + n + 1 shifts of the inputs vanishes.
        u = np.hstack((u[:, :1 if m == 1 and case['extra'] % 2 else
                         m * (M + n + 1) + case['extra'] % 3], np.zeros((m, nt))))
    u = u * case['both']
    y = np.zeros((p, u.shape[1]), dtype=complex if case['cplx'] else float)
    x = np.zeros(n)
    for k in range(u.shape[1]):
        y[:, k] = C.dot(x) + D.dot(u[:, k])
        x = A.dot(x) + B.dot(u[:, k])
    want = np.array([D] + [C.dot(np.linalg.matrix_power(A, k)).dot(B) for k in range(M - 1)])
    if n:
        O = np.vstack([C.dot(np.linalg.matrix_power(A, k)) for k in range(M)])
        sv = np.linalg.svd(O, compute_uv=False)
        if sv[-1] < 1e-4 * sv[0] or len(sv) < n:
            ctx.label('not observable (skipped)')
            return
    def conv(a):
        if case['form'] == 'list':
            return a.tolist()
        if case['form'] == '1d' and len(a) == 1:
            ctx.label('1D signal')
            return a[0].copy()
        return gen.same_layouts(a, {'F': 'F', 'strided': 'strided'}.get(case['form'], 'C'))
    ctx.nontrivial(n > 1 and M > 1)
    ctx.label('scale:%g' % case['scale'], 'u:' + case['u'], 'complex: %s' % case['cplx'], 'inputs:%d' % m, 'outputs:%d' % p,
              'feedthrough' if case['D'] else 'no feedthrough')
    if case['bad']:
        ctx.label('mismatched')
        cut = 1 + case['extra'] % 3
        a = [u, y]
        a[case['bad'] > 0] = a[case['bad'] > 0][:, :-cut]
        try:
            mr.OKID(conv(a[0]), conv(a[1]), M)
        except ValueError:
            return
        fail('OKID accepted %d and %d samples', a[0].shape[1], a[1].shape[1])
    args = [conv(u), conv(y)]
    out = mr.OKID(args[0], args[1], M)
    need_shape(out, (M, p, m), 'Markov parameters')
    close(out / case['scale'], want / case['scale'], 'Markov parameters', 1e-7)
    for a, b in zip(args, (u, y)):
        exact(np.array(a).reshape(b.shape), b, 'signals after the call')

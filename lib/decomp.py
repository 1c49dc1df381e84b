"""Data sets with known spectra and uniform access to the implementations of
the modal decompositions (arrays by two methods, handles)."""
import hypothesis.strategies as st
import numpy as np

import gen
import scen
import vecs
from gen import close, need, need_shape
from harness import fail
import modred as mr

IDX_KINDS = ['none', 'none', 'list', 'array', 'range', 'perm']


class MemSink(object):
    """Mode handle keeping a copy of what is put."""
    def __init__(self):
        self.value, self.puts = None, 0

    def put(self, vec):
        self.value = vecs.value_of(vec).copy()
        self.puts += 1

    def get(self):
        fail('a mode handle was read')


def handle_fields():
    return dict(
        vt=st.sampled_from(['nd1', 'nd2', 'plain']),
        ht=st.sampled_from(['mem', 'copy', 'copy', 'pickle', 'based']),
        max_vecs=st.sampled_from([None, None, 2, 3, 5, 100]))


def index_fields():
    return dict(idxkind=st.sampled_from(IDX_KINDS),
                idx=st.lists(st.integers(0, 30), min_size=1, max_size=6))


def indices(case, k, key=''):
    """(argument, list of indices) for k components."""
    kind, raw = case['idxkind' + key], [i % k for i in case['idx' + key]]
    if kind == 'none':
        return None, list(range(k))
    if kind == 'list':
        return list(raw), raw
    if kind == 'array':
        return np.array(raw), raw
    if kind == 'range':
        b = 1 + raw[0]
        return range(b), list(range(b))
    perm = [int(i) for i in gen.rng(case['seed'] + 5).permutation(k)]
    return perm, perm


def lowrank(n, m, r, d, cplx, R, seed, scale=1., ties=False, hi=3., lo=.3):
    """n x m array with r weighted singular values in [lo, hi] * scale and d of
    about 1e-6 * scale; returns (X, U, s, V) of the large ones with
    R X = U diag(s) V^* + small."""
    U = gen.ortho(n, r + d, seed + 1, cplx)
    V = gen.ortho(m, r + d, seed + 2, cplx)
    s = gen.spread(r, lo, hi, seed + 3)
    if ties and r > 1:
        s[:] = s[0] if ties == 'all' else s
        s[r // 2] = s[r // 2 - 1]
    s = s * scale
    small = scale * 1e-6 * (1 + gen.rng(seed + 4).rand(d))
    Xw = (U * np.concatenate([s, small])).dot(V.conj().T)
    return np.linalg.solve(R, Xw), U[:, :r], s, V[:, :r]


def gap_level(case, scale):
    """Tolerance arguments lying in the gap between large and small values both
    for singular values and for eigenvalues (their squares); for small data, which
    is not given to direct methods, only for the latter."""
    f = 0.2 + 0.6 * case['level']
    lo = max(1e-5 * scale, 1e-10 * scale ** 2)
    hi = min(.25 * scale, .06 * scale ** 2)
    if scale < 5e-3:
        lo = 1e-10 * scale ** 2
    atol = float(np.exp(np.log(lo) * (1 - f) + np.log(hi) * f))
    rtol = float(10 ** (-4 + 1.5 * case['level']))
    # the default atol is absolute
    only_r = dict(rtol=rtol) if scale > 1e-4 else dict(rtol=rtol, atol=0.)
    return {'atol': dict(atol=atol), 'rtol': only_r,
            'both': dict(atol=atol, rtol=rtol),
            'loose_atol': dict(atol=lo * 1e-9, rtol=rtol),
            'loose_rtol': dict(atol=atol, rtol=1e-15)}[case['trunc']]


def ip_of(W):
    return vecs.WeightedIP(W)


def obj_kw(case, W, **kw):
    d = dict(inner_product=ip_of(W), max_vecs_per_node=case['max_vecs'],
             verbosity=0)
    d.update(kw)
    return d


def handles(X, case, env, name):
    vt = case['vt'] if not (case['vt'] == 'nd2' and X.shape[0] % 2) else 'nd1'
    return vecs.make_handles(X, vt, case['ht'], env, name)


def env_of(ctx, case):
    return scen.Env(0, 1, ctx.scratch(), {})


def modes_from(method, idx, n, kind='list', **kw):
    """Calls a compute_..._modes method; returns the modes as columns."""
    sinks = [MemSink() for _ in idx]
    arg = np.array(idx) if kind == 'array' else list(idx)
    if kind == 'range' and idx == list(range(len(idx))):
        arg = range(len(idx))
    method(arg, sinks, **kw)
    for i, s in enumerate(sinks):
        need(s.puts == 1, 'mode handle %d received %d puts', i, s.puts)
        need(s.value.size == n, 'mode %d has %d entries, not %d',
             i, s.value.size, n)
    return np.array([s.value.ravel() for s in sinks]).T


def descending_positive(v, k, what):
    need_shape(v, (k,), what)
    v = np.asarray(v)
    need(not np.iscomplexobj(v), '%s are complex', what)
    need(np.all(v > 0), '%s are not positive: %s', what, v)
    need(np.all(np.diff(v) <= 1e-12 * v[0]), '%s are not descending: %s', what, v)


def rel(a, b, what, tol):
    """Close relative to the size of b."""
    b = np.asarray(b)
    scale = float(np.max(np.abs(b))) if b.size else 1.
    close(a, b, what, tol, scale=scale or 1.)

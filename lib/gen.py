"""Strategies of plain-data case descriptions and the arrays built from them.

Bulk numbers come from numpy generators seeded by integers drawn by Hypothesis
(part of the case, so everything replays and shrinks from the case alone).
"""
import numpy as np
import hypothesis.strategies as st

from harness import fail


def seeds():
    return st.integers(0, 10 ** 6)


def rng(seed):
    return np.random.RandomState(seed % (2 ** 31))


def rand(shape, seed, cplx=False, kind='normal'):
    """Array of given kind: 'normal', 'int' (small integers as floats, many
    zeros), 'posint'."""
    r = rng(seed)
    def one():
        if kind == 'normal':
            return r.randn(*shape)
        if kind == 'int':
            return r.randint(-3, 4, size=shape).astype(float)
        if kind == 'posint':
            return r.randint(1, 5, size=shape).astype(float)
        raise ValueError(kind)
    a = one()
    if cplx:
        a = a + 1j * one()
    return a


def ortho(n, k, seed, cplx=False):
    """n x k array with orthonormal columns (k <= n)."""
    q, r = np.linalg.qr(rand((n, k), seed, cplx))
    return q * (np.sign(np.real(np.diag(r))) + (np.real(np.diag(r)) == 0))


def spread(k, lo, hi, seed):
    """k positive values between lo and hi, descending, with relative gaps."""
    if k == 1:
        return np.array([hi])
    base = np.exp(np.linspace(np.log(hi), np.log(lo), k))
    jit = 1 + 0.2 * (hi / lo) ** (-1.0 / (k - 1)) * (rng(seed).rand(k) - .5)
    return np.sort(base * jit)[::-1]


WEIGHTS = ['none', '1d', '2d', '2dc']


def weights(kind, n, seed):
    """(weights argument, full Hermitian W, R with W = R^* R)."""
    if kind == 'none':
        return None, np.eye(n), np.eye(n)
    r = rng(seed + 17)
    w = np.exp(r.uniform(-1, 1, n))
    if kind == '1d':
        return w, np.diag(w), np.diag(w ** 0.5)
    q = ortho(n, n, seed + 29, cplx=(kind == '2dc'))
    W = (q * w).dot(q.conj().T)
    W = 0.5 * (W + W.conj().T)
    R = np.linalg.cholesky(W).conj().T
    return W, W, R


def same_layouts(a, layout):
    """Same values in another memory layout."""
    if layout == 'C':
        return np.ascontiguousarray(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        big = np.full((2 * a.shape[0] + 1,) + tuple(2 * s + 1 for s in a.shape[1:]),
                      7, dtype=a.dtype)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == 'reversed':
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[rev])[rev]
    if layout == 'list':
        return a.tolist()
    if layout == 'swapped':         # the other byte order
        return a.astype(a.dtype.newbyteorder())
    if layout == 'readonly':
        a = np.array(a)
        a.flags.writeable = False
        return a
    raise ValueError(layout)


# ---------------------------------------------------------------- assertions
def need(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def need_shape(a, shape, what):
    s = np.shape(a)
    if tuple(s) != tuple(shape):
        fail('%s has shape %s, expected %s', what, s, tuple(shape))


def close(a, b, what, tol=1e-8, scale=None):
    """|a - b| <= tol * scale elementwise; scale defaults to max(1, |b|)."""
    a = np.asarray(a)
    b = np.asarray(b)
    need_shape(a, b.shape, what)
    if a.dtype == object:
        fail('%s has dtype object', what)
    if b.size == 0:
        return
    if not np.all(np.isfinite(a)):
        fail('%s is not finite: %s', what, _txt(a))
    if scale is None:
        scale = max(1., float(np.max(np.abs(b))))
    d = np.max(np.abs(a - b))
    if not d <= tol * scale:
        fail('%s differs from its definition by %.3g (tolerance %.3g): '
             'got %s expected %s', what, d, tol * scale, _txt(a), _txt(b))


def exact(a, b, what):
    a = np.asarray(a)
    b = np.asarray(b)
    need_shape(a, b.shape, what)
    if not np.array_equal(a, b):
        fail('%s: got %s expected exactly %s', what, _txt(a), _txt(b))


def _txt(a):
    return np.array2string(np.asarray(a), threshold=40, precision=6)


def match_spectrum(got, want, what, tol=1e-7):
    """Same multiset of numbers up to tol (greedy nearest match)."""
    got = np.asarray(got)
    want = np.asarray(want)
    need_shape(got, want.shape, what)
    if not np.all(np.isfinite(got)):
        fail('%s not finite: %s', what, _txt(got))
    left = list(want)
    scale = max(1., float(np.max(np.abs(want))) if want.size else 1.)
    for g in got:
        k = int(np.argmin([abs(g - w) for w in left]))
        if abs(g - left[k]) > tol * scale:
            fail('%s: got %s expected %s', what, _txt(got), _txt(want))
        left.pop(k)


def orthonormal(m, what, W=None, tol=1e-8):
    m = np.asarray(m)
    g = m.conj().T.dot(m if W is None else W.dot(m))
    close(g, np.eye(m.shape[1]), what, tol)


@st.composite
def index_lists(draw, n, allow_none=True, unique=False):
    """Descriptions of mode index lists for n modes."""
    opts = ['list', 'range', 'perm', 'one']
    if allow_none:
        opts.append('none')
    kind = draw(st.sampled_from(opts))
    if kind == 'none':
        return None
    if kind == 'range':
        return list(range(draw(st.integers(1, n))))
    if kind == 'perm':
        return draw(st.permutations(list(range(n))))
    if kind == 'one':
        return [draw(st.integers(0, n - 1))]
    return draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1,
                         unique=unique))

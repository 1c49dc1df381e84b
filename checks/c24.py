"""C24: no side effects, no dependence on layout, reused objects are like new."""
import hypothesis.strategies as st
import numpy as np

import decomp
import dmdlib
import gen
import scen
import vecs
from decomp import MemSink, rel
from gen import close, exact, need, need_shape
from harness import fail
import modred as mr
from modred import util
from modred.vectorspace import VectorSpaceArrays, VectorSpaceHandles

ID = 'C24'
RULE = ('arrays: every array function x argument layouts (contiguous, Fortran, strided, reversed, '
        'lists, integer types), called twice; histories: generated sequences of public calls on two '
        'interleaved objects, each step compared with a new object; missing data: calls without '
        'the data they need. Non-trivial = arguments in a layout other than C, or a history of '
        'at least three successful steps')
ASSUMPTIONS = ['layouts change rounding only: compared to 1e-7 on well-conditioned generated data, '
               'columns (or rows) of eigenvector-like results up to a factor of modulus one',
               'the vectors given to VectorSpaceArrays methods are arrays, not lists',
               'get_decomp into an object that already computed another decomposition is not covered']

# --------------------------------------------------------------- array functions
# name -> function (case, rng-like seed) giving (call, args dict of arrays, how)
# how: result fields compared 'same' (directly), 'cols' / 'rows' (phases free)
LAYOUTS = ['F', 'strided', 'reversed', 'list', 'C', 'swapped', 'readonly']
ARRAY_FUNS = ['pod_snaps', 'pod_direct', 'bpod', 'dmd_snaps', 'dmd_direct', 'tls_snaps',
              'tls_direct', 'ip', 'symm', 'lin', 'galerkin', 'derivs', 'eigh', 'svd', 'eig',
              'Hankel', 'chunks', 'baltrunc', 'lsim', 'impulse', 'era', 'ERA', 'okid', 'format']


@st.composite
def array_cases(draw):
    return dict(fun=draw(st.sampled_from(ARRAY_FUNS)), n=draw(st.integers(5, 8)),
                m=draw(st.integers(2, 4)), seed=draw(gen.seeds()), cplx=draw(st.booleans()),
                w=draw(st.sampled_from(gen.WEIGHTS)), idx=draw(st.sampled_from(['none', 'list', 'array'])),
                ints=draw(st.booleans()), paired=draw(st.booleans()),
                layouts=draw(st.lists(st.sampled_from(LAYOUTS), min_size=6, max_size=6)),
                opt=draw(st.booleans()))


def fields(res, **how):
    """Results of a namedtuple; `how` gives the comparison of each field."""
    return [(k, getattr(res, k), how.get(k, 'same')) for k in res._fields]


def tall(n, m, seed, cplx, ints):
    """Well-conditioned n x m data with distinct singular values."""
    s = gen.spread(m, 1., 6., seed + 3)
    X = (gen.ortho(n, m, seed + 1, cplx) * s).dot(gen.ortho(m, m, seed + 2, cplx).conj().T)
    if not ints:
        return X
    X = np.rint(X * 30)
    return X if cplx else X.astype(int)


def build(case):
    """(call taking keyword arrays, dict of arrays) for the case."""
    n, m, seed, c, ints = (case[k] for k in ('n', 'm', 'seed', 'cplx', 'ints'))
    f = case['fun']
    idx = {'none': None, 'list': [1, 0, 1], 'array': np.array([1, 0])}[case['idx']]
    kw = {} if idx is None else dict(mode_indices=idx)
    W = gen.weights(case['w'], n, seed + 9)[0]
    W = {} if W is None else dict(inner_product_weights=W)
    if f.startswith('pod'):
        fun = mr.compute_POD_arrays_snaps_method if f == 'pod_snaps' else \
            mr.compute_POD_arrays_direct_method
        return (lambda vecs, **k: fields(
            fun(vecs, **dict(kw, **k)), modes='cols', eigvecs='cols', proj_coeffs='rows')), \
            dict(W, vecs=tall(n, m, seed, c, ints))
    if f == 'bpod':
        return (lambda x, y, **k: fields(
            mr.compute_BPOD_arrays(x, y, **dict(
                {} if idx is None else dict(direct_mode_indices=idx, adjoint_mode_indices=idx),
                atol=1e-9, **k)),
            direct_modes='cols', adjoint_modes='cols', L_sing_vecs='cols', R_sing_vecs='cols',
            direct_proj_coeffs='rows', adjoint_proj_coeffs='rows')), \
            dict(W, x=tall(n, m, seed, c, ints), y=tall(n, m, seed + 50, c, ints))
    if f[:3] in ('dmd', 'tls'):
        fun = {'dmd_snaps': mr.compute_DMD_arrays_snaps_method,
               'dmd_direct': mr.compute_DMD_arrays_direct_method,
               'tls_snaps': mr.compute_TLSqrDMD_arrays_snaps_method,
               'tls_direct': mr.compute_TLSqrDMD_arrays_direct_method}[f]
        X = tall(n, m, seed, c, ints)
        A, _ = dmdlib.separated(n, seed + 70, c)
        Y = A.dot(X)
        if ints:
            Y = np.rint(Y) if c else np.rint(Y).astype(int)
        if case['paired']:
            args = dict(W, vecs=X, adv_vecs=Y)
        else:
            args = dict(W, vecs=np.hstack([X, Y[:, -1:]]))
        if f[:3] == 'tls':
            kw['max_num_eigvals'] = m
        how = dict(exact_modes='cols', proj_modes='cols', adjoint_modes='cols',
                   R_low_order_eigvecs='cols', L_low_order_eigvecs='cols',
                   proj_coeffs='rows', adv_proj_coeffs='rows')
        for p in ('', 'sum_', 'proj_'):
            how[p + 'correlation_array_eigvecs'] = 'cols'
        return lambda **k: fields(fun(**dict(kw, **k)), **how), args
    R = lambda shape, k: gen.rand(shape, seed + k, c, 'int' if ints else 'normal')
    if ints and not c:
        R0, R = R, lambda shape, k: R0(shape, k).astype(int)
    if f in ('ip', 'symm'):
        w = gen.weights(case['w'], n, seed + 9)[0]
        w = {} if w is None else dict(weights=w)
        if f == 'ip':
            return lambda x, y, weights=None: [('array', VectorSpaceArrays(
                weights=weights).compute_inner_product_array(x, y), 'same')], \
                dict(w, x=R((n, m), 1), y=R((n, m + 1), 2))
        return lambda x, weights=None: [('array', VectorSpaceArrays(
            weights=weights).compute_symm_inner_product_array(x), 'same')], dict(w, x=R((n, m), 1))
    if f == 'lin':
        return lambda x, coeffs: [('sums', VectorSpaceArrays().lin_combine(
            x, coeffs, coeff_array_col_indices=idx), 'same')], \
            dict(x=R((n, m), 1), coeffs=R((m, 3), 2))
    if f == 'galerkin':
        kwg = dict(is_basis_orthonormal=case['opt'])
        def call(basis, adj, AX, B, CX, **k):
            g = mr.LTIGalerkinProjectionArrays(basis, adjoint_basis_vecs=adj, **dict(kwg, **k))
            return [(nm, v, 'same') for nm, v in zip('ABC', g.compute_model(AX, B, CX))]
        return call, dict(W, basis=tall(n, m, seed, c, False), adj=tall(n, m, seed, c, False) +
                          .1 * tall(n, m, seed + 4, c, False),
                          AX=R((n, m), 1), B=R((n, 2), 2), CX=R((2, m), 3))
    if f == 'derivs':
        return lambda x, y: [('derivs', mr.compute_derivs_arrays(x, y, .1), 'same')], \
            dict(x=R((n, m), 1), y=R((n, m), 2))
    if f == 'eigh':
        X = tall(n, m, seed, c, ints)
        return lambda array: [(nm, v, h) for nm, v, h in zip(
            ['eigvals', 'eigvecs'], util.eigh(array, is_positive_definite=case['opt']),
            ['same', 'cols'])], dict(array=X.conj().T.dot(X))
    if f == 'svd':
        return lambda array: [(nm, v, h) for nm, v, h in zip(
            'USV', util.svd(array), ['cols', 'same', 'cols'])], dict(array=tall(n, m, seed, c, ints))
    if f == 'eig':
        A = dmdlib.separated(m, seed, c)[0]
        return lambda array: [(nm, v, h) for nm, v, h in zip(
            ['eigvals', 'R', 'L'], util.eig_biorthog(
                array, scale_choice='left' if case['opt'] else 'right'),
            ['same', 'cols', 'cols'])], dict(array=A)
    if f == 'Hankel':
        col, row = R((n,), 1), R((m,), 2)
        row[0] = col[-1]
        return lambda col, row=None: [('array', util.Hankel(col, row), 'same')], \
            dict(col=col, row=row) if case['opt'] else dict(col=col)
    if f == 'chunks':
        a = R((n, m, 2), 1)
        b = R((3, m, 2), 2)
        b[0] = a[-1]
        return lambda col, row=None: [('array', util.Hankel_chunks(
            list(col), None if row is None else list(row)), 'same')], \
            dict(col=a, row=b) if case['opt'] else dict(col=a)
    A = dmdlib.separated(m, seed, False)[0]
    A = A / (1.3 * np.max(np.abs(np.linalg.eigvals(A))))
    S = lambda shape, k: gen.rand(shape, seed + k, False, 'int' if ints else 'normal')
    if ints:
        S0, S = S, lambda shape, k: S0(shape, k).astype(int)
    B, C = gen.rand((m, 2), seed + 4), gen.rand((2, m), seed + 5)
    if f == 'baltrunc':
        # the balanced arrays' signs are free: products of them are not
        def call(A, B, C):
            a, b, cc, s = util.balanced_truncation(A, B, C, return_sing_vals=True)
            return [('sing_vals', s, 'same'), ('CB', cc.dot(b), 'same'),
                    ('CAB', cc.dot(a).dot(b), 'same')]
        return call, dict(A=A, B=B, C=C)
    if f == 'lsim':
        args = dict(A=A, B=S((m, 2), 4), C=S((2, m), 5), inputs=S((7, 2), 6))
        if case['opt']:
            args['x0'] = S((m,), 7)
        return lambda A, B, C, inputs, x0=None: [('outputs', util.lsim(
            A, B, C, inputs, initial_condition=x0), 'same')], args
    if f == 'impulse':
        return lambda A, B, C: [('Markovs', util.impulse(A, B, C, 6), 'same')], \
            dict(A=A, B=S((m, 2), 4), C=S((2, m), 5))
    B, C = gen.rand((2, 2), seed + 4), gen.rand((2, 2), seed + 5)
    D = np.diag([.85, .4])
    M = np.array([C.dot(np.linalg.matrix_power(D, k)).dot(B) for k in range(12)])
    if f in ('era', 'ERA'):
        def call(Markovs):
            if f == 'era':
                a, b, cc = mr.compute_ERA_model(Markovs, 2)
            else:
                a, b, cc = mr.ERA(verbosity=0).compute_model(Markovs, 2)
            return [('CB', cc.dot(b), 'same'), ('CAB', cc.dot(a).dot(b), 'same'),
                    ('eigvals', np.sort(np.linalg.eigvals(a).real), 'same')]
        return call, dict(Markovs=M)
    if f == 'okid':
        u = gen.rand((1, 40), seed + 1, False, 'int' if ints else 'normal')
        y = np.zeros((2, 40))
        x = np.zeros(2)
        for k in range(40):
            y[:, k] = C.dot(x) + .5 * u[0, k]
            x = D.dot(x) + B[:, 0] * u[0, k]
        return lambda inputs, outputs: [('Markovs', mr.OKID(inputs, outputs, 5), 'same')], \
            dict(inputs=u, outputs=y)
    if f == 'format':
        return lambda times, Markovs: [(nm, v, 'same') for nm, v in zip(
            ['times', 'Markovs'], mr.make_sampled_format(times, Markovs)[:2])], \
            dict(times=np.arange(12) * (1 if ints else .25), Markovs=M)
    raise ValueError(f)


def compare(a, b, tol, what):
    """Same results; b from arguments of other layout."""
    need(len(a) == len(b), '%s: %d results instead of %d', what, len(a), len(b))
    for (nm, x, how), (_, y, _) in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        need_shape(y, x.shape, '%s %s' % (what, nm))
        if x.size == 0:
            continue
        if how == 'cols' or how == 'rows':
            xs, ys = (x, y) if how == 'cols' else (x.T, y.T)
            for j in range(xs.shape[1]):
                ip = np.vdot(ys[:, j], xs[:, j])
                ph = ip / abs(ip) if abs(ip) > 0 else 1.
                close(ys[:, j] * ph, xs[:, j], '%s %s, %s %d' % (what, nm, how[:-1], j), tol,
                      scale=float(np.max(np.abs(x))) or 1.)
        else:
            close(y, x, '%s %s' % (what, nm), tol, scale=float(np.max(np.abs(x))) or 1.)


def run_arrays(case, ctx):
    call, args = build(case)
    ctx.label('fun:' + case['fun'], case['ints'] and 'integers', case['cplx'] and 'complex')
    names = sorted(args)
    base = dict((k, np.ascontiguousarray(args[k])) for k in names)
    keep = dict((k, v.copy()) for k, v in base.items())
    ref = call(**base)
    for k in names:
        exact(base[k], keep[k], 'argument %s after the call' % k)
        need(base[k].dtype == keep[k].dtype, 'type of argument %s changed', k)
    saved = [(nm, np.array(v), how) for nm, v, how in ref]
    # conditioning (only the eigenvector-based functions need it)
    vals = [np.asarray(v) for nm, v, _ in ref if nm in ('eigvals', 'R_low_order_eigvecs')]
    if case['fun'][:3] in ('dmd', 'tls') or case['fun'] == 'eig':
        lam = vals[0]
        d = np.abs(lam[:, None] - lam[None, :]) + np.eye(len(lam)) * 1e9
        L = [np.asarray(v) for nm, v, _ in ref if nm in ('L_low_order_eigvecs', 'L', 'R')]
        if np.min(d) < 1e-2 or np.min(np.abs(lam)) < 1e-2 or max(
                np.max(np.abs(v)) for v in L) > 50:
            ctx.label('ill conditioned')
            return
    if case['fun'] == 'bpod':
        s = vals_of(ref, 'sing_vals')
        if s[-1] < 1e-2 * s[0] or len(s) < case['m'] or np.min(s[:-1] / s[1:]) < 1.02:
            ctx.label('ill conditioned')
            return
    if case['fun'] == 'baltrunc':
        s = vals_of(ref, 'sing_vals')
        if len(s) < case['m'] or s[-1] < 1e-3 * s[0]:
            ctx.label('ill conditioned')
            return
    if case['fun'] == 'galerkin' and np.max(np.abs(ref[0][1])) > 1e3:
        return
    # called again with the same objects
    again = call(**base)
    compare(saved, again, 1e-11 if case['fun'] != 'okid' else 1e-7, 'second call:')
    for (nm, v, how), (_, s, _) in zip(ref, saved):
        exact(v, s, 'result %s of the first call after the second' % nm)
    # the same objects holding other values
    other = build(dict(case, seed=case['seed'] + 1000))[1]
    held = {}
    for k in names:
        held[k] = base[k].copy()
        if np.can_cast(np.asarray(other[k]).dtype, base[k].dtype):
            held[k][...] = other[k]
    fresh = call(**dict((k, v.copy()) for k, v in held.items()))
    mine = dict((k, v.copy()) for k, v in base.items())
    call(**mine)
    for k in names:
        mine[k][...] = held[k]
    changed = call(**mine)
    compare([x for x in fresh if x[2] == 'same'], [x for x in changed if x[2] == 'same'],
            1e-4, 'arrays with new values:')
    # other layouts
    lay = dict(zip(names, case['layouts']))
    if case['fun'] in ('ip', 'symm', 'lin', 'chunks'):
        for k in names:      # VectorSpaceArrays and Hankel_chunks take arrays
            if lay[k] == 'list' and k != 'weights':
                lay[k] = 'F'
    other = dict((k, gen.same_layouts(base[k], lay[k])) for k in names)
    keep2 = dict((k, np.array(v)) for k, v in other.items())
    ctx.nontrivial(any(v != 'C' for v in lay.values()))
    for k in names:
        ctx.label('layout:' + lay[k])
    for k in names:
        if isinstance(other[k], np.ndarray):
            other[k].flags.writeable = False
    try:
        res = call(**other)
    except ValueError as e:
        if 'read-only' in str(e):
            fail('an argument is written to: %s', e)
        raise
    compare(saved, res, 1e-7, 'layouts %s:' % sorted(lay.items()))
    for k in names:
        exact(np.array(other[k]), keep2[k], 'argument %s after the call' % k)


def vals_of(ref, name):
    return [np.asarray(v) for nm, v, _ in ref if nm == name][0]


# ------------------------------------------------------------- histories on objects
CLASSES = ['pod', 'bpod', 'dmd', 'tls', 'vs', 'galerkin']


@st.composite
def history_cases(draw):
    which = draw(st.sampled_from(CLASSES))
    step = st.fixed_dictionaries(dict(
        obj=st.integers(0, 1), data=st.integers(0, 2), paired=st.booleans(),
        op=st.sampled_from(['decomp', 'decomp', 'redo', 'mode0', 'mode1', 'mode2', 'mode0',
                            'mode1', 'mode2', 'coeffs0', 'coeffs1', 'restore']),
        reuse=st.sampled_from([False, False, True]),
        cut=st.integers(0, 3), form=st.sampled_from(['max', 'atol', 'rtol']),
        give=st.sampled_from(['remembered', 'remembered', 'same', 'scaled']),
        idx=st.lists(st.integers(0, 9), min_size=1, max_size=3)))
    return dict(which=which, seed=draw(gen.seeds()), cplx=draw(st.booleans()),
                w=draw(st.sampled_from(gen.WEIGHTS)), n=draw(st.integers(6, 8)),
                sizes=draw(st.one_of(
                    st.lists(st.integers(2, 5), min_size=3, max_size=3),
                    st.integers(2, 5).map(lambda m: [m] * 3))),
                vt=draw(st.sampled_from(['nd1', 'plain'])), ht=draw(st.sampled_from(['mem', 'copy'])),
                max_vecs=draw(st.sampled_from([None, 3, 4])),
                start=draw(st.sampled_from(['both', 'both', 'first', 'none'])),
                steps=draw(st.lists(step, min_size=1, max_size=12)))


class History(object):
    """Objects under test with, for each, what a new object needs to be given."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        n, seed, c = case['n'], case['seed'], case['cplx']
        self.W, self.R = gen.weights(case['w'], n, seed + 9)[1:]
        self.sets = []
        for i, m in enumerate(case['sizes']):
            X = np.linalg.solve(self.R, tall(n, m, seed + 100 * i, c, False))
            A = dmdlib.separated(n, seed + 7 + 100 * i, c)[0]
            Y = np.linalg.solve(self.R, A.dot(self.R).dot(X))
            if case['which'] == 'bpod':
                Y = np.linalg.solve(self.R, self.R.dot(X) + .3 * gen.rand((n, m), seed + i, c))
            self.sets.append((X, Y))
        self.env = scen.Env(0, 1, None, {})
        self.kept = {}

    def reused_lists(self, key):
        """The same list objects and handles as last time, now holding (as many
        as needed of) the vectors of this data set."""
        new = self.lists(key)
        old = self.kept.setdefault(len(new), new)
        if old is not new:
            for a, b in zip(old, new):
                for x, y in zip(a, b):
                    if self.case['ht'] == 'mem':
                        x.put(y.get())
                    else:
                        x.data = y.data
                a[:] = a[:len(b)] + b[len(a):]
        return old

    def handles(self, X, name):
        return vecs.make_handles(X, self.case['vt'], self.case['ht'])

    def new(self, **kw):
        cls = dict(pod=mr.PODHandles, bpod=mr.BPODHandles, dmd=mr.DMDHandles,
                   tls=mr.TLSqrDMDHandles)[self.case['which']]
        return cls(inner_product=vecs.WeightedIP(self.W), verbosity=0,
                   max_vecs_per_node=self.case['max_vecs'], **kw)

    # --- what each class is asked to do
    def truncation(self, s, step, paired):
        """Keyword arguments keeping some of the well-separated components."""
        which = self.case['which']
        i = step['data']
        k = self.case['sizes'][i]
        X, Y = self.data(s if s is not None else (i, paired))
        k = X.shape[1]
        keep = k - step['cut'] % k
        if which == 'pod':
            E = np.linalg.svd(self.R.dot(X), compute_uv=False) ** 2
        elif which == 'bpod':
            E = np.linalg.svd(Y.conj().T.dot(self.W).dot(X), compute_uv=False)
        elif which == 'dmd':
            if step['form'] == 'max':
                return dict(max_num_eigvals=keep)
            E = np.linalg.svd(self.R.dot(X), compute_uv=False) ** 2
        else:
            return dict(max_num_eigvals=max(1, keep))
        level = np.sqrt(E[keep] * E[keep - 1]) if keep < k else E[-1] * 1e-3
        if step['form'] == 'rtol':
            return dict(rtol=float(level / E[0]))
        return dict(atol=float(level))

    def data(self, key):
        i, paired = key
        X, Y = self.sets[i]
        if self.case['which'] in ('dmd', 'tls') and not paired:
            Z = np.hstack([X, Y[:, -1:]])
            return Z[:, :-1], Z[:, 1:]
        return X, Y

    def lists(self, key, scale=1.):
        """Handles as given to compute_decomp."""
        i, paired = key
        X, Y = self.sets[i]
        which = self.case['which']
        if which == 'pod':
            return [self.handles(X * scale, 'x')]
        if which in ('dmd', 'tls') and not paired:
            return [self.handles(np.hstack([X, Y[:, -1:]]) * scale, 'z')]
        return [self.handles(X * scale, 'x'), self.handles(Y * scale, 'y')]

    def modes(self):
        """name of the method, keyword of its handles, 0/1 which handles."""
        return dict(
            pod=[('compute_modes', 'vec_handles', 0)],
            bpod=[('compute_direct_modes', 'direct_vec_handles', 0),
                  ('compute_adjoint_modes', 'adjoint_vec_handles', 1)],
            dmd=[('compute_exact_modes', 'adv_vec_handles', 1),
                 ('compute_proj_modes', 'vec_handles', 0),
                 ('compute_adjoint_modes', 'vec_handles', 0)])[
                     'dmd' if self.case['which'] == 'tls' else self.case['which']]

    def coeffs(self):
        return dict(pod=['compute_proj_coeffs'],
                    bpod=['compute_direct_proj_coeffs', 'compute_adjoint_proj_coeffs'],
                    dmd=['compute_spectrum', 'compute_proj_coeffs'])[
                        'dmd' if self.case['which'] == 'tls' else self.case['which']]

    def redo_name(self):
        return 'compute_SVD' if self.case['which'] == 'bpod' else 'compute_eigendecomp'

    def decomp_attrs(self):
        return dict(
            pod=[('eigvals', 's'), ('eigvecs', 'cols')],
            bpod=[('sing_vals', 's'), ('L_sing_vecs', 'cols'), ('R_sing_vecs', 'cols')],
            dmd=[('eigvals', 's'), ('R_low_order_eigvecs', 'cols'), ('L_low_order_eigvecs', 'cols'),
                 ('correlation_array_eigvals', 's'), ('correlation_array_eigvecs', 'cols'),
                 ('correlation_array', 's'), ('cross_correlation_array', 's')],
            tls=[('eigvals', 's'), ('R_low_order_eigvecs', 'cols'), ('L_low_order_eigvecs', 'cols'),
                 ('sum_correlation_array_eigvals', 's'), ('sum_correlation_array_eigvecs', 'cols'),
                 ('proj_correlation_array_eigvals', 's'), ('proj_correlation_array_eigvecs', 'cols'),
                 ('correlation_array', 's'), ('cross_correlation_array', 's')])[self.case['which']]

    def fresh(self, key, kw):
        o = self.new()
        ls = self.lists(key)
        o.compute_decomp(*ls, **self.call_kw(key, kw))
        return o, ls

    def call_kw(self, key, kw):
        if self.case['which'] == 'bpod':     # all vectors of one time step
            m = self.case['sizes'][key[0]]
            return dict(kw, num_inputs=m, num_outputs=m)
        return kw


def call_modes(obj, name, idx, kw, n):
    sinks = [MemSink() for _ in idx]
    getattr(obj, name)(list(idx), sinks, **kw)
    for s in sinks:
        need(s.puts == 1, '%s: a mode handle received %d puts', name, s.puts)
    return np.array([s.value.ravel() for s in sinks]).T


def expect_error(call, what, sinks=()):
    try:
        call()
    except Exception:
        pass
    else:
        fail('%s did not raise an error', what)
    for s in sinks:
        need(s.puts == 0, '%s put a mode', what)


class ObjState(object):
    def __init__(self, obj):
        self.obj = obj
        self.key = None      # (data set, paired) of the decomposition
        self.kw = None
        self.vec = None      # matrices of remembered handles, by list 0/1
        self.known = {}
        self.restored = False
        self.all = None      # True when known[0] is a whole sequence


def usable_decomp(h, o):
    """Whether the (fresh) decomposition is conditioned well enough."""
    if h.case['which'] in ('dmd', 'tls'):
        lam = np.asarray(o.eigvals)
        d = np.abs(lam[:, None] - lam[None, :]) + np.eye(len(lam)) * 1e9
        return (np.min(d) > 1e-3 and np.min(np.abs(lam)) > 1e-2 and
                np.max(np.abs(o.L_low_order_eigvecs)) < 100)
    if h.case['which'] == 'bpod':
        s = np.asarray(o.sing_vals)
        return len(s) > 0 and s[-1] > 1e-4 * s[0] and (len(s) == 1 or np.min(s[:-1] / s[1:]) > 1.01)
    return True


def same(a, b, how, what):
    compare([(what, b, 'same' if how == 's' else how)], [(what, a, how)], 1e-7, 'history:')


def check_decomp(h, s, what):
    fr, _ = h.fresh(s.key, s.kw)
    ok = usable_decomp(h, fr)
    for attr, how in h.decomp_attrs():
        a, b = getattr(s.obj, attr), getattr(fr, attr)
        need_shape(a, np.shape(b), '%s after %s' % (attr, what))
        if ok:
            same(a, b, how, '%s after %s' % (attr, what))
    return ok


def run_history(case, ctx):
    if case['which'] == 'vs':
        return run_space(case, ctx)
    if case['which'] == 'galerkin':
        return run_galerkin(case, ctx)
    h = History(case, ctx)
    which = case['which']
    states = [ObjState(h.new()), ObjState(h.new())]
    done = set()
    good = 0
    ctx.label('class:' + which, case['w'] == '2dc' and 'complex weights')
    first = [dict(case['steps'][i % len(case['steps'])], op='decomp', obj=i) for i in range(
        dict(both=2, first=1, none=0)[case['start']])]
    for number, step in enumerate(first + case['steps']):
        s = states[step['obj']]
        op = step['op']
        where = 'step %d (%s)' % (number, op)
        if op == 'restore':
            # a new object given arrays of another one's decomposition
            key = (step['data'], step['paired'])
            kw = h.truncation(None, step, step['paired'])
            src, _ = h.fresh(key, kw)
            if not usable_decomp(h, src):
                continue
            names = [a for a, _ in h.decomp_attrs() if not a.endswith('correlation_array')]
            obj = h.new(get_array=lambda src_name, src=src: np.array(getattr(src, src_name)))
            obj.get_decomp(*names)
            s = states[step['obj']] = ObjState(obj)
            s.key, s.kw, s.restored = key, kw, True
            done.add('restore')
            continue
        if op == 'decomp':
            key = (step['data'], step['paired'])
            kw = h.truncation(None, step, step['paired'])
            if step['reuse']:
                ls = h.reused_lists(key)
                if any(o.known.get(i) is a for o in states for i, a in enumerate(ls)):
                    done.add('decomp with changed handles')
                for o in states:      # what they remember is now other data
                    for i in [i for i, a in o.known.items() if any(a is b for b in ls)]:
                        o.known[i] = 'changed'
            else:
                ls = h.lists(key)
            ret = s.obj.compute_decomp(*ls, **h.call_kw(key, kw))
            s.key, s.kw, s.restored = key, kw, False
            s.known = dict(enumerate(ls))
            s.mats = None
            s.scales = {0: 1., 1: 1.}
            s.whole = len(ls) == 1
            s.ok = check_decomp(h, s, where)
            for r, (attr, _) in zip(ret, h.decomp_attrs()):
                exact(r, getattr(s.obj, attr), '%s: returned %s' % (where, attr))
            good += s.ok
            done.add('decomp again' if 'decomp' in done else 'decomp')
            continue
        if op == 'redo':
            if s.key is None or s.restored:
                expect_error(getattr(s.obj, h.redo_name()),
                             '%s without correlation array' % h.redo_name())
                ctx.label('missing:' + h.redo_name())
                continue
            s.kw = h.truncation(s.key, dict(step, data=s.key[0]), s.key[1])
            getattr(s.obj, h.redo_name())(**s.kw)
            s.ok = check_decomp(h, s, where)
            done.add('redo')
            good += s.ok
            continue
        if op.startswith('coeffs'):
            names = h.coeffs()
            name = names[int(op[-1]) % len(names)]
            if s.key is None:
                expect_error(getattr(s.obj, name), '%s before any decomposition' % name)
                ctx.label('missing:' + name)
                continue
            if s.restored and which in ('dmd', 'tls') and name == 'compute_proj_coeffs':
                expect_error(getattr(s.obj, name), '%s without cross-correlation array' % name)
                ctx.label('missing:' + name + ' restored')
                continue
            got = getattr(s.obj, name)()
            fr, _ = h.fresh(s.key, s.kw)
            want = getattr(fr, name)()
            if not usable_decomp(h, fr):
                continue
            if not isinstance(got, tuple):
                got, want = (got,), (want,)
            need(len(got) == len(want), '%s: %d results', where, len(got))
            for a, b in zip(got, want):
                same(a, b, 's' if name == 'compute_spectrum' else 'rows', '%s %s' % (where, name))
            good += 1
            done.add('coeffs')
            continue
        # modes
        names = h.modes()
        name, kwname, side = names[int(op[-1]) % len(names)]
        seq = which in ('dmd', 'tls') and s.key is not None and not s.key[1]
        if s.key is None:
            sinks = [MemSink()]
            expect_error(lambda: getattr(s.obj, name)([0], sinks), '%s before any decomposition' % name,
                         sinks)
            ctx.label('missing:' + name)
            continue
        X, Y = h.data(s.key)
        if not s.restored and not s.ok:
            continue
        fr, ls = h.fresh(s.key, s.kw)
        k = len(np.asarray(getattr(fr, h.decomp_attrs()[0][0])))
        idx = [i % k for i in step['idx']]
        kw = {}
        if s.restored and not hasattr(s, 'scales'):
            s.scales, s.whole = {}, seq
        uses = 0 if side == 1 and seq and s.known.get(1) is None else side
        if step['give'] == 'remembered' and isinstance(s.known.get(uses), str):
            continue
        if step['give'] != 'remembered':
            scale = 1. if step['give'] == 'same' else 2.5
            if side == 1 and seq:
                given = h.handles(Y * scale, 'y')
            else:
                given = h.lists(s.key, scale)[side]
            kw = {kwname: given}
            s.scales[side] = scale
            s.known[side] = given
        remembered = s.known.get(side)
        if remembered is None and side == 1 and seq and 0 in s.known:
            # sequential data: taken from the sequence itself
            scale = s.scales[0]
        elif remembered is None:
            sinks = [MemSink() for _ in idx]
            expect_error(lambda: getattr(s.obj, name)(idx, sinks),
                         '%s: %s without vectors' % (where, name), sinks)
            ctx.label('missing:%s restored' % name)
            continue
        else:
            scale = s.scales[side]
        got = call_modes(s.obj, name, idx, kw, case['n'])
        src = (h.handles((Y if side else X) * scale, 'f'))
        want = call_modes(fr, name, idx, {kwname: src}, case['n'])
        same(got, want, 'cols', '%s %s (%s vectors)' % (where, name, step['give']))
        good += 1
        done.add('modes ' + step['give'])
    for d in done:
        ctx.label('did:' + d)
    ctx.nontrivial(good >= 3)


def run_space(case, ctx):
    """VectorSpaceHandles keeps nothing between calls."""
    h = History(case, ctx)
    ctx.label('class:vs')
    objs = [VectorSpaceHandles(inner_product=vecs.WeightedIP(h.W), verbosity=0,
                               max_vecs_per_node=mv) for mv in (case['max_vecs'], 5)]
    for number, step in enumerate(case['steps']):
        o = objs[step['obj']]
        X, Y = h.sets[step['data']]
        Y = h.sets[step['cut'] % 3][1]
        hx, hy = h.handles(X, 'x'), h.handles(Y, 'y')
        if step['reuse']:
            for side, new in enumerate((hx, hy)):
                old = h.kept.setdefault(side, new)
                if old is not new:
                    for a, b in zip(old, new):
                        if case['ht'] == 'mem':
                            a.put(b.get())
                        else:
                            a.data = b.data
                    old[:] = old[:len(new)] + new[len(old):]
            hx, hy = h.kept[0], h.kept[1]
            ctx.label('vs: same handles')
        op = ['ip', 'symm', 'lin'][step['idx'][0] % 3]
        if op == 'ip':
            rel(o.compute_inner_product_array(hx, hy), X.conj().T.dot(h.W).dot(Y),
                'step %d: inner products' % number, 1e-9)
        elif op == 'symm':
            rel(o.compute_symm_inner_product_array(hy), Y.conj().T.dot(h.W).dot(Y),
                'step %d: symmetric inner products' % number, 1e-9)
        else:
            T = gen.rand((X.shape[1], 4), step['idx'][0] + case['seed'], case['cplx'])
            T0 = T.copy()
            idx = [i % 4 for i in step['idx']]
            sinks = [MemSink() for _ in idx]
            o.lin_combine(sinks, hx, T, coeff_array_col_indices=idx)
            rel(np.array([v.value.ravel() for v in sinks]).T, X.dot(T)[:, idx],
                'step %d: linear combinations' % number, 1e-9)
            exact(T, T0, 'coefficients afterwards')
        vecs.handles_unchanged(hx, X, 'vector')
        vecs.handles_unchanged(hy, Y, 'vector')
    ctx.nontrivial(len(case['steps']) >= 3)


def run_galerkin(case, ctx):
    """Reductions in any order and repeatedly."""
    h = History(case, ctx)
    ctx.label('class:galerkin')
    n, c, seed = case['n'], case['cplx'], case['seed']
    made = []
    for o in range(2):
        X, Y = h.sets[o]
        Y = X + .2 * gen.rand(X.shape, seed + o, c)
        if (seed + o) % 2:
            obj = mr.LTIGalerkinProjectionArrays(
                X.copy(), adjoint_basis_vecs=Y.copy(), inner_product_weights=h.W)
            conv = lambda a: a
        else:
            obj = mr.LTIGalerkinProjectionHandles(
                vecs.WeightedIP(h.W), h.handles(X, 'x'), h.handles(Y, 'y'), verbosity=0,
                max_vecs_per_node=case['max_vecs'])
            conv = lambda a: h.handles(a, 'a')
        G = Y.conj().T.dot(h.W).dot(X)
        made.append((obj, conv, Y, X, np.linalg.cond(G), G))
    for number, step in enumerate(case['steps']):
        obj, conv, Y, X, cond, G = made[step['obj']]
        if cond > 1e5:
            continue
        k = X.shape[1]
        sd = seed + step['data'] * 31
        AX, B, CX = gen.rand((n, k), sd, c), gen.rand((n, 1 + step['cut']), sd + 1, c), \
            gen.rand((2, k), sd + 2, c)
        lhs = np.linalg.inv(G).dot(Y.conj().T.dot(h.W))
        want = dict(A=lhs.dot(AX), B=lhs.dot(B), C=CX)
        what = 'step %d of repeated reductions: ' % number
        op = step['idx'][0] % 4
        carg = CX if conv(AX) is AX else [CX[:, j] for j in range(k)]
        if op == 0:
            rel(obj.reduce_A(conv(AX)), want['A'], what + 'A', 1e-8)
        elif op == 1:
            rel(obj.reduce_B(conv(B)), want['B'], what + 'B', 1e-8)
        elif op == 2:
            rel(obj.reduce_C(carg), want['C'], what + 'C', 1e-8)
        else:
            for a, nm in zip(obj.compute_model(conv(AX), conv(B), carg), 'ABC'):
                rel(a, want[nm], what + nm, 1e-8)
    ctx.nontrivial(len(case['steps']) >= 3)


def strategies(tier):
    k = 1 if tier == 'quick' else 20
    return [('arrays', array_cases(), 900 * k), ('history', history_cases(), 900 * k)]


def run_case(name, case, ctx):
    if name == 'arrays':
        run_arrays(case, ctx)
    else:
        run_history(case, ctx)

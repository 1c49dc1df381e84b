"""C23: saved decompositions are restored and continued by a new object."""
import hypothesis.strategies as st
import numpy as np

import c08
import c09
import c10
import c11
import decomp
import dmdlib
import gen
import vecs
from decomp import rel
from gen import close, exact, need, need_shape
import modred as mr
from modred import util

ID = 'C23'
RULE = ('decompositions by POD, BPOD, DMD and total-least-squares DMD handles, put and got in '
        'generated orders through text files or memory, then continued; non-trivial = every '
        'judged case (each computes, saves, restores and continues); one-component cases are '
        'counted by label')
ASSUMPTIONS = ['text files: arrays are loaded as complex when they were saved as complex '
               '(load_array_text needs to be told), by get_array functions as users write them',
               'data sets restricted as for C08-C11 (well-conditioned)']

SPECS = {
    'pod': [(['eigvals', 'eigvecs'], 'decomp', ['put_eigvals', 'put_eigvecs']),
            (['correlation_array'], 'correlation_array', None),
            (['proj_coeffs'], 'proj_coeffs', None)],
    'bpod': [(['sing_vals', 'L_sing_vecs', 'R_sing_vecs'], 'decomp',
              ['put_sing_vals', 'put_L_sing_vecs', 'put_R_sing_vecs']),
             (['Hankel_array'], 'Hankel_array', None),
             (['direct_proj_coeffs'], 'direct_proj_coeffs', None),
             (['adjoint_proj_coeffs'], 'adjoint_proj_coeffs', None)],
    'dmd': [(['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
              'correlation_array_eigvals', 'correlation_array_eigvecs'], 'decomp',
             ['put_eigvals', 'put_R_low_order_eigvecs', 'put_L_low_order_eigvecs',
              'put_correlation_array_eigvals', 'put_correlation_array_eigvecs']),
            (['correlation_array'], 'correlation_array', None),
            (['cross_correlation_array'], 'cross_correlation_array', None),
            (['spectral_coeffs'], 'spectral_coeffs', None),
            (['proj_coeffs', 'adv_proj_coeffs'], 'proj_coeffs', None)],
}
SPECS['tls'] = [
    (['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
      'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
      'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'], 'decomp',
     ['put_eigvals', 'put_R_low_order_eigvecs', 'put_L_low_order_eigvecs',
      'put_sum_correlation_array_eigvals', 'put_sum_correlation_array_eigvecs',
      'put_proj_correlation_array_eigvals', 'put_proj_correlation_array_eigvecs'])
] + SPECS['dmd'][1:] + [
    ([x], x, None) for x in ('adv_correlation_array', 'sum_correlation_array',
                             'proj_correlation_array')]


def extra():
    return dict(channel=st.sampled_from(['text', 'text', 'textc', 'memory', 'memref']),
                order=st.integers(0, 10 ** 6), singles=st.booleans(),
                again=st.booleans(), seqmode=st.booleans())


@st.composite
def with_extra(draw, base):
    case = draw(base)
    case['impl'] = 'handles'
    for k, v in extra().items():
        case[k] = draw(v)
    return case


def strategies(tier):
    k = 2 if tier == 'quick' else 15
    return [('pod', with_extra(c08.cases(['handles'])), 150 * k),
            ('bpod', with_extra(c09.cases()), 150 * k),
            ('dmd', with_extra(dmdlib.cases()), 200 * k),
            ('tls', with_extra(dmdlib.cases(tls=True)), 200 * k)]


class Channel(object):
    """put/get functions as users write them."""
    def __init__(self, kind, env):
        self.kind, self.env = kind, env
        self.store, self.cplx = {}, set()

    def dest(self, name):
        return self.env.path(name + '.txt') if self.kind.startswith('text') else name

    def put(self, arr, dest):
        if self.kind == 'text':
            if np.iscomplexobj(arr):
                self.cplx.add(dest)
            util.save_array_text(arr, dest)
        elif self.kind == 'textc':
            util.save_array_text(np.array(arr, dtype=complex), dest)
        else:
            self.store[dest] = arr if self.kind == 'memref' else np.array(arr)

    def get(self, src):
        if self.kind == 'text':
            return util.load_array_text(src, is_complex=src in self.cplx)
        if self.kind == 'textc':
            return util.load_array_text(src, is_complex=True)
        return self.store[src]

    def kwargs(self, plain):
        """Real data in text files need no functions at all."""
        if plain and self.kind == 'text':
            return {}
        return dict(put_array=self.put, get_array=self.get)


def save_and_load(which, obj, new, ch, case):
    specs = SPECS[which]
    r = gen.rng(case['order'])
    pairs = []
    for i in r.permutation(len(specs)):
        attrs, name, singles = specs[i]
        dests = [ch.dest('%s_%s' % (which, a)) for a in attrs]
        if singles and case['singles']:
            for j in r.permutation(len(singles)):
                getattr(obj, singles[j])(dests[j])
        else:
            getattr(obj, 'put_' + name)(*dests)
        pairs.append((attrs, name, dests))
    for i in r.permutation(len(pairs)):
        attrs, name, dests = pairs[i]
        getattr(new, 'get_' + name)(*dests)
    for attrs, _, _ in pairs:
        for a in attrs:
            exact(getattr(new, a), getattr(obj, a), 'restored ' + a)


def turned(which, obj, case):
    """The arrays of a decomposition as valid as the one of obj: eigenvectors have other
    phases, as if computed by another library.  Returns (arrays, phases)."""
    arrs = {a: np.array(getattr(obj, a)) for a in SPECS[which][0][0]}
    vec = dict(pod='eigvecs', bpod='R_sing_vecs', dmd='correlation_array_eigvecs',
               tls='proj_correlation_array_eigvecs')[which]
    r = gen.rng(case['order'] + 7)
    k = arrs[vec].shape[1]
    d = np.exp(2j * np.pi * r.rand(k)) if case['cplx'] else r.choice([-1., 1.], k)
    arrs[vec] = arrs[vec] * d
    if which == 'bpod':
        arrs['L_sing_vecs'] = arrs['L_sing_vecs'] * d
    elif which != 'pod':
        for a in ('R_low_order_eigvecs', 'L_low_order_eigvecs'):
            arrs[a] = d.conj()[:, None] * arrs[a]
    return arrs, d


def columns_agree(a, b, what, tol):
    """Same columns up to a factor of modulus one each."""
    need_shape(a, np.shape(b), what)
    for j in range(b.shape[1]):
        ip = np.vdot(a[:, j], b[:, j])
        ph = ip / abs(ip) if abs(ip) > 0 else 1.
        rel(a[:, j] * ph, b[:, j], '%s, column %d' % (what, j), tol)


def run_case(name, case, ctx):
    env = decomp.env_of(ctx, case)
    ch = Channel(case['channel'], env)
    n = case['n']
    warg, W, R = gen.weights(case['w'], n, case['seed'])
    ctx.label(name, 'channel:' + case['channel'], case['cplx'] and 'complex',
              case['singles'] and 'single puts')
    if name == 'pod':
        X, U, s, V = decomp.lowrank(n, case['m'], case['r'], 0, case['cplx'], R, case['seed'],
                                    case['scale'])
        kw = dict(atol=1e-6 * case['scale'] ** 2)
        plain = not (case['cplx'] or case['w'] == '2dc')
        obj, new = [mr.PODHandles(**decomp.obj_kw(case, W, **ch.kwargs(plain)))
                    for _ in range(2)]
        hs = decomp.handles(X, case, env, 'x')
        obj.compute_decomp(hs, **kw)
        obj.compute_proj_coeffs()
        k = len(obj.eigvals)
        need(k == case['r'], '%d components instead of %d', k, case['r'])
        save_and_load('pod', obj, new, ch, case)
        methods = [('compute_modes', 'compute_modes', {}, dict(vec_handles=hs))]
        proj = ['compute_proj_coeffs']
        redo, check = 'compute_eigendecomp', [('eigvals', None), ('eigvecs', 'c')]
    elif name == 'bpod':
        X, Y = c09.data(case, R)
        s = np.linalg.svd(Y.conj().T.dot(W).dot(X), compute_uv=False)
        kw, k = c09.truncation(case, s)
        if k is None:
            return
        plain = not (case['cplx'] or case['w'] == '2dc')
        obj, new = [mr.BPODHandles(**decomp.obj_kw(case, W, **ch.kwargs(plain)))
                    for _ in range(2)]
        hx, hy = decomp.handles(X, case, env, 'x'), decomp.handles(Y, case, env, 'y')
        obj.compute_decomp(hx, hy, num_inputs=case['p'], num_outputs=case['q'], **kw)
        need(len(obj.sing_vals) == k, 'wrong number of components')
        obj.compute_direct_proj_coeffs()
        obj.compute_adjoint_proj_coeffs()
        save_and_load('bpod', obj, new, ch, case)
        methods = [('compute_direct_modes',) * 2 + ({}, dict(direct_vec_handles=hx)),
                   ('compute_adjoint_modes',) * 2 + ({}, dict(adjoint_vec_handles=hy))]
        proj = ['compute_direct_proj_coeffs', 'compute_adjoint_proj_coeffs']
        redo = 'compute_SVD'
        check = [('sing_vals', None), ('L_sing_vecs', 'c'), ('R_sing_vecs', 'c')]
        if k > 1 and np.min(s[:k - 1] / s[1:k]) < 1.001:
            check = check[:1]
    else:
        allv, X, Y, _ = dmdlib.make_data(case, R)
        if name == 'dmd':
            s = np.linalg.svd(R.dot(X), compute_uv=False)
            kw, k = c10.truncation(case, s)
            X1, Y1 = X, Y
        else:
            tr = c11.truncation(case, X, Y, R)
            if tr is None:
                return
            kw, c1, Vz, k = tr
            X1, Y1 = c11.project(X, Y, Vz[:, :c1])
        if k is None:
            return
        lam, cond, s = dmdlib.oracle(X1, Y1, R, k)
        if not cond < 1e6 or np.min(np.abs(lam)) < 1e-3:
            ctx.label('ill conditioned')
            return
        cls = mr.DMDHandles if name == 'dmd' else mr.TLSqrDMDHandles
        obj, new = [cls(**decomp.obj_kw(case, W, **ch.kwargs(False))) for _ in range(2)]
        hs = decomp.handles(X if allv is None else allv, case, env, 'x')
        ha = None if allv is not None else decomp.handles(Y, case, env, 'y')
        obj.compute_decomp(hs, adv_vec_handles=ha, **kw)
        need(len(obj.eigvals) == k, '%d eigenvalues instead of %d', len(obj.eigvals), k)
        obj.compute_spectrum()
        obj.compute_proj_coeffs()
        save_and_load(name, obj, new, ch, case)
        kexact = dict(adv_vec_handles=hs[1:] if ha is None else ha)
        methods = [('compute_proj_modes',) * 2 + ({}, dict(vec_handles=hs)),
                   ('compute_adjoint_modes',) * 2 + ({}, dict(vec_handles=hs)),
                   ('compute_exact_modes',) * 2 + (
                       {}, {} if ha is None and case['seqmode'] else kexact)]
        if not (ha is None and case['seqmode']):
            methods = methods[::-1]
        proj = ['compute_proj_coeffs', 'compute_spectrum']
        redo = 'compute_eigendecomp'
        check = [('eigvals', 'set')]
        pre = 'sum_correlation_array' if name == 'tls' else 'correlation_array'
        check.append((pre + '_eigvals', None))
    ctx.nontrivial()
    ctx.label(k == 1 and 'one component', '%s one component' % name if k == 1 else None)
    # another round trip, from the restored object
    if case['again']:
        third = type(new)(**decomp.obj_kw(case, W, put_array=ch.put, get_array=ch.get))
        if case['channel'] == 'text' and name in ('pod', 'bpod') and plain:
            third = type(new)(**decomp.obj_kw(case, W))
        save_and_load(name, new, third, ch, case)
        new = third
    idx = decomp.indices(case, k)[1]
    for p in proj:
        a, b = getattr(new, p)(), getattr(obj, p)()
        for x, y in zip(a, b) if isinstance(a, tuple) else [(a, b)]:
            rel(x, y, '%s of the restored object' % p, 1e-10)
    for m_new, m_old, kold, knew in methods:
        a = decomp.modes_from(getattr(obj, m_old), idx, n, **kold)
        b = decomp.modes_from(getattr(new, m_new), idx, n, case['idxkind'], **knew)
        rel(b, a, '%s of the restored object' % m_new, 1e-9)
    # a decomposition whose vectors have other phases
    arrs, phases = turned(name, obj, case)
    other = type(new)(**decomp.obj_kw(case, W, put_array=ch.put, get_array=ch.get))
    dests = [ch.dest('turned_' + a) for a in SPECS[name][0][0]]
    for a, dst in zip(SPECS[name][0][0], dests):
        ch.put(arrs[a], dst)
    other.get_decomp(*dests)
    if name in ('dmd', 'tls'):
        for a in ['cross_correlation_array', 'correlation_array', 'adv_correlation_array',
                  'sum_correlation_array', 'proj_correlation_array']:
            if hasattr(obj, a):
                setattr(other, a, getattr(obj, a))
        phases = np.ones(k)
    for p in proj:
        a, b = getattr(other, p)(), getattr(obj, p)()
        for x, y in zip(a, b) if isinstance(a, tuple) else [(a, b)]:
            if np.ndim(y) == 2:
                y = phases.conj()[:, None] * y
            rel(x, y, '%s of a decomposition with other phases' % p, 1e-9)
    for m_new, m_old, kold, knew in methods:
        a = decomp.modes_from(getattr(obj, m_old), list(range(k)), n, **kold)
        if 'exact' in m_new and not knew:
            knew = kexact
        b = decomp.modes_from(getattr(other, m_new), list(range(k)), n, **knew)
        rel(b, a * phases, '%s of a decomposition with other phases' % m_new, 1e-9)
    # decomposition again, from the restored arrays, by an object that did
    # nothing else and by the one that computed all of the above
    bare = type(new)(**decomp.obj_kw(case, W, put_array=ch.put, get_array=ch.get))
    if case['channel'] == 'text' and name in ('pod', 'bpod') and plain:
        bare = type(new)(**decomp.obj_kw(case, W))
    save_and_load(name, obj, bare, ch, case)
    for who, o in (('a bare object', bare), ('the restored object', new)):
        getattr(o, redo)(**kw)
        for attr, how in check:
            a, b = getattr(o, attr), getattr(obj, attr)
            what = '%s after %s by %s' % (attr, redo, who)
            if how is None:
                rel(a, b, what, 1e-9)
            elif how == 'set':
                gen.match_spectrum(a, b, what, max(1e-8, 1e-13 * cond))
            else:
                columns_agree(a, b, what, 1e-6)
    for p in proj[:1]:
        a, b = getattr(new, p)(), getattr(obj, p)()
        if not isinstance(a, tuple):
            need_shape(a, np.shape(b), p)

"""The handle-based computations as scenarios that run on every rank (or
serially), saving everything they put into files and reading it all back."""
import os
import pickle
import time

import numpy as np

import gen
import vecs
from harness import fail
import modred as mr
from modred import parallel, util

OPS = ['pod', 'bpod', 'dmd', 'dmd_pair', 'tls', 'tls_pair', 'galerkin',
       'derivs', 'lin', 'ip', 'symm']


class FileHandle(object):
    """Vector handle writing a file in two steps, with injected delays."""
    def __init__(self, env, name, log):
        self.env, self.name, self.log = env, name, log
        self.path = env.path(name)

    def put(self, vec):
        self.log.append(self.name)
        self.env.hit('put')
        with open(self.path, 'wb') as f:
            f.write(b'#')
            f.flush()
            self.env.hit('put_mid')
            pickle.dump(vecs.value_of(vec), f)

    def get(self):
        return read(self.path)


def read(path):
    try:
        with open(path, 'rb') as f:
            if f.read(1) != b'#':
                fail('%s is not complete', os.path.basename(path))
            return pickle.load(f)
    except (IOError, EOFError, pickle.UnpicklingError) as e:
        fail('%s cannot be read right after the call that puts it: %r',
             os.path.basename(path), e)


def read_text(path):
    with open(path) as f:
        first = f.read(1)
    return util.load_array_text(path) if first else None


class Runner(object):
    def __init__(self, case, env, api=mr):
        self.case, self.env, self.api = case, env, api
        self.out = {}           # name -> array, in order
        self.array_log = []
        self.vec_log = []
        self.dests = []

    # -- user callbacks
    def put_array(self, arr, dest):
        self.array_log.append(os.path.basename(dest))
        self.env.hit('put_array')
        with open(dest, 'wb') as f:
            f.write(b'#')
            f.flush()
            self.env.hit('put_array_mid')
            pickle.dump(np.array(arr), f)

    def get_array(self, src):
        self.env.hit('get_array')
        return read(src)

    def ip(self, v1, v2):
        self.env.hit('ip')
        return v1.conj().dot(self.W.dot(v2))

    # -- helpers
    def data(self, num, k):
        c = self.case
        return gen.rand((c['n'], num), c['seed'] + 101 * k, c['cplx'], 'int')

    def handles(self, num, k):
        X = self.data(num, k)
        return self.sources(X)

    def sources(self, X):
        return vecs.make_handles(X, 'nd1', 'copy', self.env)

    def sinks(self, num, name):
        hs = [FileHandle(self.env, '%s_%d' % (name, i), self.vec_log)
              for i in range(num)]
        self.dests += hs
        return hs

    def put(self, method, *names):
        """Calls a put method and reads the result at once."""
        paths = [self.env.path(n) for n in names]
        method(*paths)
        for n, p in zip(names, paths):
            self.out['saved ' + n] = read(p)

    def modes(self, method, name, k, *args, **kw):
        idx = [i % k for i in self.case['modes']] or list(range(k))
        hs = self.sinks(len(idx), name)
        method(idx, hs, *args, **kw)
        for i, h in enumerate(hs):
            self.out['%s %d' % (name, i)] = read(h.path)

    def keep(self, **kw):
        for k, v in kw.items():
            self.out[k] = np.array(v)

    def kw(self):
        return dict(max_vecs_per_node=self.case['max_vecs'],
                    verbosity=self.case.get('verbosity', 0))

    def obj_kw(self):
        return dict(self.kw(), inner_product=self.ip, put_array=self.put_array,
                    get_array=self.get_array)

    def run(self):
        c = self.case
        n = c['n']
        w = c['weights']
        if w == 'none':
            self.W = np.eye(n)
        elif w == '1d':
            self.W = np.diag(gen.rng(c['seed']).randint(1, 4, size=n).astype(float))
        else:
            M = gen.rand((n, n), c['seed'] + 3, c['cplx'], 'int')
            self.W = M.conj().T.dot(M) + 4 * np.eye(n)
        getattr(self, 'op_' + c['op'])()
        return self.out

    # -- operations
    def op_ip(self):
        vs = self.api.VectorSpaceHandles(inner_product=self.ip, **self.kw())
        self.keep(ip=vs.compute_inner_product_array(
            self.handles(self.case['num'], 1), self.handles(self.case['num2'], 2)))

    def op_symm(self):
        vs = self.api.VectorSpaceHandles(inner_product=self.ip, **self.kw())
        self.keep(symm=vs.compute_symm_inner_product_array(
            self.handles(self.case['num'], 1)))

    def op_lin(self):
        c = self.case
        vs = self.api.VectorSpaceHandles(**self.kw())
        C = gen.rand((c['num'], c['num2']), c['seed'] + 9, c['cplx'])
        hs = self.sinks(c['num2'], 'sum')
        vs.lin_combine(hs, self.handles(c['num'], 1), C)
        for i, h in enumerate(hs):
            self.out['sum %d' % i] = read(h.path)

    def op_derivs(self):
        c = self.case
        hs = self.sinks(c['num'], 'deriv')
        self.api.compute_derivs_handles(self.handles(c['num'], 1),
                                  self.handles(c['num'], 2), hs, .5)
        for i, h in enumerate(hs):
            self.out['deriv %d' % i] = read(h.path)

    def op_files(self):
        """Operations on files shared by several handles, some of which are
        base vectors of others; results are put into any of the files."""
        c = self.case
        kinds = {'text': mr.VecHandleArrayText, 'pickle': mr.VecHandlePickle}
        make = kinds[c['handle']]
        kw = dict(is_complex=c['cplx']) if c['handle'] == 'text' else {}
        bases = [make(self.env.path('base%d' % i), **kw) for i in range(2)]
        vecs_ = [make(self.env.path('vec%d' % i), base_vec_handle=(
            bases[b] if b < 2 else None), scale=s, **kw)
            for i, (b, s) in enumerate(c['layout'])]
        if self.env.rank == 0:
            X = self.data(len(bases) + len(vecs_), 1)
            for i, h in enumerate(bases + vecs_):
                h.put(X[:, [i]])
        self.env.sync()
        vs = self.api.VectorSpaceHandles(
            inner_product=lambda a, b: self.ip(a[:, 0], b[:, 0]), **self.kw())
        for i, s in enumerate(c['steps']):
            name = '%d %s' % (i, s['op'])
            pick = [vecs_[k % len(vecs_)] for k in s['pick']]
            if s['op'] == 'ip':
                self.out[name] = vs.compute_inner_product_array(
                    pick, [vecs_[k % len(vecs_)] for k in s['pick2']])
            elif s['op'] == 'symm':
                self.out[name] = vs.compute_symm_inner_product_array(pick)
            else:
                # new files, read back as values of the destination below
                dest = []
                for k in s['dest']:
                    h = (bases + vecs_)[k % (2 + len(vecs_))]
                    if h not in dest and not any(h is p for p in pick):
                        dest.append(h)
                # not into a base vector of what is read
                used = [b for b in (bases[c['layout'][k % len(vecs_)][0]]
                                    for k in s['pick']
                                    if c['layout'][k % len(vecs_)][0] < 2)]
                dest = [h for h in dest if not any(h is b for b in used)]
                if not dest:
                    continue
                if s['op'] == 'lin':
                    vs.lin_combine(dest, pick, gen.rand(
                        (len(pick), len(dest)), c['seed'] + i, c['cplx'], 'int') / 8.)
                else:
                    m = min(len(dest), len(pick))
                    self.api.compute_derivs_handles(
                        pick[:m], pick[::-1][:m], dest[:m], 4.)
        for h in bases + vecs_:
            self.out[os.path.basename(h.vec_path)] = h.get()

    def op_history(self):
        """Several operations of one object with nothing in between."""
        vs = self.api.VectorSpaceHandles(inner_product=self.ip, **self.kw())
        sinks = []
        for i, s in enumerate(self.case['steps']):
            num, num2, k = s['num'], s['num2'], s['k']
            name = '%d %s' % (i, s['op'])
            if s['op'] == 'ip':
                self.out[name] = vs.compute_inner_product_array(
                    self.handles(num, k), self.handles(num2, k + 1))
            elif s['op'] == 'symm':
                self.out[name] = vs.compute_symm_inner_product_array(self.handles(num, k))
            elif s['op'] == 'lin':
                hs = self.sinks(num2, 'sum%d' % i)
                vs.lin_combine(hs, self.handles(num, k), gen.rand(
                    (num, num2), self.case['seed'] + k, self.case['cplx'], 'int'))
                sinks += hs
            else:
                hs = self.sinks(num, 'deriv%d' % i)
                self.api.compute_derivs_handles(self.handles(num, k), self.handles(num, k + 1),
                                                hs, .5)
                sinks += hs
        for h in sinks:
            self.out[h.name] = read(h.path)

    def op_pod(self):
        obj = self.api.PODHandles(**self.obj_kw())
        ret = obj.compute_decomp(self.handles(self.case['num'], 1), atol=1e-8)
        self.keep(eigvals=ret[0], eigvecs=ret[1], corr=obj.correlation_array)
        self.keep(proj=obj.compute_proj_coeffs())
        self.modes(obj.compute_modes, 'mode', len(ret[0]))
        self.put(obj.put_decomp, 'a_eigvals', 'a_eigvecs')
        self.put(obj.put_eigvals, 'b_eigvals')
        self.put(obj.put_eigvecs, 'b_eigvecs')
        self.put(obj.put_correlation_array, 'corr')
        self.put(obj.put_proj_coeffs, 'proj')
        new = self.api.PODHandles(**self.obj_kw())
        new.get_decomp(self.env.path('a_eigvals'), self.env.path('a_eigvecs'))
        new.get_correlation_array(self.env.path('corr'))
        new.get_proj_coeffs(self.env.path('proj'))
        self.keep(n_eigvals=new.eigvals, n_eigvecs=new.eigvecs,
                  n_corr=new.correlation_array, n_proj=new.proj_coeffs)
        self.keep(n_proj2=new.compute_proj_coeffs())
        self.modes(new.compute_modes, 'nmode', len(ret[0]),
                   vec_handles=self.handles(self.case['num'], 1))
        # from the correlation array alone, as documented
        rest = self.api.PODHandles(**self.obj_kw())
        rest.get_correlation_array(self.env.path('corr'))
        rest.compute_eigendecomp(atol=1e-8)
        self.keep(r_eigvals=rest.eigvals, r_eigvecs=rest.eigvecs)
        self.modes(rest.compute_modes, 'rmode', len(rest.eigvals),
                   vec_handles=self.handles(self.case['num'], 1))
        # other data, same object
        ret = obj.compute_decomp(self.handles(self.case['num2'], 7), atol=1e-8)
        self.keep(o_eigvals=ret[0], o_proj=obj.compute_proj_coeffs())
        self.modes(obj.compute_modes, 'omode', len(ret[0]))

    def op_bpod(self):
        c = self.case
        p, q = c['inputs'], c['outputs']
        n = c['n']
        A = np.triu(gen.rand((n, n), c['seed'] + 4, c['cplx'], 'int'), 1)
        A += np.diag(gen.rng(c['seed']).randint(-1, 2, size=n))
        A = (A != 0) * np.sign(A.real)
        B = gen.rand((n, p), c['seed'] + 5, c['cplx'], 'int')
        C = gen.rand((n, q), c['seed'] + 6, c['cplx'], 'int')
        X, Y = [B], [C]
        # adjoint in the inner product with weights W: only W = I keeps
        # integers exact, and the Hankel structure holds for it
        self.W = np.eye(n)
        steps = max(1, c['num'] // (2 * p)), max(1, c['num2'] // (2 * q))
        for _ in range(steps[0] - 1):
            X.append(A.dot(X[-1]))
        for _ in range(steps[1] - 1):
            Y.append(A.conj().T.dot(Y[-1]))
        X, Y = np.hstack(X), np.hstack(Y)
        hx, hy = self.sources(X), self.sources(Y)
        obj = self.api.BPODHandles(**self.obj_kw())
        ret = obj.compute_decomp(hx, hy, num_inputs=p, num_outputs=q,
                                 atol=1e-8, rtol=1e-8)
        self.keep(sing=ret[0], L=ret[1], R=ret[2], Hankel=obj.Hankel_array)
        self.keep(dproj=obj.compute_direct_proj_coeffs(),
                  aproj=obj.compute_adjoint_proj_coeffs())
        k = len(ret[0])
        if k:
            self.modes(obj.compute_direct_modes, 'direct', k)
            self.modes(obj.compute_adjoint_modes, 'adjoint', k)
        self.put(obj.put_decomp, 'a_sing', 'a_L', 'a_R')
        self.put(obj.put_sing_vals, 'b_sing')
        self.put(obj.put_L_sing_vecs, 'b_L')
        self.put(obj.put_R_sing_vecs, 'b_R')
        self.put(obj.put_Hankel_array, 'Hankel')
        self.put(obj.put_direct_proj_coeffs, 'dproj')
        self.put(obj.put_adjoint_proj_coeffs, 'aproj')
        new = self.api.BPODHandles(**self.obj_kw())
        new.get_decomp(*[self.env.path(x) for x in ('a_sing', 'a_L', 'a_R')])
        new.get_Hankel_array(self.env.path('Hankel'))
        new.get_direct_proj_coeffs(self.env.path('dproj'))
        new.get_adjoint_proj_coeffs(self.env.path('aproj'))
        self.keep(n_sing=new.sing_vals, n_L=new.L_sing_vecs, n_R=new.R_sing_vecs,
                  n_Hankel=new.Hankel_array, n_d=new.direct_proj_coeffs,
                  n_a=new.adjoint_proj_coeffs)
        rest = self.api.BPODHandles(**self.obj_kw())
        rest.get_Hankel_array(self.env.path('Hankel'))
        rest.compute_SVD(atol=1e-8, rtol=1e-8)
        self.keep(r_sing=rest.sing_vals, r_L=rest.L_sing_vecs, r_R=rest.R_sing_vecs)
        if k:
            self.modes(rest.compute_direct_modes, 'rdirect', k, direct_vec_handles=hx)
            self.modes(rest.compute_adjoint_modes, 'radjoint', k, adjoint_vec_handles=hy)

    def _dmd(self, cls, pair):
        c = self.case
        num = c['num'] + (0 if pair else 1)
        tls = self.case['op'].startswith('tls')
        obj = cls(**self.obj_kw())
        vec = self.handles(num, 1)
        adv = self.handles(num, 2) if pair else None
        if num - (0 if pair else 1) < 1:
            return
        ret = obj.compute_decomp(vec, adv_vec_handles=adv, atol=1e-8,
                                 max_num_eigvals=c['max_eig'])
        names = ['eigvals', 'R', 'L'] + (
            ['sumvals', 'sumvecs', 'projvals', 'projvecs'] if tls else
            ['corrvals', 'corrvecs'])
        self.keep(**dict(zip(names, ret)))
        self.keep(corr=obj.correlation_array, cross=obj.cross_correlation_array)
        self.keep(spectrum=obj.compute_spectrum())
        self.keep(**dict(zip(('proj', 'adv_proj'), obj.compute_proj_coeffs())))
        k = len(ret[0])
        if np.min(np.abs(ret[0])) > 1e-6:    # else exact modes are undefined
            self.modes(obj.compute_exact_modes, 'exact', k)
        self.modes(obj.compute_proj_modes, 'projm', k)
        self.modes(obj.compute_adjoint_modes, 'adjoint', k)
        self.put(obj.put_decomp, *['a_' + x for x in names])
        self.put(obj.put_eigvals, 'b_eigvals')
        self.put(obj.put_R_low_order_eigvecs, 'b_R')
        self.put(obj.put_L_low_order_eigvecs, 'b_L')
        self.put(obj.put_correlation_array, 'corr')
        self.put(obj.put_cross_correlation_array, 'cross')
        self.put(obj.put_spectral_coeffs, 'spectrum')
        self.put(obj.put_proj_coeffs, 'proj', 'adv_proj')
        new = cls(**self.obj_kw())
        if tls:
            self.put(obj.put_sum_correlation_array_eigvals, 'b_sumvals')
            self.put(obj.put_sum_correlation_array_eigvecs, 'b_sumvecs')
            self.put(obj.put_proj_correlation_array_eigvals, 'b_projvals')
            self.put(obj.put_proj_correlation_array_eigvecs, 'b_projvecs')
            self.put(obj.put_adv_correlation_array, 'adv_corr')
            self.put(obj.put_sum_correlation_array, 'sum_corr')
            self.put(obj.put_proj_correlation_array, 'proj_corr')
            new.get_adv_correlation_array(self.env.path('adv_corr'))
            new.get_sum_correlation_array(self.env.path('sum_corr'))
            new.get_proj_correlation_array(self.env.path('proj_corr'))
            self.keep(n_adv=new.adv_correlation_array,
                      n_sum=new.sum_correlation_array,
                      n_pc=new.proj_correlation_array)
        else:
            self.put(obj.put_correlation_array_eigvals, 'b_corrvals')
            self.put(obj.put_correlation_array_eigvecs, 'b_corrvecs')
        new.get_decomp(*[self.env.path('a_' + x) for x in names])
        new.get_correlation_array(self.env.path('corr'))
        new.get_cross_correlation_array(self.env.path('cross'))
        new.get_spectral_coeffs(self.env.path('spectrum'))
        new.get_proj_coeffs(self.env.path('proj'), self.env.path('adv_proj'))
        self.keep(n_eig=new.eigvals, n_R=new.R_low_order_eigvecs,
                  n_L=new.L_low_order_eigvecs, n_corr=new.correlation_array,
                  n_cross=new.cross_correlation_array, n_spec=new.spectral_coeffs,
                  n_p=new.proj_coeffs, n_ap=new.adv_proj_coeffs)
        self.modes(new.compute_proj_modes, 'nprojm', k, vec_handles=vec)
        # from the correlation arrays alone, as documented
        rest = cls(**self.obj_kw())
        rest.get_correlation_array(self.env.path('corr'))
        rest.get_cross_correlation_array(self.env.path('cross'))
        if tls:
            rest.get_adv_correlation_array(self.env.path('adv_corr'))
        rest.compute_eigendecomp(atol=1e-8, max_num_eigvals=c['max_eig'])
        self.keep(r_eig=rest.eigvals, r_R=rest.R_low_order_eigvecs,
                  r_L=rest.L_low_order_eigvecs)
        self.modes(rest.compute_adjoint_modes, 'radjoint', len(rest.eigvals), vec_handles=vec)
        # other data, same object
        num = c['num2'] + 1
        ret = obj.compute_decomp(self.handles(num, 7), adv_vec_handles=(
            self.handles(num, 8) if num % 2 else None), atol=1e-8,
            max_num_eigvals=c['max_eig'])
        self.keep(o_eig=ret[0], o_spectrum=obj.compute_spectrum())
        self.keep(**dict(zip(('o_proj', 'o_adv_proj'), obj.compute_proj_coeffs())))
        self.modes(obj.compute_adjoint_modes, 'oadjoint', len(ret[0]))

    def op_dmd(self):
        self._dmd(self.api.DMDHandles, False)

    def op_dmd_pair(self):
        self._dmd(self.api.DMDHandles, True)

    def op_tls(self):
        self._dmd(self.api.TLSqrDMDHandles, False)

    def op_tls_pair(self):
        self._dmd(self.api.TLSqrDMDHandles, True)

    def op_galerkin(self):
        c = self.case
        k = min(c['num'], c['n'])
        basis = self.handles(k, 1)
        adj = self.handles(k, 2) if c['pair'] else None
        gal = self.api.LTIGalerkinProjectionHandles(
            self.ip, basis, adjoint_basis_vec_handles=adj,
            is_basis_orthonormal=c['orthonormal'], put_array=self.put_array,
            **self.kw())
        # a singular basis product raises on every rank; nothing to compare
        ret = gal.compute_model(
            self.handles(k, 3), self.handles(c['inputs'], 4),
            [gen.rand((c['outputs'],), c['seed'] + i, c['cplx'], 'int')
             for i in range(k)])
        self.keep(A=ret[0], B=ret[1], C=ret[2])
        self.put(gal.put_model, 'A', 'B', 'C')
        self.put(gal.put_A_reduced, 'A2')
        self.put(gal.put_B_reduced, 'B2')
        self.put(gal.put_C_reduced, 'C2')


def run(case, env):
    r = Runner(case, env)
    r.run()
    return dict(out=r.out, arrays=r.array_log, vecs=r.vec_log)

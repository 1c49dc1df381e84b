"""C29: requests whose parts do not fit together are refused without effect."""
import os

import hypothesis.strategies as st
import numpy as np

import gen
import ops
import scen
from c05 import compare
from gen import need
import modred as mr

ID = 'C29'
RULE = ('operation x kind of misfit x sizes (x ranks); the request must raise on every rank, put '
        'nothing, and a consistent request afterwards gives what it gave before; non-trivial = '
        'every case that was refused')
ASSUMPTIONS = ['any exception is a refusal; its text is not judged']
SIZES = {'quick': [1, 1, 2, 3], 'thorough': [1, 2, 3, 4, 5]}

MODES = ['pod', 'bpod_direct', 'bpod_adjoint'] + [
    '%s %s' % (c, m) for c in ('dmd', 'dmd_pair', 'tls', 'tls_pair')
    for m in ('exact', 'proj', 'adjoint')]
MISFITS = ['fewer vectors', 'more vectors', 'fewer handles', 'more handles', 'index', 'no handle']


@st.composite
def mode_cases(draw, sizes):
    return dict(kind='modes', procs=draw(sizes), request=draw(st.sampled_from(MODES)),
                misfit=draw(st.sampled_from(MISFITS)), n=draw(st.integers(8, 12)),
                num=draw(st.integers(2, 5)), extra=draw(st.integers(1, 3)),
                modes=draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)),
                seed=draw(gen.seeds()), cplx=draw(st.booleans()),
                max_vecs=draw(st.sampled_from([3, 10, 100])))


@st.composite
def handle_cases(draw, sizes):
    return dict(kind='handles', procs=draw(sizes), request=draw(st.sampled_from([
        'lin rows', 'lin columns', 'lin index', 'lin indices', 'derivs adv', 'derivs out',
        'galerkin', 'dmd', 'tls', 'dmd restored', 'tls restored', 'bpod inputs', 'bpod outputs',
        'load', 'load', 'ip', 'symm', 'sanity', 'pod ip', 'bpod ip', 'dmd ip', 'galerkin ip'])),
        n=draw(st.integers(8, 12)), num=draw(st.integers(2, 6)), num2=draw(st.integers(2, 6)),
        extra=draw(st.integers(-3, 3).filter(bool)), seed=draw(gen.seeds()),
        cplx=draw(st.booleans()), max_vecs=draw(st.sampled_from([3, 10, 100])))


@st.composite
def array_cases(draw):
    return dict(kind='arrays', request=draw(st.sampled_from(
        ['POD_snaps', 'POD_direct', 'BPOD', 'DMD_snaps', 'DMD_direct', 'TLSqrDMD_snaps',
         'TLSqrDMD_direct', 'galerkin'])),
        misfit=draw(st.sampled_from(['weights length', 'weights size', 'weights 3D', 'rows',
                                     'columns', 'index', 'index'])),
        n=draw(st.integers(3, 8)), num=draw(st.integers(2, 5)),
        extra=draw(st.integers(-2, 2).filter(bool)), seed=draw(gen.seeds()),
        cplx=draw(st.booleans()), at=draw(st.integers(0, 3)))


@st.composite
def other_cases(draw):
    return dict(kind='other', request=draw(st.sampled_from(
        ['ERA 4D', 'ERA samples', 'sampled format', 'sampled times', 'OKID', 'eig scale',
         'save 3D', 'load odd', 'signals', 'signals times', 'trapz grids', 'trapz shape',
         'trapz type', 'weights 3D', 'sum_lists'])),
        n=draw(st.integers(2, 7)), m=draw(st.integers(1, 3)), extra=draw(st.integers(1, 4)),
        sign=draw(st.sampled_from([-1, 1])), seed=draw(gen.seeds()), cplx=draw(st.booleans()))


def strategies(tier):
    k = 1 if tier == 'quick' else 15
    sizes = st.sampled_from(SIZES[tier])
    return [('misfit', mode_cases(sizes), 260 * k), ('misfit', handle_cases(sizes), 260 * k),
            ('misfit', array_cases(), 250 * k), ('misfit', other_cases(), 200 * k)]


def refused(f, what):
    try:
        out = f()
    except Exception:
        return
    need(False, '%s was not refused, gave %s', what, str(out)[:200])


class Runner(ops.Runner):
    def run(self):
        self.W = np.eye(self.case['n'])
        c = dict(self.case)
        getattr(self, 'do_' + c['kind'])(c)
        return self.out

    def nothing_put(self, f, what):
        v, a = len(self.vec_log), len(self.array_log)
        refused(f, what)
        need(len(self.vec_log) == v and len(self.array_log) == a,
             '%s: refused, but %s were put', what, self.vec_log[v:] + self.array_log[a:])
        self.env.sync()

    def do_modes(self, c):
        num, req = c['num'], c['request']
        dmd = req.split()[0] not in ('pod', 'bpod_direct', 'bpod_adjoint')
        paired = dmd and 'pair' in req
        count = num + (dmd and not paired)
        X, Y = gen.rand((c['n'], count), c['seed'], c['cplx']), gen.rand(
            (c['n'], count), c['seed'] + 1, c['cplx'])
        key = 'vec_handles'
        if req == 'pod':
            obj = mr.PODHandles(**self.obj_kw())
            k = len(obj.compute_decomp(self.sources(X))[0])
            method = obj.compute_modes
        elif not dmd:
            obj = mr.BPODHandles(**self.obj_kw())
            k = len(obj.compute_decomp(self.sources(X), self.sources(Y), num_inputs=count,
                                       num_outputs=count)[0])
            method = getattr(obj, 'compute_%s_modes' % req[5:])
            key = req[5:] + '_vec_handles'
            if req == 'bpod_adjoint':
                X = Y
        else:
            cls = mr.DMDHandles if req.startswith('dmd') else mr.TLSqrDMDHandles
            obj = cls(**self.obj_kw())
            adv = self.sources(Y) if paired else None
            k = len(obj.compute_decomp(self.sources(X), adv_vec_handles=adv,
                                       max_num_eigvals=max(1, num - 1))[0])
            which = req.split()[1]
            method = getattr(obj, 'compute_%s_modes' % which)
            if which == 'exact':
                key, X = 'adv_vec_handles', (Y if paired else X[:, 1:])
        idx = [i % k for i in c['modes']]
        def modes(name, **kw):
            hs = self.sinks(len(idx), name)
            method(idx, hs, **kw)
            return [ops.read(h.path) for h in hs]
        base = modes('base')
        hs = self.sinks(len(idx), 'bad')
        mis, kw = c['misfit'], {}
        bad = idx
        if mis.endswith('vectors'):
            # one more or less is what a sequential or paired data set would have
            ok = (num, num + 1) if dmd and key == 'vec_handles' else (num,)
            size = num + (c['extra'] + (max(ok) - num) if mis[0] == 'm' else -c['extra'])
            size = max(1, size)
            if size in ok:
                size = max(ok) + c['extra']
            kw[key] = self.sources(gen.rand((c['n'], size), c['seed'] + 2, c['cplx']))
        elif mis == 'fewer handles' and len(hs) > 1:
            hs = hs[:-1]
        elif mis == 'more handles' or mis == 'fewer handles':
            hs = hs + self.sinks(c['extra'], 'more')
        elif mis == 'index':
            bad = list(idx)
            bad[c['extra'] % len(bad)] = k + c['extra'] - 1
        else:
            hs = []
        what = '%s with %s' % (req, mis)
        self.nothing_put(lambda: method(bad, hs, **kw), what)
        try:
            again = modes('again')
        except Exception:
            need(mis.endswith('vectors'), '%s: the object is not usable afterwards', what)
        else:
            need(not mis.endswith('vectors') or all(
                np.array_equal(a, b) for a, b in zip(again, base)),
                '%s: vectors of the refused request are used afterwards', what)
            compare(dict(enumerate(again)), dict(enumerate(base)), what + ', afterwards', 1e-9)
        after = modes('after', **{key: self.sources(X)})
        compare(dict(enumerate(after)), dict(enumerate(base)), what + ', afterwards', 1e-9)

    def do_handles(self, c):
        req, num, num2, n = c['request'], c['num'], c['num2'], c['n']
        other = max(1, num + c['extra'])
        if other == num:
            other = num + 1
        kw = self.kw()
        if req.startswith('lin'):
            vs = mr.VectorSpaceHandles(**kw)
            C = gen.rand((num, num2), c['seed'], c['cplx'], 'int')
            basis, sums, idx = self.handles(num, 1), self.sinks(num2, 'bad'), None
            if req == 'lin rows':
                basis = self.handles(other, 1)
            elif req == 'lin columns':
                sums = self.sinks(num2 + 1 if c['extra'] > 0 else num2 - 1, 'bad')
            elif req == 'lin index':
                idx = list(range(num2 - 1)) + [num2 + abs(c['extra']) - 1]
            else:
                idx = list(range(num2 - 1)) if c['extra'] > 0 else [0] * (num2 + 1)
            self.nothing_put(lambda: vs.lin_combine(sums, basis, C, coeff_array_col_indices=idx),
                             req)
            good = self.sinks(num2, 'good')
            vs.lin_combine(good, self.handles(num, 1), C)
            for i, h in enumerate(good):
                gen.exact(ops.read(h.path), self.data(num, 1).dot(C[:, i]), 'sum afterwards')
        elif req.startswith('derivs'):
            adv = self.handles(other if req == 'derivs adv' else num, 2)
            out = self.sinks(other if req == 'derivs out' else num, 'bad')
            self.nothing_put(lambda: mr.compute_derivs_handles(
                self.handles(num, 1), adv, out, .5), req)
        elif req == 'galerkin':
            refused(lambda: mr.LTIGalerkinProjectionHandles(
                self.ip, self.handles(num, 1), adjoint_basis_vec_handles=self.handles(other, 2),
                put_array=self.put_array, **kw), req)
        elif req.startswith('bpod ') and req != 'bpod ip':
            p, q = 1 + num % 3, 1 + num2 % 3
            X = gen.rand((n, 2 * p), c['seed'], c['cplx'])
            Y = gen.rand((n, 2 * q), c['seed'] + 1, c['cplx'])
            obj = mr.BPODHandles(**self.obj_kw())
            k = len(obj.compute_decomp(self.sources(X), self.sources(Y), num_inputs=p,
                                       num_outputs=q)[0])
            def modes(name):
                res = []
                for f in (obj.compute_direct_modes, obj.compute_adjoint_modes):
                    hs = self.sinks(k, name + f.__name__)
                    f(list(range(k)), hs)
                    res += [ops.read(h.path) for h in hs]
                return dict(enumerate(res))
            base = modes('base')
            bad = [p, q]
            bad[req == 'bpod outputs'] = 2 + num % 4
            x, y = self.handles(2 * p, 3), self.handles(2 * q, 4)
            (y if req == 'bpod outputs' else x).append(self.handles(1, 5)[0])
            if (2 * (q if req == 'bpod outputs' else p) + 1) % (2 + num % 4):
                self.nothing_put(lambda: obj.compute_decomp(
                    x, y, num_inputs=bad[0], num_outputs=bad[1]), req)
                compare(modes('after'), base, req + ', afterwards', 1e-9)
        elif req == 'load':
            cls, get, attr = [
                (mr.PODHandles, 'get_correlation_array', 'correlation_array'),
                (mr.PODHandles, 'get_proj_coeffs', 'proj_coeffs'),
                (mr.BPODHandles, 'get_Hankel_array', 'Hankel_array'),
                (mr.BPODHandles, 'get_direct_proj_coeffs', 'direct_proj_coeffs'),
                (mr.BPODHandles, 'get_adjoint_proj_coeffs', 'adjoint_proj_coeffs'),
                (mr.DMDHandles, 'get_correlation_array', 'correlation_array'),
                (mr.DMDHandles, 'get_cross_correlation_array', 'cross_correlation_array'),
                (mr.DMDHandles, 'get_spectral_coeffs', 'spectral_coeffs'),
                (mr.TLSqrDMDHandles, 'get_adv_correlation_array', 'adv_correlation_array'),
                (mr.TLSqrDMDHandles, 'get_sum_correlation_array', 'sum_correlation_array'),
                (mr.TLSqrDMDHandles, 'get_proj_correlation_array', 'proj_correlation_array'),
            ][c['seed'] % 11]
            obj = cls(**self.obj_kw())
            arr = self.data(num, 1)
            if attr == 'spectral_coeffs':
                arr = arr[:, 0]
            path = self.env.path('saved')
            if self.env.rank == 0:
                self.put_array(arr, path)
            self.env.sync()
            self.nothing_put(lambda: getattr(obj, get)(self.env.path('missing')), get)
            getattr(obj, get)(path)
            gen.exact(getattr(obj, attr), arr, '%s after a refused %s' % (attr, get))
            for cls, num_src in ((mr.PODHandles, 2), (mr.BPODHandles, 3), (mr.DMDHandles, 5),
                                 (mr.TLSqrDMDHandles, 7)):
                paths = [path] * num_src
                paths[num2 % num_src] = self.env.path('missing')
                obj = cls(**self.obj_kw())
                self.nothing_put(lambda: obj.get_decomp(*paths), 'get_decomp of ' + cls.__name__)
        elif req in ('dmd', 'tls', 'dmd restored', 'tls restored'):
            cls = mr.DMDHandles if req.startswith('dmd') else mr.TLSqrDMDHandles
            obj = cls(**self.obj_kw())
            X, Y = gen.rand((n, num), c['seed'], c['cplx']), gen.rand(
                (n, num), c['seed'] + 1, c['cplx'])
            hx, hy = self.sources(X), self.sources(Y)
            opt = dict(max_num_eigvals=max(1, num - 1))
            ret = obj.compute_decomp(hx, adv_vec_handles=hy, **opt)
            arrays = [np.array(a) for a in ret]
            k = len(ret[0])
            self.modes_of(obj, k, 'base')
            vec = self.handles(num if c['extra'] > 0 else other, 3)
            adv = self.handles(other if c['extra'] > 0 else num, 4)
            if len(vec) == len(adv):
                adv = adv[1:]
            self.nothing_put(lambda: obj.compute_decomp(vec, adv_vec_handles=adv, **opt), req)
            if 'restored' in req:       # continue as if nothing had happened
                self.put(obj.put_eigvals, 'eig')
                gen.exact(self.out['saved eig'], arrays[0], 'eigenvalues after a refused request')
            else:
                self.modes_of(obj, k, 'after')
                base = {m: v for m, v in self.out.items() if m.startswith('base')}
                after = {'base' + m[5:]: v for m, v in self.out.items() if m.startswith('after')}
                compare(after, base, 'modes after a refused decomposition', 1e-9)
            again = obj.compute_decomp(hx, adv_vec_handles=hy, **opt)
            gen.match_spectrum(again[0], arrays[0], 'eigenvalues computed afterwards')
        else:
            kw2 = dict(kw, put_array=self.put_array)
            X = self.handles(num, 1)
            calls = {
                'ip': lambda: mr.VectorSpaceHandles(**kw).compute_inner_product_array(X, X),
                'symm': lambda: mr.VectorSpaceHandles(**kw).compute_symm_inner_product_array(X),
                'sanity': lambda: mr.VectorSpaceHandles(**kw).sanity_check(X[0]),
                'pod ip': lambda: mr.PODHandles(None, **kw2).compute_decomp(X),
                'bpod ip': lambda: mr.BPODHandles(None, **kw2).compute_decomp(X, X),
                'dmd ip': lambda: mr.DMDHandles(None, **kw2).compute_decomp(X),
                'galerkin ip': lambda: mr.LTIGalerkinProjectionHandles(
                    None, X, **kw2).compute_model(X, X, [np.ones(1)] * num)}
            self.nothing_put(calls[req], 'no inner product: ' + req)

    def modes_of(self, obj, k, name):
        for m in ('proj', 'adjoint', 'exact'):
            hs = self.sinks(k, name + m)
            getattr(obj, 'compute_%s_modes' % m)(list(range(k)), hs)
            for i, h in enumerate(hs):
                self.out['%s %s %d' % (name, m, i)] = ops.read(h.path)

    def do_arrays(self, c):
        n, num, req, mis = c['n'], c['num'], c['request'], c['misfit']
        X, Y = gen.rand((n, num), c['seed'], c['cplx']), gen.rand(
            (n, num), c['seed'] + 1, c['cplx'])
        rows, cols = n + c['extra'], max(1, num + c['extra'])
        if cols == num:
            cols = num + 1
        w, idx = None, 'ok'
        kind = req.split('_')[0]
        if mis == 'weights length':
            w = np.ones(max(2, rows))
        elif mis == 'weights size':
            w = np.eye(max(2, rows))
        elif mis == 'weights 3D':
            w = np.ones((n, n, 2))
        elif mis == 'index':
            if kind == 'galerkin':
                mis = 'rows'
            else:
                idx = [0, num + abs(c['extra']) + 1]
        if mis in ('rows', 'columns') and (kind == 'POD' or (kind == 'BPOD' and mis == 'columns')):
            w = np.ones((n, n, 2))      # one data set fits in any case
        elif mis == 'rows':
            Y = gen.rand((rows, num), c['seed'] + 1, c['cplx'])
        elif mis == 'columns':
            Y = gen.rand((n, cols), c['seed'] + 1, c['cplx'])
        kw = {} if w is None else dict(inner_product_weights=w)
        what = '%s with misfitting %s' % (req, mis)
        if kind == 'galerkin':
            refused(lambda: mr.LTIGalerkinProjectionArrays(
                X, adjoint_basis_vecs=Y, **kw).compute_model(X, X, X), what)
            return
        if kind == 'BPOD':
            if idx != 'ok':
                kw[['direct_mode_indices', 'adjoint_mode_indices'][c['at'] % 2]] = idx
            refused(lambda: mr.compute_BPOD_arrays(X, Y, num_inputs=num, num_outputs=Y.shape[1],
                                                   **kw), what)
            return
        f = getattr(mr, 'compute_%s_arrays_%s_method' % (kind, req.split('_')[1]))
        if idx != 'ok':
            kw['mode_indices'] = idx
        adv = {} if kind == 'POD' else dict(adv_vecs=Y)
        refused(lambda: f(X, **dict(adv, **kw)), what)

    def do_other(self, c):
        n, m, e, req = c['n'], c['m'], c['extra'], c['request']
        r = gen.rng(c['seed'])
        d = self.env.scratch
        path = lambda i: os.path.join(d, 'f%d.txt' % i)
        if req == 'ERA 4D':
            refused(lambda: mr.ERA(verbosity=0).compute_model(r.randn(8 * n, m, m, 1), 1), req)
        elif req == 'ERA samples':
            big = n + e
            total = 2 * n + (c['seed'] % 2)
            mc = max(1, 2 * n - e)
            mo = 2 * n - 2 - mc + e      # mo + mc + 2 = 2 n + e
            refused(lambda: mr.ERA(verbosity=0).compute_model(
                r.randn(total, m, m), 1, mc=mc, mo=mo), req)
        elif req == 'sampled format':
            refused(lambda: mr.make_sampled_format(np.arange(n + 1 + (e if c['sign'] > 0 else 0)),
                                                   r.randn(n + 1 + (e if c['sign'] < 0 else 0), m, m)),
                    req)
        elif req == 'sampled times':
            t = np.arange(n + 2.)
            t[1 + e % n] += .1 * c['sign']
            refused(lambda: mr.make_sampled_format(t, r.randn(n + 2, m, m)), req)
        elif req == 'OKID':
            a, b = r.randn(m, 20 + n), r.randn(m, 20 + n + e)
            refused(lambda: mr.OKID(*((a, b) if c['sign'] > 0 else (b, a)) + (2,)), req)
        elif req == 'eig scale':
            refused(lambda: mr.eig_biorthog(r.randn(n, n), scale_choice=['up', '', 'l', 'lefty',
                                                                         'both'][e]), req)
        elif req == 'save 3D':
            refused(lambda: mr.save_array_text(r.randn(n, m, e), path(0)), req)
            need(not os.path.exists(path(0)) or os.path.getsize(path(0)) == 0,
                 'a refused array was saved')
        elif req == 'load odd':
            mr.save_array_text(r.randn(n, 2 * m - 1), path(0))
            refused(lambda: mr.load_array_text(path(0), is_complex=True), req)
        elif req == 'signals':
            mr.save_array_text(r.randn(n), path(0))
            refused(lambda: mr.load_signals(path(0)), req)
        elif req == 'signals times':
            t = np.arange(float(n))
            for i in range(e + 1):
                t2 = t.copy()
                if i == e:
                    t2[c['seed'] % n] += .3 * c['sign']
                mr.save_array_text(np.column_stack((t2, r.randn(n, m))), path(i))
            refused(lambda: mr.load_multiple_signals([path(i) for i in range(e + 1)]), req)
        elif req == 'trapz grids':
            refused(lambda: mr.InnerProductTrapz(), req)
        elif req == 'trapz type':
            grids = [np.arange(float(n)) for _ in range(m)]
            grids[e % m] = [list(range(n)), tuple(range(n)), n][e % 3]
            refused(lambda: mr.InnerProductTrapz(*grids), req)
        elif req == 'trapz shape':
            shape = [n] * m
            ip = mr.InnerProductTrapz(*[np.arange(float(n)) for _ in range(m)])
            bad = list(shape)
            bad[e % m] += e if c['sign'] > 0 else 1 - n
            if bad == shape:
                bad = shape + [1]
            v = [np.ones(shape), np.ones(bad)]
            for a, b in ((0, 1), (1, 0), (1, 1)):
                refused(lambda: ip(v[a], v[b]), req)
        elif req == 'weights 3D':
            refused(lambda: mr.VectorSpaceArrays(weights=np.ones((2, n, m + 1))), req)
        elif req == 'sum_lists':
            a, b = list(range(n)), list(range(n + e))
            refused(lambda: mr.sum_lists(*((a, b) if c['sign'] > 0 else (b, a))), req)


def scenario(case, env):
    r = Runner(case, env)
    r.run()
    return sorted(r.vec_log)


def run_case(name, case, ctx):
    p = case.get('procs', 1)
    ctx.label('%s %s' % (case['request'], case.get('misfit', '')), 'ranks:%d' % p)
    if p == 1:
        scenario(case, scen.Env(0, 1, ctx.scratch(), case))
    else:
        import pool
        logs = pool.run(p, 'c29', case, ctx.check)
        put = [x for l in logs for x in l if x.startswith(('bad', 'more'))]
        need(not put, 'put although refused: %s', put)
    ctx.nontrivial()

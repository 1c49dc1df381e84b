"""C22: Galerkin projection, call histories, and time derivatives."""
import hypothesis.strategies as st
import numpy as np

import decomp
import gen
import vecs
from decomp import rel
from gen import close, exact, need, need_shape
import modred as mr

ID = 'C22'
RULE = ('bases and adjoint bases, weights, and histories of reduce/put/compute_model calls on '
        'one object; derivatives of vector sets; non-trivial = at least two basis vectors and '
        'two calls (galerkin), at least two vectors (derivs)')
ASSUMPTIONS = ['adjoint_basis^* W basis has condition number below 1e5 when its inverse is '
               'needed']
OPS = ['A', 'B', 'C', 'model', 'putA', 'putB', 'putC', 'putmodel']


@st.composite
def cases(draw, impl, sizes=st.integers(1, 8)):
    n = draw(sizes)
    r = n - draw(st.integers(0, n - 1))
    return dict(
        impl=impl, n=n, r=r, p=draw(st.integers(1, 4)), q=draw(st.integers(1, 4)),
        basis=draw(st.sampled_from(['general', 'general', 'orthonormal', 'biorthonormal'])),
        adjoint=draw(st.sampled_from(['none', 'same', 'other', 'other', 'rebased'])),
        declared=draw(st.booleans()), seed=draw(gen.seeds()),
        scale=draw(st.sampled_from([1., 1e-3, 1e3])),
        units=draw(st.sampled_from([[1., 1., 1.]] * 2 + [
            [1e-12, 1., 1.], [1., 1e-12, 1e9], [1e10, 1e8, 1e-13], [1e-9, 1e-9, 1e-9]])),
        bcplx=draw(st.booleans()), acplx=draw(st.booleans()),
        w=draw(st.sampled_from(gen.WEIGHTS)), aslist=draw(st.booleans()),
        c1d=draw(st.booleans()),
        ops=[['A', 0], ['B', 0]][:draw(st.integers(0, 2))] + draw(st.lists(
            st.tuples(st.sampled_from(OPS), st.integers(0, 2)).map(list),
            min_size=1, max_size=8)),
        **{k: draw(v) for k, v in decomp.handle_fields().items()})


@st.composite
def deriv_cases(draw):
    return dict(
        n=2 * draw(st.integers(1, 3)), num=draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 60))),
        dt=draw(st.sampled_from([1, 2, -3, .1, -.25, 1e-4, 1e3, 7, 1 + 1e-9, 1e-15, -1e20])),
        dtype=draw(st.sampled_from(['float', 'int', 'complex'])),
        impl=draw(st.sampled_from(['arrays', 'handles'])),
        mismatch=draw(st.sampled_from([None, None, 'adv', 'deriv', 'vec'])),
        aslist=draw(st.booleans()), seed=draw(gen.seeds()),
        **{k: draw(v) for k, v in decomp.handle_fields().items()})


def strategies(tier):
    k = 2 if tier == 'quick' else 15
    return [('galerkin', cases('arrays'), 400 * k), ('galerkin', cases('handles'), 400 * k),
            ('galerkin', cases('arrays', st.integers(9, 40)), 15 * k),
            ('galerkin', cases('handles', st.integers(9, 25)), 10 * k),
            ('derivs', deriv_cases(), 300 * k),
            ('standard', st.fixed_dictionaries(dict(n=st.integers(1, 12))), 12),
            ('refuse', st.fixed_dictionaries(dict(
                n=st.integers(2, 6), r=st.integers(1, 5), r2=st.integers(1, 5),
                n2=st.integers(2, 6), seed=gen.seeds())), 60 * k)]


def bases(case, W, R):
    n, r, seed, c = case['n'], case['r'], case['seed'], case['bcplx']
    if case['basis'] == 'orthonormal':
        Phi = np.linalg.solve(R, gen.ortho(n, r, seed + 1, c))
    else:
        Phi = np.linalg.solve(R, gen.ortho(n, r, seed + 1, c).dot(
            np.diag(gen.spread(r, .3, 2., seed)) + .3 * gen.rand((r, r), seed + 2, c) / r))
        Phi = Phi * case['scale']
    if case['adjoint'] == 'none':
        return Phi, None
    if case['adjoint'] == 'same':
        return Phi, Phi.copy()
    if case['adjoint'] == 'rebased':
        return Phi, -2. * (Phi - rebase(case)[:, None])
    Psi = Phi / case['scale'] + .5 * np.linalg.solve(R, gen.rand((n, r), seed + 3, c)) / n
    if case['basis'] == 'biorthonormal':
        Psi = Psi.dot(np.linalg.inv(Psi.conj().T.dot(W).dot(Phi)).conj().T)
    return Phi, Psi


def vtype(case):
    return case['vt'] if not (case['vt'] == 'nd2' and case['n'] % 2) else 'nd1'


def rebase(case):
    return .5 * case['scale'] * gen.rand((case['n'],), case['seed'] + 4, case['bcplx'])


def run_galerkin(case, ctx):
    warg, W, R = gen.weights(case['w'], case['n'], case['seed'])
    Phi, Psi = bases(case, W, R)
    adj = Phi if Psi is None else Psi
    M = adj.conj().T.dot(W).dot(Phi)
    declared, n, r = case['declared'], case['n'], case['r']
    if not declared and np.linalg.cond(M) > 1e5:
        ctx.label('ill conditioned')
        return
    proj = np.eye(r) if declared else np.linalg.inv(M)
    data = dict(
        A=[gen.rand((n, r), case['seed'] + 10 + i, case['acplx']) for i in range(3)],
        B=[gen.rand((n, case['p']), case['seed'] + 20 + i, case['acplx']) for i in range(3)],
        C=[gen.rand((case['q'], r), case['seed'] + 30 + i, case['acplx']) for i in range(3)])
    for key, u in zip('ABC', case.get('units', [1.] * 3)):
        data[key] = [u * x for x in data[key]]
    want = dict(A=[proj.dot(adj.conj().T.dot(W).dot(a)) for a in data['A']],
                B=[proj.dot(adj.conj().T.dot(W).dot(b)) for b in data['B']],
                C=data['C'])
    saved = {}

    def put(arr, dest):
        need(dest not in saved, 'two arrays were put to %s', dest)
        saved[dest] = np.array(arr)

    env = decomp.env_of(ctx, case)
    keep = []

    def source(key, i):
        X = data[key][i]
        if case['impl'] == 'arrays':
            if key == 'C' and case['c1d'] and case['q'] == 1:
                X = X[0]
            if case['aslist']:
                return X.tolist()
            X = X.copy()
            keep.append((X, X.copy()))
            return X
        if key == 'C':
            return [X[:, j].copy() for j in range(X.shape[1])]
        hs = decomp.handles(X, case, env, '%s%d_%d' % (key, i, len(keep)))
        keep.append((hs, X))
        return hs

    if case['impl'] == 'arrays':
        f = (lambda a: a.tolist()) if case['aslist'] else (lambda a: a)
        kw = dict(is_basis_orthonormal=declared, put_array=put)
        if warg is not None:
            kw['inner_product_weights'] = f(warg)
        if Psi is not None:
            kw['adjoint_basis_vecs'] = f(Psi)
        gal = mr.LTIGalerkinProjectionArrays(f(Phi), **kw)
    else:
        hb = decomp.handles(Phi, case, env, 'b')
        ha = None if Psi is None else decomp.handles(Psi, case, env, 'a')
        if case['adjoint'] == 'rebased' and case['ht'] in ('mem', 'pickle'):
            # handles of the same storage as the basis
            b = mr.VecHandleInMemory(vecs.make_vec(rebase(case), vtype(case)))
            ha = [mr.VecHandlePickle(h.vec_path, base_vec_handle=b, scale=-2.)
                  if case['ht'] == 'pickle' else
                  mr.VecHandleInMemory(h.vec, base_vec_handle=b, scale=-2.) for h in hb]
        kw = {}
        if case['max_vecs'] is not None:
            kw['max_vecs_per_node'] = case['max_vecs']
        gal = mr.LTIGalerkinProjectionHandles(
            decomp.ip_of(W), hb, adjoint_basis_vec_handles=ha,
            is_basis_orthonormal=declared, put_array=put, verbosity=0, **kw)
    Phi0, Psi0 = Phi.copy(), None if Psi is None else Psi.copy()
    tol = max(1e-9, 1e-13 * (1 if declared else np.linalg.cond(M)))
    current, n_put, calls = {}, 0, 0
    for op, i in case['ops']:
        if op in 'ABC':
            got = getattr(gal, 'reduce_' + op)(source(op, i))
            rel(got, want[op][i], 'reduced ' + op, tol)
            current[op] = i
            calls += 1
        elif op == 'model':
            got = gal.compute_model(source('A', i), source('B', i), source('C', i))
            need(len(got) == 3, 'compute_model returned %d results', len(got))
            for key, g in zip('ABC', got):
                rel(g, want[key][i], '%s of compute_model' % key, tol)
                current[key] = i
            calls += 2
        else:
            keys = 'ABC' if op == 'putmodel' else op[3]
            if not all(k in current for k in keys):
                continue
            dests = ['%s_%d' % (k, n_put) for k in keys]
            n_put += 1
            if op == 'putmodel':
                gal.put_model(*dests)
            else:
                getattr(gal, 'put_%s_reduced' % keys)(*dests)
            for k, d in zip(keys, dests):
                need(d in saved, '%s was not saved', k)
                exact(saved[d], getattr(gal, k + '_reduced'), 'saved ' + k)
                rel(saved[d], want[k][current[k]], 'saved ' + k, tol)
            calls += 1
        for k, j in current.items():
            rel(getattr(gal, k + '_reduced'), want[k][j], k + '_reduced', tol)
    for src, orig in keep:
        if isinstance(src, list):
            vecs.handles_unchanged(src, orig, 'input vector')
        else:
            exact(src, orig, 'input array afterwards')
    exact(Phi, Phi0, 'basis afterwards')
    if Psi is not None:
        exact(Psi, Psi0, 'adjoint basis afterwards')
    if case['impl'] == 'handles':
        vecs.handles_unchanged(hb, Phi, 'basis vector')
    ctx.nontrivial(r > 1 and calls > 1)
    ctx.label('units:%s' % case.get('units'))
    ctx.label('impl:' + case['impl'], 'w:' + case['w'], 'basis:' + case['basis'],
              'adjoint:' + case['adjoint'], declared and 'declared orthonormal',
              declared and case['basis'] == 'general' and 'declared but general',
              n_put and 'puts', (case['bcplx'] or case['acplx']) and 'complex',
              case['bcplx'] != case['acplx'] and 'mixed types',
              case['p'] != case['q'] and case['p'] != r and 'p, q, r differ')


def run_derivs(case, ctx):
    def arr(seed):
        a = gen.rand((case['n'], case['num']), seed, case['dtype'] == 'complex', 'int')
        return a.real.astype(int) if case['dtype'] == 'int' else a
    X, Y = arr(case['seed']), arr(case['seed'] + 1)
    want = (Y.astype(complex) - X) / case['dt']
    if case['dtype'] != 'complex':
        want = want.real
    ctx.nontrivial(case['num'] > 1)
    ctx.label('derivs:' + case['impl'], case['mismatch'] and 'mismatch',
              isinstance(case['dt'], int) and case['dtype'] == 'int' and 'all integers')
    if case['impl'] == 'arrays':
        x, y = (X.tolist(), Y.tolist()) if case['aslist'] else (X.copy(), Y.copy())
        rel(mr.compute_derivs_arrays(x, y, case['dt']), want, 'derivatives', 1e-12)
        exact(np.array(x), X, 'vecs afterwards')
        exact(np.array(y), Y, 'adv_vecs afterwards')
        return
    env = decomp.env_of(ctx, case)
    hx, hy = decomp.handles(X, case, env, 'x'), decomp.handles(Y, case, env, 'y')
    sinks = [decomp.MemSink() for _ in range(case['num'])]
    mm = case['mismatch']
    if mm:
        a, b, c = list(hx), list(hy), list(sinks)
        {'vec': a, 'adv': b, 'deriv': c}[mm].append(
            {'vec': hx[0], 'adv': hy[0], 'deriv': decomp.MemSink()}[mm])
        for args in ((a, b, c), (hx[:case['num'] - (mm == 'vec')],
                                 hy[:case['num'] - (mm == 'adv')],
                                 sinks[:case['num'] - (mm == 'deriv')])):
            try:
                mr.compute_derivs_handles(args[0], args[1], args[2], case['dt'])
            except RuntimeError:
                pass
            else:
                need(False, 'different numbers of vectors were accepted')
            need(not any(s.puts for s in sinks), 'put before the error')
    mr.compute_derivs_handles(hx, hy, sinks, case['dt'])
    for i, s in enumerate(sinks):
        need(s.puts == 1, 'derivative %d was put %d times', i, s.puts)
        rel(s.value.ravel(), want[:, i], 'derivative %d' % i, 1e-12)
    vecs.handles_unchanged(hx, X, 'vector')
    vecs.handles_unchanged(hy, Y, 'advanced vector')


def run_refuse(case, ctx):
    a = gen.rand((case['n'], case['r']), case['seed'])
    b = gen.rand((case['n2'], case['r2']), case['seed'] + 1)
    ctx.nontrivial(a.shape != b.shape)
    if a.shape != b.shape:
        try:
            mr.LTIGalerkinProjectionArrays(a, adjoint_basis_vecs=b)
        except ValueError:
            pass
        else:
            need(False, 'bases of shapes %s and %s were accepted', a.shape, b.shape)
    if case['r'] != case['r2']:
        try:
            mr.LTIGalerkinProjectionHandles(
                vecs.ip_arr, vecs.make_handles(a, 'nd1', 'copy'),
                adjoint_basis_vec_handles=vecs.make_handles(b, 'nd1', 'copy'), verbosity=0)
        except ValueError:
            pass
        else:
            need(False, 'bases of %d and %d vectors were accepted', case['r'], case['r2'])


def run_case(name, case, ctx):
    if name == 'galerkin':
        return run_galerkin(case, ctx)
    if name == 'derivs':
        return run_derivs(case, ctx)
    if name == 'refuse':
        return run_refuse(case, ctx)
    got = mr.standard_basis(case['n'])
    ctx.nontrivial(case['n'] > 1)
    need(isinstance(got, list) and len(got) == case['n'], 'standard_basis returned %r', got)
    for i, v in enumerate(got):
        exact(v, np.eye(case['n'])[i], 'standard basis vector %d' % i)

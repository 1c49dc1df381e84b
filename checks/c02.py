"""C02: inner product arrays are the pairwise inner products."""
import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need, exact
import modred as mr
from modred.vectorspace import VectorSpaceArrays, VectorSpaceHandles

ID = 'C02'
RULE = ('cases: row/column vector lists (small-integer data times powers of two, so products are exact) x '
        'vector type x handle type x weights x max_vecs_per_node x progress-print '
        'settings, serially and on real MPI ranks; non-trivial = at least two vectors in '
        'one list and a product array that is not all zero')
ASSUMPTIONS = ['vector data are small integers times powers of two, so every product is exact in floating point']
SIZES = {'quick': [2, 3, 4], 'thorough': [2, 3, 4, 5, 6]}
# powers of two by which vectors are multiplied, cyclically: products stay exact
SCALES = st.one_of(st.just([0]), st.sampled_from([[-30], [-24], [40]]), st.lists(
    st.sampled_from([-55, -30, -21, -3, 0, 10, 50]), min_size=1, max_size=4))
DT = ['float', 'int', 'complex', 'float32', 'mixed']


@st.composite
def cases(draw, sizes):
    nproc = draw(sizes)
    rows = draw(st.integers(1, 9 if nproc == 1 else 14))
    cols = draw(st.one_of(st.integers(1, 4), st.integers(1, 14)))
    if nproc > 1 and draw(st.integers(0, 4)) == 0:
        rows, cols = draw(st.integers(10, 32)), draw(st.integers(1, 20))
    return dict(
        procs=nproc, n=2 * draw(st.integers(1, 3)), rows=rows, cols=cols,
        symm=draw(st.booleans()), seed=draw(gen.seeds()),
        dtype=draw(st.sampled_from(DT)), dtype2=draw(st.sampled_from(DT)),
        zero=draw(st.lists(st.integers(0, 13), max_size=3)),
        dup=draw(st.booleans()), scale=draw(SCALES),
        vt=draw(st.sampled_from(['nd1', 'nd2', 'plain'])),
        ht=draw(st.sampled_from(['mem', 'copy', 'copy', 'pickle', 'based'])),
        ip=draw(st.sampled_from(['vdot', 'item', '0d', 'w1', 'w2'])),
        share=draw(st.sampled_from([None] * 4 + [-2, .5])),
        single=draw(st.booleans()), cont=draw(st.sampled_from(['list', 'tuple'])),
        max_vecs=draw(st.one_of(st.integers(1, 5 * nproc), st.just(200), st.none())),
        verbosity=draw(st.integers(0, 1)),
        print_interval=draw(st.sampled_from([0, 10])),
        delays=[] if nproc == 1 else draw(st.lists(st.fixed_dictionaries(dict(
            rank=st.integers(0, nproc - 1), kind=st.sampled_from(['get', 'ip']),
            nth=st.integers(0, 6), ms=st.sampled_from([1, 10]))), max_size=2)))


@st.composite
def array_cases(draw):
    n = draw(st.integers(1, 6))
    return dict(
        n=n, rows=draw(st.integers(1, 6)), cols=draw(st.integers(1, 6)),
        seed=draw(gen.seeds()), dtype=draw(st.sampled_from(DT[:4])),
        dtype2=draw(st.sampled_from(DT[:4])), zero=[], dup=False, scale=draw(SCALES),
        layout=draw(st.sampled_from(['C', 'F', 'strided', 'reversed', 'swapped', 'readonly'])),
        w=draw(st.sampled_from(['none', 'w1', 'w1list', 'w2', 'w2list'])))


@st.composite
def large_cases(draw, sizes):
    """Many vectors."""
    case = draw(cases(sizes))
    case['rows'] = draw(st.one_of(st.integers(15, 80), st.sampled_from([64, 101, 128])))
    case['cols'] = draw(st.one_of(st.integers(1, 14), st.integers(15, 80)))
    case['ht'] = draw(st.sampled_from(['mem', 'copy']))
    case['max_vecs'] = draw(st.one_of(st.integers(1, 100), st.sampled_from([200, 10000, None])))
    return case


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('serial', cases(st.just(1)), 500 * k),
            ('serial', large_cases(st.just(1)), 12 * k),
            ('arrays', array_cases(), 300 * k),
            ('mpi', cases(st.sampled_from(SIZES[tier])), 220 * k),
            ('mpi', large_cases(st.sampled_from(SIZES[tier])), 12 * k)]


def data(case, which):
    num = case['rows'] if which == 0 else case['cols']
    dt = case['dtype'] if which == 0 else case['dtype2']
    cplx = dt in ('complex', 'mixed')
    X = gen.rand((case['n'], num), case['seed'] + 7 * which, cplx, 'int')
    if dt == 'mixed':               # the first vector happens to be real
        X[:, 0] = X[:, 0].real
    for z in case['zero']:
        X[:, z % num] = 0
    if case['dup']:
        X[:, num // 2] = X[:, 0]
    if dt != 'int':
        X = X * 2. ** np.array([
            case['scale'][i % len(case['scale'])] for i in range(num)])
    return X, dt


def typed(col, dt, index):
    if dt == 'int':
        return col.real.astype(int)
    if dt == 'float32':
        return col.real.astype(np.float32)
    if dt == 'mixed' and not np.any(col.imag):
        return col.real.copy()
    return col


def make_list(X, dt, case, env, name):
    cols = [typed(X[:, i], dt, i) for i in range(X.shape[1])]
    vt, ht = case['vt'], case['ht']
    hs = []
    for i, c in enumerate(cols):
        hs += vecs.make_handles(c.reshape((-1, 1)), vt, ht, env,
                                '%s%d' % (name, i))
    return hs


def int_weights(kind, n, seed):
    if kind in ('vdot', 'item', '0d', 'none'):
        return np.eye(n)
    r = gen.rng(seed + 3)
    if kind.startswith('w1'):
        return np.diag(r.randint(1, 5, size=n).astype(float))
    M = gen.rand((n, n), seed + 5, True, 'int')
    return M.conj().T.dot(M) + np.eye(n)


def scenario(case, env):
    """Runs on every rank; judges and returns the array."""
    X, dtx = data(case, 0)
    Y, dty = data(case, 1)
    W = int_weights(case['ip'], case['n'], case['seed'])

    def ip(v1, v2):
        env.hit('ip')
        if case['ip'] == 'vdot':
            return vecs.ip_arr(v1, v2)
        a, b = vecs.value_of(v1).ravel(), vecs.value_of(v2).ravel()
        if case['ip'] == 'item':
            return np.vdot(a, b).item()
        if case['ip'] == '0d':
            return np.tensordot(a.conj(), b, axes=1)
        return a.conj().dot(W).dot(b)

    rows = make_list(X, dtx, case, env, 'r')
    cols = make_list(Y, dty, case, env, 'c')
    if case.get('share') and case['ht'] in ('mem', 'pickle'):
        # the columns are the row vectors' storage, with another scale
        cols = [mr.VecHandlePickle(h.vec_path, scale=case['share'])
                if case['ht'] == 'pickle' else
                mr.VecHandleInMemory(h.vec, scale=case['share']) for h in rows]
        Y, dty = X * case['share'], 'shared'
    vs = VectorSpaceHandles(
        inner_product=ip, max_vecs_per_node=case['max_vecs'],
        verbosity=case['verbosity'], print_interval=case['print_interval'])
    box = list if case['cont'] == 'list' else tuple
    def arg(hs):
        return hs[0] if len(hs) == 1 and case['single'] else box(hs)
    if case['symm']:
        want = X.conj().T.dot(W).dot(X)
        got = vs.compute_symm_inner_product_array(arg(rows))
        need(np.array_equal(got, np.conj(np.asarray(got).T)), 'not exactly Hermitian')
    else:
        want = X.conj().T.dot(W).dot(Y)
        got = vs.compute_inner_product_array(arg(rows), arg(cols))
    exact(got, want, 'inner product array')
    need(np.asarray(got).dtype.kind in 'fic', 'dtype %s', np.asarray(got).dtype)
    if not np.any(want.imag) and dtx in ('int', 'float') and dty in (
            'int', 'float') and case['ip'] not in ('w2',):
        need(np.asarray(got).dtype.kind != 'c', 'real data gave a complex array')
    vecs.handles_unchanged(rows, X, 'row vector')
    vecs.handles_unchanged(cols, Y, 'column vector')
    return np.asarray(got), bool(np.any(want))


def run_arrays(case, ctx):
    X, dtx = data(case, 0)
    Y, dty = data(case, 1)
    X = gen.same_layouts(typed(X, dtx, 0), case['layout'])
    Y = gen.same_layouts(typed(Y, dty, 0), case['layout'])
    W = int_weights(case['w'], case['n'], case['seed'])
    warg = {'none': None, 'w1': np.diag(W).copy(), 'w1list': np.diag(W).tolist(),
            'w2': W, 'w2list': W.tolist()}[case['w']]
    vs = VectorSpaceArrays(weights=warg)
    X0, Y0 = X.copy(), Y.copy()
    ctx.nontrivial(np.any(X0) and np.any(Y0) and case['rows'] + case['cols'] > 2)
    ctx.label('w:' + case['w'], case['n'] == 1 and 'one state')
    exact(vs.compute_inner_product_array(X, Y), X0.conj().T.dot(W).dot(Y0),
          'array inner products')
    S = vs.compute_symm_inner_product_array(X)
    exact(S, X0.conj().T.dot(W).dot(X0), 'symmetric array inner products')
    exact(S, vs.compute_inner_product_array(X, X), 'symmetric version')
    need(np.array_equal(S, S.conj().T), 'not exactly Hermitian')
    exact(X, X0, 'input data afterwards')
    exact(Y, Y0, 'input data afterwards')


def run_case(name, case, ctx):
    if name == 'arrays':
        return run_arrays(case, ctx)
    p = case['procs']
    ctx.label('symm' if case['symm'] else 'general', 'vt:' + case['vt'],
              'dtype:' + case['dtype'], 'ip:' + case['ip'],
              case['rows'] > case['cols'] and 'more rows than columns',
              case['max_vecs'] is not None and case['max_vecs'] < 3 * p and 'tiny memory',
              case['rows'] < p and 'fewer vectors than ranks')
    if p == 1:
        import scen
        got, nz = scenario(case, scen.Env(0, 1, ctx.scratch(), case))
    else:
        import pool
        res = pool.run(p, 'c02', case, ctx.check)
        got, nz = res[0]
        for r, (other, _) in enumerate(res):
            exact(other, got, 'array on rank %d against rank 0' % r)
            need(other.dtype == got.dtype, 'dtype on rank %d', r)
    ctx.nontrivial(nz and max(case['rows'], case['cols']) > 1)

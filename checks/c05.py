"""C05: results do not depend on the number of MPI processes or on timing."""
import hypothesis.strategies as st
import numpy as np

import gen
import ops
import scen
from gen import need, close

ID = 'C05'
RULE = ('cases: operation x data x memory limit x number of ranks x injected delays; run '
        'serially and on real MPI ranks and compared; non-trivial = the operation really '
        'used at least two data vectors')
ASSUMPTIONS = ['delays are injected in the user-supplied callbacks (get, put, inner product, '
               'put_array), the only points where the schedule can be controlled',
               'data are small integers so correlation arrays are exact']
SIZES = {'quick': [2, 3, 4], 'thorough': [2, 3, 4, 5, 6]}
NODES = {'quick': [(0, 1), (0, 1, 1, 0)],
         'thorough': [(0, 1), (0, 1, 1, 0), (0, 1, 2), (3, 3, 4), (5, 4, 3, 0, 0)]}


def op_fields(draw, op, nproc, delay_kinds, ms):
    return dict(
        op=op, n=draw(st.integers(8, 14)),
        num=draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 20))),
        num2=draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 20))),
        cplx=draw(st.booleans()), seed=draw(gen.seeds()),
        weights=draw(st.sampled_from(['none', '1d', '2d'])),
        max_vecs=draw(st.one_of(st.integers(1, 4 * nproc), st.just(100))),
        modes=draw(st.lists(st.integers(0, 6), max_size=5)),
        inputs=draw(st.integers(1, 3)), outputs=draw(st.integers(1, 3)),
        max_eig=draw(st.sampled_from([None, None, 1, 2, 3])),
        pair=draw(st.booleans()), orthonormal=draw(st.booleans()),
        delays=draw(st.lists(st.fixed_dictionaries(dict(
            rank=st.integers(0, nproc - 1),
            kind=st.sampled_from(delay_kinds),
            nth=st.sampled_from([-1, 0, 0, 1, 2, 3]),
            ms=st.sampled_from(ms))), max_size=3)))


@st.composite
def cases(draw, op, sizes):
    nproc = draw(sizes)
    hosts = None
    if isinstance(nproc, tuple):
        nproc, hosts = len(nproc), list(nproc)
    return dict(op_fields(draw, op, nproc, ['get', 'ip', 'put', 'put_array', 'get_array'],
                          [1, 3]), procs=nproc, hosts=hosts)


@st.composite
def refuse_cases(draw, sizes):
    return dict(procs=draw(sizes), seed=draw(gen.seeds()), n=draw(st.integers(3, 6)),
                num=draw(st.integers(2, 3)),
                weights=draw(st.sampled_from(['none', '1d', '2d'])),
                opt=draw(st.booleans()))


@st.composite
def history_cases(draw, sizes):
    nproc = draw(sizes)
    steps = st.fixed_dictionaries(dict(
        op=st.sampled_from(['ip', 'symm', 'lin', 'lin', 'derivs']), num=st.integers(1, 16),
        num2=st.integers(1, 16), k=st.integers(0, 50)))
    return dict(op_fields(draw, 'history', nproc, ['get', 'ip', 'put'], [1, 3]), procs=nproc,
                steps=draw(st.lists(steps, min_size=2, max_size=6)))


@st.composite
def file_cases(draw, sizes):
    nproc = draw(sizes)
    steps = st.fixed_dictionaries(dict(
        op=st.sampled_from(['ip', 'symm', 'lin', 'lin', 'derivs']),
        pick=st.lists(st.integers(0, 9), min_size=1, max_size=6),
        pick2=st.lists(st.integers(0, 9), min_size=1, max_size=6),
        dest=st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5]), min_size=1, max_size=4)))
    return dict(op_fields(draw, 'files', nproc, ['ip'], [1, 3]), procs=nproc,
                handle=draw(st.sampled_from(['text', 'pickle'])),
                layout=draw(st.lists(st.tuples(
                    st.sampled_from([0, 0, 1, 2]), st.sampled_from([None, 1., -.5])),
                    min_size=2, max_size=6)),
                steps=draw(st.lists(steps, min_size=2, max_size=7)))


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    nodes = st.sampled_from(NODES[tier])
    sizes = st.sampled_from(SIZES[tier])
    return [('compare', history_cases(sizes), 40 * k),
            ('compare', file_cases(sizes), 60 * k)] + [('refuse', refuse_cases(sizes), 12 * k)] + [
        ('compare', cases(op, sizes), 24 * k) for op in ops.OPS] + [
        ('compare', cases(op, nodes), 4 * k) for op in ops.OPS]


def compare(a, b, what, tol):
    need(list(a) == list(b), '%s: results %s against %s', what, list(a), list(b))
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        close(x, y, '%s: %s' % (what, k), tol,
              scale=max(1e-3, float(np.max(np.abs(y))) if y.size else 1.))


def refuse(case, env):
    import modred as mr
    n, num = case['n'], case['num']
    X = gen.rand((n, num), case['seed'])
    Y = gen.rand((n, num), case['seed'] + 1)
    w = gen.weights(case['weights'], n, case['seed'])[0]
    kw = dict(inner_product_weights=w)
    adv = dict(adv_vecs=Y) if case['opt'] else {}
    calls = dict(
        POD_snaps=lambda: mr.compute_POD_arrays_snaps_method(X, **kw),
        POD_direct=lambda: mr.compute_POD_arrays_direct_method(X, **kw),
        BPOD=lambda: mr.compute_BPOD_arrays(X, Y, **kw),
        DMD_snaps=lambda: mr.compute_DMD_arrays_snaps_method(X, **dict(kw, **adv)),
        DMD_direct=lambda: mr.compute_DMD_arrays_direct_method(X, **dict(kw, **adv)),
        TLS_snaps=lambda: mr.compute_TLSqrDMD_arrays_snaps_method(X, **dict(kw, **adv)),
        TLS_direct=lambda: mr.compute_TLSqrDMD_arrays_direct_method(X, **dict(kw, **adv)),
        Galerkin=lambda: mr.LTIGalerkinProjectionArrays(X, **kw))
    for name, f in calls.items():
        try:
            f()
        except RuntimeError:
            pass
        else:
            need(False, '%s ran on %d processes', name, env.size)


def run_case(name, case, ctx):
    import pool
    p = case['procs']
    ctx.label('ranks:%d' % p, case.get('hosts') and 'nodes:%d' % len(set(case['hosts'])),
              'op' in case and 'op:' + case['op'])
    if name == 'refuse':
        ctx.nontrivial()
        pool.run(p, 'c05_refuse', case, ctx.check)
        return
    ctx.nontrivial(case['num'] > 1)
    try:
        serial = ops.run(case, scen.Env(0, 1, ctx.scratch(), dict(case, delays=[])))
    except np.linalg.LinAlgError:
        ctx.label('singular (skipped)')     # e.g. singular basis product
        ctx.is_nontrivial = False
        return
    res = pool.run(pool.spec(case), 'ops_run', case, ctx.check)
    for r, got in enumerate(res):
        compare(got['out'], res[0]['out'], 'rank %d against rank 0' % r, 1e-11)
    compare(res[0]['out'], serial['out'],
            '%d processes against serial' % p, 1e-6)

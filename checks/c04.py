"""C04: the number of vectors in memory is bounded."""
import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need
import modred as mr
from modred import parallel
from modred.vectorspace import VectorSpaceHandles

ID = 'C04'
RULE = ('cases: operation x numbers of vectors x max_vecs_per_node x MPI ranks; the number '
        'of live user vectors per process is counted by the vector class itself; '
        'non-trivial = more vectors in the data set than the allowed number per process')
ASSUMPTIONS = ['a vector is alive from its construction until its Python object is freed',
               'several nodes are simulated by host names; each has as many ranks as any other']
SIZES = {'quick': [2, 3], 'thorough': [2, 3, 4, 5, 6]}
NODES = {'quick': [(0, 1), (0, 1, 0, 1)],
         'thorough': [(0, 1), (0, 1, 0, 1), (0, 1, 2), (3, 3, 4, 4, 5, 5)]}
OPS = ['ip', 'symm', 'lin', 'pod', 'bpod', 'dmd', 'dmd_pair', 'tls', 'tls_pair',
       'galerkin', 'derivs']
# temporaries of one operation: received/sent vectors, one sum, user-level sums
SLACK = 5


@st.composite
def cases(draw, sizes):
    nproc = draw(sizes)
    hosts = None
    if isinstance(nproc, tuple):
        nproc, hosts = len(nproc), list(nproc)
    per_node = nproc // len(set(hosts or [0]))
    op = draw(st.sampled_from(OPS[:3] * 2 + OPS))
    return dict(
        procs=nproc, hosts=hosts, per_node=per_node, op=op, num=draw(st.one_of(*[st.integers(1, 45)] * 6 + [st.integers(46, 140)])),
        num2=draw(st.one_of(st.integers(1, 45), st.integers(1, 3))),
        max_per_proc=draw(st.one_of(st.integers(1, 6), st.integers(1, 16))),
        extra=draw(st.integers(0, per_node - 1)), seed=draw(gen.seeds()))


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('serial', cases(st.just(1)), 220 * k),
            ('mpi', cases(st.sampled_from(SIZES[tier])), 160 * k),
            ('mpi', cases(st.sampled_from(NODES[tier])), 80 * k)]


def ip(v1, v2):
    return np.vdot(v1.arr, v2.arr)


def scenario(case, env):
    n = 48
    num, num2, seed, op = case['num'], case['num2'], case['seed'], case['op']
    maxn = case['max_per_proc'] * case['per_node'] + case['extra']
    def handles(k, s):
        X = gen.rand((n, k), seed + s)
        return [vecs.CountHandle(X[:, i].copy()) for i in range(k)]
    vecs.CountedVec.reset()
    base = vecs.CountedVec.live
    kw = dict(inner_product=ip, max_vecs_per_node=maxn, verbosity=0)
    if op in ('ip', 'symm', 'lin'):
        vs = VectorSpaceHandles(**kw)
        if op == 'ip':
            vs.compute_inner_product_array(handles(num, 1), handles(num2, 2))
        elif op == 'symm':
            vs.compute_symm_inner_product_array(handles(num, 1))
        else:
            vs.lin_combine(handles(num2, 0), handles(num, 1),
                           gen.rand((num, num2), seed))
    elif op == 'pod':
        obj = mr.PODHandles(**kw)
        obj.compute_decomp(handles(num, 1))
        k = len(obj.eigvals)
        obj.compute_modes(list(range(k)), handles(k, 0))
    elif op == 'bpod':
        obj = mr.BPODHandles(**kw)
        obj.compute_decomp(handles(num, 1), handles(num2, 2))
        k = len(obj.sing_vals)
        obj.compute_direct_modes(list(range(k)), handles(k, 0))
        obj.compute_adjoint_modes(list(range(k)), handles(k, 0))
    elif op in ('dmd', 'tls', 'dmd_pair', 'tls_pair'):
        obj = (mr.DMDHandles if op.startswith('dmd') else mr.TLSqrDMDHandles)(**kw)
        if op.endswith('pair'):
            obj.compute_decomp(handles(num, 1), handles(num, 2))
        else:
            obj.compute_decomp(handles(num + 1, 1))
        k = len(obj.eigvals)
        for f in (obj.compute_exact_modes, obj.compute_proj_modes,
                  obj.compute_adjoint_modes):
            f(list(range(k)), handles(k, 0))
    elif op == 'galerkin':
        k = min(num, n)
        gal = mr.LTIGalerkinProjectionHandles(
            ip, handles(k, 1), adjoint_basis_vec_handles=(
                handles(k, 2) if seed % 2 else None),
            max_vecs_per_node=maxn, verbosity=0)
        gal.compute_model(handles(k, 3), handles(num2, 4),
                          [np.ones(2) for _ in range(k)])
    else:
        mr.compute_derivs_handles(handles(num, 1), handles(num, 2), handles(num, 0), .1)
    return vecs.CountedVec.peak - base


def run_case(name, case, ctx):
    p = case['procs']
    allowed = max(3, case['max_per_proc'])
    if case['op'] == 'derivs':
        allowed = 3
    ctx.label('op:' + case['op'], 'ranks:%d' % p,
              case['hosts'] and 'nodes:%d' % len(set(case['hosts'])))
    ctx.nontrivial(max(case['num'], case['num2']) > (allowed + SLACK) * p)
    if p == 1:
        import scen
        peaks = [scenario(case, scen.Env(0, 1, None, case))]
    else:
        import pool
        peaks = pool.run(pool.spec(case), 'c04', case, ctx.check)
    for r, peak in enumerate(peaks):
        ctx.label('%s excess %d' % (case['op'], max(0, peak - allowed)))
        need(peak <= allowed + SLACK,
             'rank %d of %d held %d vectors at once, %d are allowed (op %s)',
             r, p, peak, allowed, case['op'])
    need(max(peaks) > 0, 'no vector was ever retrieved')

"""C07: collective puts are complete and visible when the call returns."""
import hypothesis.strategies as st
import numpy as np

import gen
import ops
from c05 import op_fields
from gen import need, exact

ID = 'C07'
RULE = ('cases: operation x data x ranks x delays inside the put callbacks; every rank reads '
        'every destination immediately after the call returns; non-trivial = a delay was '
        'injected in a put')
ASSUMPTIONS = ['destinations are files shared by the ranks of one node; delays of 3-25 ms are '
               'injected before and in the middle of a put']
SIZES = {'quick': [2, 3, 4], 'thorough': [2, 3, 4, 5, 6]}
PUTS = ['pod', 'bpod', 'dmd', 'dmd_pair', 'tls', 'tls_pair', 'galerkin', 'derivs', 'lin']


@st.composite
def cases(draw, op, sizes):
    p = draw(sizes)
    case = dict(op_fields(draw, op, p, ['put', 'put_mid', 'put_array', 'put_array_mid'],
                          [3, 12]), procs=p)
    case['delays'] = case['delays'] + [
        dict(rank=0, nth=-1, ms=4, kind=draw(st.sampled_from(['put_array', 'put_array_mid']))),
        dict(rank=draw(st.integers(0, p - 1)), nth=draw(st.integers(0, 4)), ms=25,
             kind=draw(st.sampled_from(['put', 'put_mid'])))]
    return case


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('visible', cases(op, st.sampled_from(SIZES[tier])),
             (30 if op in ('derivs', 'lin') else 14) * k) for op in PUTS]


def run_case(name, case, ctx):
    import pool
    p = case['procs']
    ctx.label('op:' + case['op'], 'ranks:%d' % p)
    if case['op'] == 'galerkin' and not case['orthonormal']:
        case = dict(case, orthonormal=True)      # never a singular basis product
    res = pool.run(p, 'ops_run', case, ctx.check)
    ctx.nontrivial(any(d['kind'].startswith('put') for d in case['delays']))
    need(res[0]['arrays'] or case['op'] in ('derivs', 'lin', 'dmd', 'tls'),
         'no array was put')
    need(len(set(res[0]['arrays'])) == len(res[0]['arrays']),
         'an array was put more than once: %s', res[0]['arrays'])
    for r in range(1, p):
        need(not res[r]['arrays'], 'rank %d put arrays %s', r, res[r]['arrays'])
    allv = [v for x in res for v in x['vecs']]
    need(len(set(allv)) == len(allv), 'vectors put more than once: %s', sorted(allv))
    out = res[0]['out']
    for x in res:
        for k, v in x['out'].items():
            if k.startswith('saved '):
                exact(v, out[k], '%s as read by different ranks' % k)
    for k, v in out.items():
        base = k[6:].rstrip('2')
        if base[:2] in ('a_', 'b_'):
            base = base[2:]
        if k.startswith('saved ') and base in out:
            ctx.label('array:' + base)
            exact(np.asarray(v), np.asarray(out[base]), '%s against the computed array' % k)

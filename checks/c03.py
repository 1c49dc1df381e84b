"""C03: linear combinations."""
import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need, exact
from c02 import SCALES, typed
from modred.vectorspace import VectorSpaceArrays, VectorSpaceHandles

ID = 'C03'
RULE = ('cases: basis x coefficients x column selection x vector/handle type x memory limit, '
        'serially and on real MPI ranks, small-integer data times powers of two so sums are exact; non-trivial = '
        'at least two basis vectors and a non-zero sum')
ASSUMPTIONS = ['data and coefficients are small integers times powers of two whose products are equal, '
               'so every sum is exact']
SIZES = {'quick': [2, 3, 4], 'thorough': [2, 3, 4, 5, 6]}


@st.composite
def cases(draw, sizes):
    nproc = draw(sizes)
    nb = draw(st.one_of(st.integers(1, 3), st.integers(1, 12)))
    ncol = draw(st.one_of(st.integers(1, 3), st.integers(1, 12)))
    sel = draw(st.one_of(st.none(), st.integers(0, ncol - 1), st.lists(
        st.integers(0, ncol - 1), min_size=1, max_size=ncol + 2)))
    return dict(
        procs=nproc, n=2 * draw(st.integers(1, 3)), nb=nb, ncol=ncol, sel=sel,
        selkind=draw(st.sampled_from(['list', 'array', 'tuple'])),
        seed=draw(gen.seeds()),
        dtype=draw(st.sampled_from(['float', 'int', 'complex'])),
        cdtype=draw(st.sampled_from(['float', 'int', 'complex'])),
        clayout=draw(st.sampled_from(['C', 'F', 'strided', 'reversed', 'list', 'swapped', 'readonly'])),
        oned=draw(st.booleans()), scale=draw(SCALES), total=draw(st.sampled_from(
            [0, 0, -60, 40])),
        vt=draw(st.sampled_from(['nd1', 'nd2', 'plain'])),
        ht=draw(st.sampled_from(['mem', 'copy', 'pickle'])),
        single=draw(st.booleans()),
        mismatch=draw(st.sampled_from([None] * 6 + ['basis', 'sums', 'basis+', 'sums+'])),
        max_vecs=draw(st.one_of(st.integers(1, 5 * nproc), st.just(200), st.none())),
        verbosity=draw(st.integers(0, 1)),
        print_interval=draw(st.sampled_from([0, 10])),
        delays=[] if nproc == 1 else draw(st.lists(st.fixed_dictionaries(dict(
            rank=st.integers(0, nproc - 1), kind=st.sampled_from(['get', 'put']),
            nth=st.integers(0, 6), ms=st.sampled_from([1, 10]))), max_size=2)))


@st.composite
def large_cases(draw, sizes):
    """Many vectors and sums."""
    case = draw(cases(sizes))
    case['nb'] = draw(st.one_of(st.integers(13, 90), st.sampled_from([64, 101, 128])))
    case['ncol'] = draw(st.one_of(st.integers(1, 12), st.integers(13, 90)))
    if case['sel'] is not None:
        case['sel'] = draw(st.one_of(st.integers(0, case['ncol'] - 1), st.lists(
            st.integers(0, case['ncol'] - 1), min_size=1, max_size=case['ncol'] + 2)))
    case['ht'] = draw(st.sampled_from(['mem', 'copy']))
    case['max_vecs'] = draw(st.one_of(st.integers(1, 100), st.sampled_from([200, 10000, None])))
    return case


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('serial', cases(st.just(1)), 500 * k),
            ('serial', large_cases(st.just(1)), 15 * k),
            ('arrays', cases(st.just(1)), 200 * k),
            ('mpi', cases(st.sampled_from(SIZES[tier])), 200 * k),
            ('mpi', large_cases(st.sampled_from(SIZES[tier])), 15 * k)]


class Sink(object):
    def __init__(self, env):
        self.puts, self.env = [], env

    def put(self, vec):
        self.env.hit('put')
        self.puts.append(vecs.value_of(vec).copy())

    def get(self):
        raise RuntimeError('destination handle was read')


def arrays_of(case):
    X = gen.rand((case['n'], case['nb']), case['seed'],
                 case['dtype'] == 'complex', 'int')
    X = typed(X, case['dtype'], 0) if case['dtype'] == 'int' else X
    C = gen.rand((case['nb'], case['ncol']), case['seed'] + 1,
                 case['cdtype'] == 'complex', 'int')
    if case['cdtype'] == 'int':
        C = C.real.astype(int)
    elif case['dtype'] != 'int':
        # large vectors with small coefficients and conversely; sums stay exact
        k = np.array([case['scale'][i % len(case['scale'])] for i in range(case['nb'])])
        X = X * 2. ** k
        C = C * 2. ** (case['total'] - k)[:, None]
    return X, C


def selection(case):
    sel = case['sel']
    if isinstance(sel, list):
        return {'list': list, 'array': np.array, 'tuple': tuple}[
            case['selkind']](sel)
    return sel


def expected(X, C, case):
    sel = case['sel']
    if sel is None:
        sel = list(range(C.shape[1]))
    elif not isinstance(sel, list):
        sel = [sel]
    return X.dot(C[:, sel])


def scenario(case, env):
    X, C = arrays_of(case)
    nb = X.shape[1]
    want = expected(X, C, case)
    basis = vecs.make_handles(X, case['vt'], case['ht'], env, 'b')
    coeff = C
    oned = case['oned'] and (nb == 1 or C.shape[1] == 1)
    if oned:
        coeff = C.ravel()
    coeff = gen.same_layouts(coeff, case['clayout'])
    C0 = np.array(coeff)
    sinks = [Sink(env) for _ in range(want.shape[1])]
    vs = VectorSpaceHandles(
        max_vecs_per_node=case['max_vecs'], verbosity=case['verbosity'],
        print_interval=case['print_interval'])
    sel = selection(case)
    args = [coeff] if sel is None else [coeff, sel]
    mm = case['mismatch']
    if mm is not None:
        basis_a, sinks_a = list(basis), list(sinks)
        extra = Sink(env)
        if mm == 'basis+':
            basis_a.append(basis[0])
        elif mm == 'basis':
            basis_a.pop()
        elif mm == 'sums+':
            sinks_a.append(extra)
        else:
            sinks_a.pop()
        skip = (not basis_a or not sinks_a or
                (oned and mm.startswith('basis')))
        if not skip:
            try:
                vs.lin_combine(sinks_a, basis_a, *args)
            except ValueError:
                pass
            else:
                need(False, 'mismatched counts (%s) were accepted', mm)
            need(not any(s.puts for s in sinks_a), 'put before the ValueError')
    one_sum = sinks[0] if len(sinks) == 1 and case['single'] else sinks
    one_basis = basis[0] if nb == 1 and case['single'] else basis
    vs.lin_combine(one_sum, one_basis, *args)
    vecs.handles_unchanged(basis, X, 'basis vector')
    exact(np.array(coeff), C0, 'coefficient array afterwards')
    return [s.puts for s in sinks]


def judge(case, per_rank):
    X, C = arrays_of(case)
    want = expected(X, C, case)
    for j in range(want.shape[1]):
        puts = [p for ranks in per_rank for p in ranks[j]]
        need(len(puts) == 1, 'sum handle %d received %d puts', j, len(puts))
        if case['vt'] == 'nd2':
            need(puts[0].ndim == 2, 'shape of the sum changed')
        exact(puts[0].ravel(), want[:, j], 'sum %d' % j)
    return bool(np.any(want))


def run_case(name, case, ctx):
    p = case['procs']
    ctx.label('sel:' + ('none' if case['sel'] is None else 'int' if
                        isinstance(case['sel'], int) else 'list'),
              case['mismatch'] and 'mismatch', 'vt:' + case['vt'],
              case['max_vecs'] is not None and case['max_vecs'] < 3 * p and 'tiny memory',
              case['ncol'] < p and 'fewer sums than ranks')
    if name == 'arrays':
        X, C = arrays_of(case)
        ctx.nontrivial(case['nb'] > 1 and np.any(X.dot(C)))
        X0, C0 = X.copy(), C.copy()
        sel = selection(case)
        want = expected(X, C, case)
        if isinstance(sel, int):
            want = want[:, 0]
        C = gen.same_layouts(C, case['clayout'])
        lay = 'C' if case['clayout'] == 'list' else case['clayout']
        X = gen.same_layouts(X, lay)
        vs = VectorSpaceArrays()
        got = vs.lin_combine(X, C, **({} if sel is None else
                                      dict(coeff_array_col_indices=sel)))
        exact(got, want, 'linear combination of arrays')
        exact(X, X0, 'basis afterwards')
        exact(np.array(C), C0, 'coefficients afterwards')
        return
    if p == 1:
        import scen
        per_rank = [scenario(case, scen.Env(0, 1, ctx.scratch(), case))]
    else:
        import pool
        per_rank = pool.run(p, 'c03', case, ctx.check)
    nz = judge(case, per_rank)
    ctx.nontrivial(nz and case['nb'] > 1)

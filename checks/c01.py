"""C01: task assignment is an ordered, balanced partition."""
import copy
import hypothesis.strategies as st
import numpy as np

import gen
from harness import fail
from modred import parallel

ID = 'C01'
RULE = ('cases: task list x weights x worker count (in-process worker counts 1-40 '
        'and real MPI pools of 2-6 ranks); non-trivial = at least 2 workers and at '
        'least 2 tasks')
MPI_SIZES = {'quick': [2, 3, 5], 'thorough': [2, 3, 4, 5, 6]}

weight = st.one_of(
    st.integers(0, 5).map(float), st.floats(0, 10, allow_nan=False),
    st.sampled_from([0., 1e-17, 1e-9, 1., 1e6, 1e17, .1, .2, .3]))

SCALES = st.sampled_from([1] * 6 + [1e40, 1e-40, 1e280])


@st.composite
def cases(draw, sizes):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 60)))
    wkind = draw(st.sampled_from(['none', 'uniform', 'general', 'zeros_tail']))
    if wkind == 'none':
        w = None
    elif wkind == 'uniform':
        w = [draw(st.sampled_from([1, 1., .1, 2.5, 7]))] * n
    else:
        w = draw(st.lists(weight, min_size=n, max_size=n))
        if wkind == 'zeros_tail' and n:
            k = draw(st.integers(1, n))
            w = w[:n - k] + [draw(st.sampled_from([0., 1e-18]))] * k
    if w is not None and wkind != 'zeros_tail':
        scale = draw(SCALES)
        w = [x * scale for x in w] if scale != 1 else w
    return dict(n=n, weights=w, wtype=draw(st.sampled_from(['list', 'array', 'tuple'])),
                ttype=draw(st.sampled_from(['index', 'str', 'list', 'dup', 'tuple_container'])),
                workers=draw(sizes))


@st.composite
def large_cases(draw):
    """Many tasks and workers; the weights follow from a seed."""
    n = draw(st.one_of(st.integers(61, 1100), st.sampled_from([128, 256, 1000, 4096])))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(['none', 'uniform', 'random', 'ints', 'heavy', 'sorted']))
    w = {'none': lambda: None, 'uniform': lambda: [1.] * n, 'random': lambda: r.rand(n).tolist(),
         'ints': lambda: r.randint(0, 6, n).tolist(), 'sorted': lambda: list(range(1, n + 1)),
         'heavy': lambda: (r.rand(n) ** -2).tolist()}[kind]()
    return dict(n=n, weights=w, wtype=draw(st.sampled_from(['list', 'array', 'tuple'])),
                ttype=draw(st.sampled_from(['index', 'str', 'list', 'dup', 'tuple_container'])),
                workers=draw(st.one_of(st.integers(2, 40), st.integers(41, 600))))


def strategies(tier):
    k = 3 if tier == 'quick' else 10
    return [
        ('inproc', cases(st.one_of(st.integers(1, 8), st.integers(1, 40))), 1500 * k),
        ('inproc', large_cases(), 60 * k),
        ('empty', st.fixed_dictionaries(dict(
            counts=st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=1, max_size=8),
            kind=st.sampled_from(['list', 'tuple', 'array', 'falsy']))), 200 * k),
        ('mpi', cases(st.sampled_from(MPI_SIZES[tier])), 150 * k)]


def make_tasks(case):
    n = case['n']
    t = case['ttype']
    if t == 'str':
        return ['task%d' % i for i in range(n)]
    if t == 'list':
        return [[i, i + 1] for i in range(n)]
    if t == 'dup':
        return [i // 2 for i in range(n)]
    if t == 'tuple_container':
        return tuple(range(10, 10 + n))
    return list(range(n))


def make_weights(case):
    w = case['weights']
    if w is None:
        return None
    return {'list': list, 'array': np.array, 'tuple': tuple}[case['wtype']](w)


def judge(case, got, empty):
    tasks = make_tasks(case)
    n, p, w = case['n'], case['workers'], case['weights']
    gen.need(len(got) == p, '%d assignment lists for %d workers', len(got), p)
    joined = [t for part in got for t in part]
    gen.need(joined == list(tasks),
             'assignments in rank order %r are not the task list %r', got, tasks)
    counts = [len(part) for part in got]
    if w is None or len(set(w)) == 1 and w[0] > 1e-100:
        gen.need(max(counts) - min(counts) <= 1,
                 'uniform weights but task counts %r', counts)
    elif n:
        bounds = np.concatenate(([0], np.cumsum(counts)))
        loads = [float(np.sum(w[bounds[k]:bounds[k + 1]])) for k in range(p)]
        total, big = float(np.sum(w)), float(np.max(w))
        # each worker is within half a task (or one whole first task) of the
        # average of what is left; what is left can drift by half a task / (p-k)
        limit = total / p + big * (1 + .5 * (1 + np.log(p)))
        gen.need(max(loads) <= limit * (1 + 1e-9) + 1e-300,
                 'load %g exceeds %g (loads %r)', max(loads), limit, loads)
    gen.need(bool(empty) == (min(counts) == 0),
             'empty-task test says %r for counts %r', empty, counts)


def run_inproc(case, ctx):
    p = case['workers']
    if not hasattr(parallel, '_num_MPI_workers'):
        p = case['workers'] = 1
    old = getattr(parallel, '_num_MPI_workers', None)
    try:
        if old is not None:
            parallel._num_MPI_workers = p
            if parallel.get_num_MPI_workers() != p:
                p = parallel.get_num_MPI_workers()
                case = dict(case, workers=p)
        tasks, w = make_tasks(case), make_weights(case)
        t0, w0 = copy.deepcopy(tasks), copy.deepcopy(w)
        args = (tasks,) if w is None else (tasks, w)
        got = parallel.find_assignments(*args)
        gen.need(tasks == t0, 'tasks were modified')
        gen.need(w is None or list(w) == list(w0), 'weights were modified')
        empty = parallel.check_for_empty_tasks(got)
    finally:
        if old is not None:
            parallel._num_MPI_workers = old
    judge(case, got, empty)


def run_empty(case, ctx):
    counts = case['counts']
    make = {'list': list, 'tuple': tuple, 'array': np.array,
            'falsy': lambda r: [0 for _ in r]}[case['kind']]
    tasks = [make(range(c)) for c in counts]
    got = parallel.check_for_empty_tasks(tasks)
    ctx.nontrivial(len(counts) > 1)
    ctx.label('some empty' if 0 in counts else 'none empty')
    gen.need(bool(got) == (0 in counts), 'empty-task test says %r for counts %r', got, counts)
    gen.need([len(t) for t in tasks] == counts, 'assignments were modified')


def run_case(name, case, ctx):
    if name == 'empty':
        return run_empty(case, ctx)
    ctx.nontrivial(case['workers'] >= 2 and case['n'] >= 2)
    w = case['weights']
    ctx.label('fewer tasks than workers' if case['n'] < case['workers'] else 'enough tasks',
              'unweighted' if w is None else 'weighted',
              w is not None and len(w) and min(w) == 0 and 'zero weights')
    if name == 'inproc':
        return run_inproc(dict(case), ctx)
    import pool
    res = pool.run(case['workers'], 'assign', case, ctx.check)
    for r, (got, empty) in enumerate(res):
        gen.need(got == res[0][0], 'rank %d has assignment %r, rank 0 %r',
                 r, got, res[0][0])
        judge(case, got, empty)

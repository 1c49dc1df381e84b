"""C06: collective helpers equal their sequential definitions."""
import copy
import functools

import hypothesis.strategies as st
import numpy as np

import gen
from gen import need

ID = 'C06'
RULE = ('cases: a history of collective calls (operation, values per rank, root) run on real '
        'MPI ranks with injected delays; non-trivial = a history with at least two ranks '
        'whose values differ')
ASSUMPTIONS = ['operations are associative; values are integers, strings, lists, tuples or '
               'small-integer arrays, so folds are exact']
SIZES = {'quick': [2, 3, 4, 5, 6, 8], 'thorough': [2, 3, 4, 5, 6, 7, 8]}
CALLS = ['reduce', 'allreduce', 'scan', 'exscan', 'bcast', 'call_and_bcast',
         'call_from_rank_zero', 'barrier', 'failing call']
OPS = ['default', 'sum', 'concat', 'matmul', 'prod', 'max', 'min', 'minloc',
       'maxloc', 'compose', 'array', 'first', 'last']


NODES = {'quick': [(0, 1), (0, 5, 0), (1, 2, 3, 1)],
         'thorough': [(0, 1), (0, 2, 0), (1, 2, 3, 1), (0, 3), (4, 0, 5, 0), (0, 0, 0, 5, 5)]}


@st.composite
def histories(draw, sizes, hosts=None):
    p = draw(sizes)
    steps = draw(st.lists(st.fixed_dictionaries(dict(
        call=st.sampled_from(CALLS[:4] * 2 + CALLS), op=st.sampled_from(OPS),
        root=st.integers(0, p - 1), seed=gen.seeds(),
        how=st.sampled_from(['kw', 'pos']),
        late=st.lists(st.integers(0, p - 1), max_size=2))), min_size=1, max_size=6))
    return dict(procs=p, steps=steps, hosts=hosts and list(hosts))


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('history', histories(st.just(p)), (60 if p < 6 else 25) * k) for p in SIZES[tier]] + [
        ('history', histories(st.just(len(h)), h), 8 * k) for h in NODES[tier]] + [
        ('serial', histories(st.just(1)), 60 * k)]


def value(step, rank):
    r = gen.rng(step['seed'] * 13 + rank)
    op = step['op']
    if op == 'concat':
        return [['a%d' % rank], 's%d;' % rank, (rank, r.randint(9))][step['seed'] % 3]
    if op == 'matmul':
        return r.randint(-2, 3, size=(2, 2))
    if op in ('array', 'default') and step['seed'] % 2:
        kind = step['seed'] // 2 % 6
        shape = {1: (120, 50), 2: [(2, 3), (1, 3), (3,), ()][rank % 4]}.get(kind, (2, 3))
        a = r.randint(-5, 6, size=shape)
        if kind == 3:       # of different types on different ranks
            return a.astype([int, float, complex, np.float32, np.int8][rank % 5])
        if kind == 4:
            return gen.same_layouts(a * 1., 'strided')
        return a * (1j if kind == 5 else 1.)
    if op == 'compose':
        return list(r.permutation(4))
    return int(r.randint(-4, 5))


def op_func(step):
    """(python fold function, argument given to modred or None)."""
    from mpi4py import MPI
    op = step['op']
    add = lambda a, b: a + b
    loc = lambda better: lambda a, b: (
        a if better(a[0], b[0]) else b if better(b[0], a[0]) else
        (a[0], min(a[1], b[1])))
    table = dict(
        default=(add, None), sum=(add, MPI.SUM), array=(add, MPI.SUM),
        concat=(add, add), matmul=(np.dot, np.dot),
        prod=(lambda a, b: a * b, MPI.PROD),
        max=(max, MPI.MAX), min=(min, MPI.MIN),
        minloc=(loc(lambda x, y: x < y), MPI.MINLOC),
        maxloc=(loc(lambda x, y: x > y), MPI.MAXLOC),
        compose=(lambda a, b: [b[i] for i in a],) * 2,
        first=(lambda a, b: a,) * 2, last=(lambda a, b: b,) * 2)
    return table[op]


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


class Boom(Exception):
    pass


class Unpicklable(Boom):
    def __reduce__(self):
        raise TypeError('cannot be pickled')


def scenario(case, env):
    import time
    from modred import parallel
    p, rank = env.size, env.rank
    out = []
    for i, step in enumerate(case['steps']):
        if rank in step['late']:
            time.sleep(.003)
        what = 'step %d %s/%s rank %d of %d' % (i, step['call'], step['op'], rank, p)
        vals = [value(step, r) for r in range(p)]
        mine = value(step, rank)
        keep = copy.deepcopy(mine)
        call = step['call']
        if call in ('reduce', 'allreduce', 'scan', 'exscan'):
            if parallel.custom_comm is None:
                continue
            fold, arg = op_func(step)
            if step['op'] in ('minloc', 'maxloc'):
                vals = [(v, r) for r, v in enumerate(vals)]
            f = getattr(parallel.custom_comm, call)
            kw = {} if arg is None else {'op': arg}
            if call == 'reduce' and (step['root'] or step['how'] == 'kw'):
                kw['root'] = step['root']
            got = f(sendobj=mine, **kw) if step['how'] == 'kw' else f(mine, **kw)
            if call == 'reduce':
                want = functools.reduce(fold, vals) if rank == kw.get('root', 0) else None
            elif call == 'allreduce':
                want = functools.reduce(fold, vals)
            elif call == 'scan':
                want = functools.reduce(fold, vals[:rank + 1])
            else:
                want = functools.reduce(fold, vals[:rank]) if rank else None
        elif call == 'bcast':
            got, want = parallel.bcast(mine), vals[0]
        elif call == 'barrier':
            got, want = parallel.barrier(), None
        elif call == 'failing call':
            err = [Boom, Unpicklable, TypeError, StopIteration, KeyError, OSError][
                step['seed'] % 6]('failed')
            calls = []
            def func(x, **kw):
                calls.append(kw)
                raise err
            kw = {'y': 3} if step['how'] == 'kw' else {}
            bc = step['root'] % 2 == 0 or p == 1 and step['seed'] % 4 < 2
            want = 'refused' if bc or rank == 0 else None
            try:
                got = (parallel.call_and_bcast if bc else parallel.call_from_rank_zero)(
                    func, mine, **kw)
            except Exception as e:
                got = 'refused'
                need(rank > 0 or e is err, '%s: exception became %r', what, e)
            need(calls == ([kw] if rank == 0 else []), '%s: function called %s', what, calls)
        else:
            calls = []
            form = step['seed'] % 4
            def func(*x, **kw):
                calls.append(x)
                if form == 0:
                    return None
                if form == 1:
                    return Boom('a value')
                return (x, kw, rank)
            x = () if form == 2 else (mine,)
            kw = {} if form == 3 else dict(y=step['root'])
            got = getattr(parallel, call)(func, *x, **kw)
            want = (vals[:len(x)], kw, 0)
            if rank == 0 or call != 'call_from_rank_zero':
                if form == 0:
                    want = None
                elif form == 1:
                    need(type(got) is Boom, '%s: returned exception became %r', what, got)
                    got = want = None
                else:
                    got = (list(got[0]),) + got[1:]
            if call == 'call_from_rank_zero' and rank:
                want = None
            need(len(calls) == (1 if rank == 0 else 0),
                 '%s: function called %d times', what, len(calls))
        need(same(got, want), '%s: got %r, expected %r', what, got, want)
        need(same(mine, keep), "%s: modified the caller's object", what)
    need(parallel.get_rank() == rank and parallel.get_num_procs() == p and
         parallel.get_num_MPI_workers() == p and parallel.is_rank_zero() == (rank == 0)
         and parallel.is_distributed() == (p > 1),
         'rank/size helpers are wrong on rank %d of %d', rank, p)
    hosts = case['hosts'] or [0] * p
    need(parallel.get_num_nodes() == len(set(hosts)), '%d nodes instead of %d on rank %d of %d',
         parallel.get_num_nodes(), len(set(hosts)), rank, p)
    if case['hosts']:
        import pool
        names = [pool.HOSTS[h] for h in hosts]
        need(parallel.get_hostname() == names[rank], 'host name is wrong')
        ids = parallel.comm.allgather(parallel.get_node_ID())
        need([ids.index(x) for x in ids] == [names.index(x) for x in names],
             'node IDs %s for hosts %s', ids, names)
    return True


def run_case(name, case, ctx):
    p = case['procs']
    ctx.nontrivial(p > 1 and any(
        not same(value(s, 0), value(s, p - 1)) for s in case['steps']))
    for s in case['steps']:
        ctx.label('call:' + s['call'])
    ctx.label('ranks:%d' % p, case['hosts'] and 'nodes:%d' % len(set(case['hosts'])))
    if p == 1:
        import scen
        scenario(case, scen.Env(0, 1, None, case))
    else:
        import pool
        pool.run(pool.spec(case), 'c06', case, ctx.check)

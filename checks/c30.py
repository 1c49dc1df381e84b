"""C30: without mpi4py everything works as in one MPI process."""
import os

import hypothesis.strategies as st
import numpy as np

import gen
import ops
import scen
from c05 import op_fields, compare
from gen import need
from modred import parallel, util
import modred as mr

ID = 'C30'
RULE = ('operation x data x memory limit, run in a process in which mpi4py cannot be imported and '
        'in one where it can, and compared; histories of parallel helpers; non-trivial = at '
        'least two data vectors or a helper called with a value')
ASSUMPTIONS = ['a missing mpi4py is simulated by making its import raise ImportError',
               'one process each']
MORE = ['arrays', 'files', 'identify', 'helpers']


class Runner(ops.Runner):
    def op_arrays(self):
        c = self.case
        num, seed = min(c['num'], c['n'] - 1), c['seed']
        X, Y = self.data(num + 1, 1), self.data(num + 1, 2)
        kw = dict(inner_product_weights=self.W if c['weights'] == '2d' else
                  np.diag(self.W).copy() if c['weights'] == '1d' else None)
        adv = dict(adv_vecs=Y) if c['pair'] else {}
        res = {
            'pod': mr.compute_POD_arrays_snaps_method(X, **kw),
            'podd': mr.compute_POD_arrays_direct_method(X, **kw),
            'bpod': mr.compute_BPOD_arrays(X, Y, **kw),
            'dmd': mr.compute_DMD_arrays_snaps_method(X, **dict(kw, **adv)),
            'dmdd': mr.compute_DMD_arrays_direct_method(X, **dict(kw, **adv)),
            'tls': mr.compute_TLSqrDMD_arrays_snaps_method(
                X, **dict(kw, max_num_eigvals=2, **adv)),
            'tlsd': mr.compute_TLSqrDMD_arrays_direct_method(
                X, **dict(kw, max_num_eigvals=2, **adv))}
        for k, r in res.items():
            self.keep(**{'%s_%d' % (k, i): x for i, x in enumerate(r)})
            self.keep(**{k + '_' + f: getattr(r, f) for f in r._fields})
        vs = mr.VectorSpaceArrays(weights=kw['inner_product_weights'])
        self.keep(vs=vs.compute_inner_product_array(X, Y), vss=vs.compute_symm_inner_product_array(X),
                  lin=vs.lin_combine(X, gen.rand((num + 1, 2), seed)))
        Q = np.linalg.qr(X)[0]
        gal = mr.LTIGalerkinProjectionArrays(Q, put_array=self.put_array, **kw)
        self.keep(**dict(zip(('gA', 'gB', 'gC'), gal.compute_model(
            self.data(num + 1, 3), self.data(2, 4), gen.rand((3, num + 1), seed)))))
        self.put(gal.put_model, 'A', 'B', 'C')
        self.keep(derivs=mr.compute_derivs_arrays(X, Y, .25))

    def op_files(self):
        """Default put_array/get_array and the handles that use files."""
        c = self.case
        X = self.data(c['num'], 1)
        cls = [mr.VecHandlePickle, mr.VecHandleArrayText][c['seed'] % 2]
        sub = lambda v: v[:, 0] if v.ndim == 2 else v
        def make(name, num):
            return [cls(self.env.path('%s%d' % (name, i))) for i in range(num)]
        hs = make('vec', c['num'])
        for h, x in zip(hs, X.T):
            h.put(x.reshape(-1, 1))
        base = cls(self.env.path('base'))
        base.put(self.data(1, 5))
        hs = [cls(self.env.path('vec%d' % i), base_vec_handle=base, scale=2.)
              for i in range(c['num'])]
        ip = lambda a, b: self.ip(sub(a), sub(b))
        pod = mr.PODHandles(ip, **self.kw())
        vals, vecs_ = pod.compute_decomp(hs, atol=1e-8)
        self.keep(vals=vals, vecs=vecs_)
        out = make('mode', len(vals))
        pod.compute_modes(range(len(vals)), out)
        for i, h in enumerate(out):
            self.out['mode%d' % i] = h.get()
        paths = [self.env.path(x) for x in ('vals.txt', 'vecs.txt')]
        pod.put_decomp(*paths)
        new = mr.PODHandles(ip, **self.kw())
        new.get_decomp(*paths)
        self.keep(nvals=new.eigvals, nvecs=new.eigvecs)

    def op_identify(self):
        c = self.case
        n, m, p, seed = min(4, c['num']), c['inputs'], c['outputs'], c['seed']
        A, B, C = (
            gen.ortho(n, n, seed, False).dot(np.diag(np.linspace(.2, .8, n))),
            gen.rand((n, m), seed + 1), gen.rand((p, n), seed + 2))
        M = util.impulse(A, B, C, 4 * n + 8)
        era = mr.ERA(put_array=self.put_array, verbosity=0)
        self.keep(**dict(zip(('eA', 'eB', 'eC'), era.compute_model(
            mr.make_sampled_format(np.arange(len(M)), M)[1], n))))
        self.put(era.put_model, 'A', 'B', 'C')
        self.put(era.put_decomp, 's', 'L', 'R', 'H', 'H2')
        u = gen.rand((60, m), seed + 3)
        y = util.lsim(A, B, C, u)
        self.keep(y=y, okid=mr.OKID(u.T, y.T, 5), bt=util.balanced_truncation(A, B, C)[0])

    def op_helpers(self):
        c = self.case
        tasks = list(range(c['num2']))
        w = list(gen.rng(c['seed']).randint(0, 9, len(tasks)) / 4.) if c['pair'] else None
        got = parallel.find_assignments(tasks, task_weights=w)
        need(got == [tasks], 'find_assignments gave %s', got)
        need(parallel.check_for_empty_tasks(got) == (not tasks), 'check_for_empty_tasks is wrong')
        val = {'x': [c['seed'], gen.rand((3,), c['seed'])]}
        need(parallel.bcast(val) is val or repr(parallel.bcast(val)) == repr(val), 'bcast is wrong')
        def f(a, b=0):
            calls.append(a)
            return [a, b]
        for func in (parallel.call_and_bcast, parallel.call_from_rank_zero):
            calls = []
            need(func(f, c['num'], b=c['seed']) == [c['num'], c['seed']] and calls == [c['num']],
                 '%s is wrong', func.__name__)
        need(parallel.barrier() is None, 'barrier is wrong')
        need((parallel.get_rank(), parallel.get_num_procs(), parallel.get_num_MPI_workers(),
              parallel.get_num_nodes(), parallel.is_rank_zero(), parallel.is_distributed()) ==
             (0, 1, 1, 1, True, False), 'ranks and sizes are wrong')
        self.keep(node=np.array([parallel.get_node_ID() % 1000003]),
                  host=np.array([ord(x) for x in parallel.get_hostname()]))


def scenario(case, env):
    import c26
    with c26.Captured() as cap:
        r = Runner(case, env)
        r.run()
        parallel.print_from_rank_zero('end')
    return dict(out=r.out, arrays=r.array_log, vecs=r.vec_log, text=cap.texts(),
                mpi=parallel.comm is not None)


@st.composite
def cases(draw, op):
    case = op_fields(draw, op, 1, ['get'], [0])
    case['delays'] = []
    case['verbosity'] = draw(st.sampled_from([0, 0, 1]))
    return case


@st.composite
def history_cases(draw):
    import c05
    return draw(c05.history_cases(st.just(1)))


def strategies(tier):
    import c06
    k = 1 if tier == 'quick' else 12
    return [('op', cases(op), 25 * k) for op in ops.OPS + MORE] + [
        ('op', history_cases(), 25 * k), ('helpers', c06.histories(st.just(1)), 60 * k)]


def run_case(name, case, ctx):
    import pool
    if name == 'helpers':
        ctx.nontrivial(len(case['steps']) > 1)
        ctx.label('history of helpers')
        pool.run('nompi', 'c06', case, ctx.check)
        return
    ctx.label('op:' + case['op'])
    ctx.nontrivial(case['num'] > 1)
    try:
        want = scenario(case, scen.Env(0, 1, ctx.scratch(), case))
    except np.linalg.LinAlgError:
        ctx.label('singular (skipped)')
        ctx.is_nontrivial = False
        return
    got, = pool.run('nompi', 'c30', case, ctx.check)
    if got['mpi'] or not want['mpi']:
        from harness import HarnessError
        raise HarnessError('mpi4py: %s, %s' % (want['mpi'], got['mpi']))
    compare(got['out'], want['out'], 'without mpi4py', 1e-9)
    need(got['arrays'] == want['arrays'] and got['vecs'] == want['vecs'],
         'put without mpi4py: %s, %s; with it: %s, %s', got['arrays'], got['vecs'],
         want['arrays'], want['vecs'])
    need([bool(t) for t in got['text']] == [bool(t) for t in want['text']] and
         got['text'][0].endswith('end\n'), 'printed without mpi4py: %r, with it: %r',
         got['text'], want['text'])

"""C26: messages obey the verbosity and come from rank zero only."""
import io
import sys
import warnings

import hypothesis.strategies as st
import numpy as np

import gen
import ops
import scen
from c05 import op_fields, compare
from gen import need
import modred as mr
from modred import parallel

ID = 'C26'
RULE = ('operation x data x memory limit (default, too small, any) x print interval x ranks, run '
        'silently and verbosely, standard output and error captured on every rank; messages x '
        'channels; non-trivial = at least two vectors (ops), non-empty message (print)')
ASSUMPTIONS = ['Python warnings (numpy) are not judged']
SIZES = {'quick': [1, 2, 3], 'thorough': [1, 2, 3, 4, 5]}


class Captured(object):
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.new = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.old

    def texts(self):
        return [s.getvalue() for s in self.new]


class Api(object):
    """modred; objects print as often as the case says."""
    def __init__(self, case, verbosity):
        self._case, self._verbosity = case, verbosity

    def __getattr__(self, name):
        val = getattr(mr, name)
        if not isinstance(val, type):
            return val
        def make(*args, **kw):
            if self._case['limit'] == 'default':
                kw.pop('max_vecs_per_node', None)
            elif self._case['limit'] == 'small':
                kw['max_vecs_per_node'] = 1
            kw['verbosity'] = self._verbosity
            obj = val(*args, **kw)
            space = getattr(obj, 'vec_space', obj)
            if hasattr(space, 'print_interval'):
                space.print_interval = self._case['interval']
            return obj
        return make


class Runner(ops.Runner):
    def op_sanity(self):
        kw = self.obj_kw()
        h = self.handles(1, 1)[0]
        for obj in (self.api.PODHandles(**kw), self.api.BPODHandles(**kw),
                    self.api.DMDHandles(**kw), self.api.TLSqrDMDHandles(**kw)):
            obj.sanity_check(h)
        self.api.VectorSpaceHandles(inner_product=self.ip).sanity_check(h)
        self.keep(done=1)


def scenario(case, env):
    with Captured() as c:
        if case['kind'] == 'print':
            kw = {} if case['channel'] is None else dict(output_channel=case['channel'])
            refused = None
            try:
                parallel.print_from_rank_zero(case['msg'], **kw)
            except ValueError as e:
                refused = str(e)
            return c.texts() + [refused]
        r = Runner(case, env, Api(case, case['verbosity']))
        r.run()
    return dict(text=c.texts(), out=r.out)


@st.composite
def op_cases(draw, op, sizes):
    p = draw(sizes)
    return dict(op_fields(draw, op, p, ['get'], [0]), procs=p, kind='op', delays=[],
                limit=draw(st.sampled_from(['default', 'small', 'small', 'given'])),
                interval=draw(st.sampled_from([0, 0, 10])))


@st.composite
def era_cases(draw):
    return dict(n=draw(st.integers(1, 3)), seed=draw(gen.seeds()), unstable=draw(st.booleans()),
                verbosity=draw(st.sampled_from([0, 0, 1])))


TEXT = st.text(st.characters(blacklist_categories=['Cs']), max_size=40)
CHANNELS = ['stdout', 'STDOUT', 'Stdout', 'stderr', 'STDERR', 'stdErr', 'out', '', 'stdin',
            'stdout ', None]


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    sizes = st.sampled_from(SIZES[tier])
    return [('op', op_cases(op, sizes), 22 * k) for op in ops.OPS + ['sanity']] + [
        ('era', era_cases(), 40 * k),
        ('print', st.fixed_dictionaries(dict(kind=st.just('print'), msg=TEXT, procs=sizes,
                                             channel=st.sampled_from(CHANNELS))), 150 * k)]


def run_case(name, case, ctx):
    if name == 'print':
        return run_print(case, ctx)
    if name == 'era':
        return run_era(case, ctx)
    p = case['procs']
    ctx.nontrivial(case['num'] > 1)
    ctx.label('op:' + case['op'], 'ranks:%d' % p, 'limit:' + case['limit'])
    if case['op'] == 'galerkin' and not case['orthonormal']:
        case = dict(case, orthonormal=True)      # never a singular basis product
    silent = run(dict(case, verbosity=0), ctx)
    for r, x in enumerate(silent):
        need(x['text'] == ['', ''], 'verbosity 0: rank %d of %d printed %r', r, p, x['text'])
    loud = run(dict(case, verbosity=1), ctx)
    for r, x in enumerate(loud[1:]):
        need(x['text'] == ['', ''], 'verbosity 1: rank %d of %d printed %r', r + 1, p, x['text'])
    used = loud[0]['out']
    if used and case['op'] != 'derivs' and case['limit'] != 'given':
        need(any(loud[0]['text']), 'verbosity 1: no warning about max_vecs_per_node (%s)',
             case['limit'])
    for r in range(p):
        compare(loud[r]['out'], silent[r]['out'], 'verbosity 1 against 0, rank %d' % r, 1e-7)


def run(case, ctx):
    if case['procs'] == 1:
        return [scenario(case, scen.Env(0, 1, ctx.scratch(), case))]
    import pool
    return pool.run(case['procs'], 'c26', case, ctx.check)


def run_print(case, ctx):
    msg, channel = case['msg'], case['channel']
    ctx.nontrivial(msg != '')
    ctx.label('channel:%s' % channel)
    want = {'STDOUT': [msg + '\n', ''], 'STDERR': ['', msg + '\n']}
    valid = channel is None or channel.upper() in want
    for r, res in enumerate(run(case, ctx)):
        what = 'print_from_rank_zero(%r, %r) on rank %d' % (msg, channel, r)
        need(not valid or res[2] is None, '%s was refused: %s', what, res[2])
        need(valid or r > 0 or res[2] is not None, '%s was not refused', what)
        need(res[:2] == (want[(channel or 'stdout').upper()] if valid and r == 0 else ['', '']),
             '%s printed %r', what, res[:2])
    with Captured() as c:
        mr.print_stdout(msg)
    need(c.texts() == want['STDOUT'], 'print_stdout(%r) printed %r', msg, c.texts())
    with Captured() as c:
        mr.print_stderr(msg)
    need(c.texts() == want['STDERR'], 'print_stderr(%r) printed %r', msg, c.texts())
    if channel is None:
        with Captured() as c:
            mr.print_msg(msg)
        need(c.texts() == want['STDOUT'], 'print_msg(%r) printed %r', msg, c.texts())
    elif channel.upper() in want:
        with Captured() as c:
            mr.print_msg(msg, output_channel=channel)
        need(c.texts() == want[channel.upper()], 'print_msg(%r, %r) printed %r', msg, channel,
             c.texts())
        for v in (0, 1):
            vs = mr.VectorSpaceHandles(max_vecs_per_node=10, verbosity=v)
            with Captured() as c:
                vs.print_msg(msg, output_channel=channel)
            need(c.texts() == (want[channel.upper()] if v else ['', '']),
                 'VectorSpaceHandles.print_msg(%r, %r) with verbosity %d printed %r', msg,
                 channel, v, c.texts())
    else:
        with Captured() as c:
            try:
                mr.print_msg(msg, output_channel=channel)
            except ValueError:
                pass
            else:
                need(False, 'print_msg accepted the channel %r', channel)
        need(c.texts() == ['', ''], 'refused channel %r, but printed %r', channel, c.texts())


def run_era(case, ctx):
    n, v = case['n'], case['verbosity']
    lam = np.linspace(.3, .9, n)
    if case['unstable']:
        lam[-1] = 1.2
    C = 1 + gen.rng(case['seed']).rand(n)
    Y = np.array([C.dot(lam ** k) for k in range(4 * n + 2) for _ in (0, 1)][1:-1])
    ctx.nontrivial()
    ctx.label('era unstable:%s verbosity:%d' % (case['unstable'], v))
    put = {}
    with Captured() as c:
        era = mr.ERA(put_array=lambda a, dest: put.__setitem__(dest, a), verbosity=v)
        out = era.compute_model(Y, n)
    text = c.texts()
    need(len(out) == 3, 'no model')
    if not v:
        need(text == ['', ''], 'verbosity 0: ERA printed %r', text)
    elif case['unstable']:
        need(any(text), 'no warning about an unstable model')
    with Captured() as c:
        era.put_model('A', 'B', 'C')
        era.put_decomp('s', 'L', 'R', 'H', 'H2')
    need(v or c.texts() == ['', ''], 'verbosity 0: ERA printed %r', c.texts())
    need(sorted(put) == sorted(['A', 'B', 'C', 's', 'L', 'R', 'H', 'H2']),
         'arrays put: %s', sorted(put))

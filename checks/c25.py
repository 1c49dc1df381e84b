"""C25: errors of user callbacks reach the caller, and the call can be repeated."""
import types

import hypothesis.strategies as st
import numpy as np

import gen
import ops
import scen
from c05 import op_fields, compare
from gen import need
from modred.vectors import VecHandle
import modred as mr

ID = 'C25'
RULE = ('operation x data x memory limit x faults (kind of callback, which of its calls, type of '
        'exception); each call which fails is repeated on the same object and all results are '
        'compared with those of a run without faults; non-trivial = at least one fault was '
        'injected and the data had at least two vectors')
ASSUMPTIONS = ['one process (other ranks would wait for the one that failed)',
               'a call that failed is repeated with the same arguments before the object is used '
               'otherwise']


class Fault(object):
    """Marker of exceptions raised by the check."""


EXC = {t.__name__: type('Fault' + t.__name__, (Fault, t), {}) for t in (
    ValueError, TypeError, AttributeError, IndexError, KeyError, IOError, RuntimeError,
    StopIteration, KeyboardInterrupt, NotImplementedError, ArithmeticError, AssertionError,
    MemoryError, np.linalg.LinAlgError)}


class FaultEnv(scen.Env):
    """Counts callbacks; some of them fail (each fault once)."""
    def __init__(self, scratch, faults=()):
        scen.Env.__init__(self, 0, 1, scratch, {})
        self.faults = [list(f) for f in faults]
        self.raised = 0

    def hit(self, kind):
        k = self.counts.get(kind, 0)
        self.counts[kind] = k + 1
        for f in self.faults:
            if f[0] == kind and f[1] == k:
                self.faults.remove(f)
                self.raised += 1
                raise EXC[f[2]]('fault in %s number %d' % (kind, k))


class BasedHandle(VecHandle):
    """Handle derived from modred's base class; get() can fail."""
    def __init__(self, data, env, kind, base=None, scale=None):
        VecHandle.__init__(self, base_vec_handle=base, scale=scale)
        self.data, self.env, self.kind = data, env, kind

    def _get(self):
        self.env.hit(self.kind)
        return self.data.copy()


class Repeat(object):
    """Calls of methods which fail by an injected fault are repeated."""
    def __init__(self, obj, seen):
        self._obj, self._seen = obj, seen

    def __getattr__(self, name):
        val = getattr(self._obj, name)
        return repeat(val, self._seen) if isinstance(
            val, (types.MethodType, types.FunctionType)) else val


def repeat(func, seen):
    def call(*args, **kw):
        while True:
            try:
                return func(*args, **kw)
            except BaseException as e:
                if not isinstance(e, Fault):
                    raise
                seen.append('%s in %s' % (type(e).__name__, func.__name__))
    return call


class Api(object):
    """modred, with every object and function wrapped."""
    def __init__(self, seen):
        self._seen = seen

    def __getattr__(self, name):
        val = getattr(mr, name)
        if isinstance(val, type):
            return lambda *args, **kw: Repeat(
                repeat(val, self._seen)(*args, **kw), self._seen)
        return repeat(val, self._seen)


class Runner(ops.Runner):
    def sources(self, X):
        if not self.case['based']:
            return ops.Runner.sources(self, X)
        bases = [BasedHandle(gen.rand((X.shape[0],), self.case['seed'] + 70 + i, kind='int'),
                             self.env, 'get_base') for i in range(2)]
        out = []
        for i in range(X.shape[1]):
            b = bases[(i // self.case['run']) % 2]
            out.append(BasedHandle(X[:, i] * 2 + b.data, self.env, 'get', b, .5))
        return out

    def op_era(self):
        c = self.case
        Y = gen.rand((4 * c['num'] + 6, c['outputs'], c['inputs']), c['seed'])
        era = self.api.ERA(put_array=self.put_array, verbosity=0)
        self.keep(**dict(zip('ABC', era.compute_model(Y, c['num']))))
        self.put(era.put_model, 'A', 'B', 'C')
        self.put(era.put_decomp, 's', 'L', 'R', 'H', 'H2')
        self.put(era.put_sing_vals, 's2')
        self.keep(**dict(zip('abc', era.compute_model(Y[::-1], c['num']))))


@st.composite
def cases(draw, op, each=False):
    case = op_fields(draw, op, 1, ['get'], [0])
    case['delays'] = []
    case['based'] = draw(st.booleans())
    case['run'] = draw(st.sampled_from([1, 2, 3, 100]))
    kinds = (['get_base'] * 4 if case['based'] else []) + [
        'get', 'get', 'ip', 'put', 'put_mid', 'put_array', 'put_array_mid', 'get_array']
    # exceptions which Python or numpy may take for something else come more often
    excs = sorted(EXC) + ['StopIteration'] * 4 + ['AttributeError', 'TypeError', 'KeyError']
    if each:
        # one fault at every call of one kind, in a run of its own
        case['each'] = [draw(st.sampled_from(kinds)), draw(st.sampled_from(excs))]
        case['faults'] = []
        return case
    case['faults'] = draw(st.lists(st.tuples(
        st.sampled_from(kinds), st.one_of(st.just(0.), st.floats(0, .999)),
        st.sampled_from(excs)).map(list), min_size=1, max_size=4))
    return case


def strategies(tier):
    k = 1 if tier == 'quick' else 15
    return [('fault', cases(op), 60 * k) for op in ops.OPS + ['era']] + [
        ('each', cases(op, True), 10 * k) for op in ops.OPS + ['era']]


def run_case(name, case, ctx):
    ctx.label('op:' + case['op'], case['based'] and 'base vectors')
    env = FaultEnv(ctx.scratch())
    plain = Runner(case, env)
    try:
        plain.run()
    except np.linalg.LinAlgError:
        ctx.label('singular (skipped)')
        return
    if name == 'each':
        kind, exc = case['each']
        total = env.counts.get(kind, 0)
        for i in sorted(set(int(round(x)) for x in np.linspace(0, total - 1, min(total, 25)))):
            one(case, [[kind, i, exc]], plain, ctx)
        return
    faults = []
    for kind, at, exc in case['faults']:
        total = env.counts.get(kind, 0)
        if total and [kind, int(at * total)] not in [f[:2] for f in faults]:
            faults.append([kind, int(at * total), exc])
    one(case, faults, plain, ctx)


def one(case, faults, plain, ctx):
    env2 = FaultEnv(ctx.scratch(), faults)
    seen = []
    run = Runner(case, env2, Api(seen))
    run.run()
    ctx.nontrivial(env2.raised > 0 and case['num'] > 1)
    for f in faults:
        ctx.label('fault:' + f[0], env2.raised and 'exception:' + f[2])
    need(len(seen) == env2.raised, '%d faults were raised by callbacks, the caller saw %s',
         env2.raised, seen)
    compare(run.out, plain.out, 'after %s and repeating the call' % ', '.join(seen), 1e-7)

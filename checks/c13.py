"""C13: saved text arrays and signals load back exactly."""
import os
import pathlib

import hypothesis.strategies as st
import numpy as np

import gen
from gen import need, need_shape
from harness import fail

ID = 'C13'
RULE = ('arrays (type, layout, delimiter, special values) written and read back, signal '
        'files read singly and stacked; non-trivial = more than one entry')
ASSUMPTIONS = ['integers up to 2^53 in magnitude; delimiters of one character, the same for '
               'saving and loading (the default ones are compatible)']

DTYPES = ['float64', 'complex128', 'int64', 'int32', 'int8', 'uint8', 'float32', 'complex64',
          'bool']
DELIMS = [None, None, ' ', ',', ';', '\t', '|']


@st.composite
def array_cases(draw):
    ndim = draw(st.sampled_from([1, 2, 2, 2]))
    return dict(
        shape=[draw(st.one_of(st.integers(1, 7), st.sampled_from([1, 30, 120])))
               for _ in range(ndim)],
        dtype=draw(st.sampled_from(DTYPES)), seed=draw(gen.seeds()),
        values=draw(st.sampled_from(['normal', 'wide', 'bits', 'int', 'special'])),
        layout=draw(st.sampled_from(['C', 'C', 'F', 'strided', 'reversed', 'list',
                                     'transposed', 'swapped', 'readonly'])),
        delim=draw(st.sampled_from(DELIMS)),
        positional=draw(st.booleans()), pathlib=draw(st.booleans()), resave=draw(st.booleans()),
        relayout=draw(st.sampled_from(['C', 'F'])))


@st.composite
def refuse_cases(draw):
    return dict(shape=draw(st.lists(st.integers(1, 3), min_size=3, max_size=4)),
                rows=draw(st.integers(1, 4)), cols=draw(st.integers(1, 7)),
                cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                delim=draw(st.sampled_from(DELIMS)))


@st.composite
def signal_cases(draw):
    return dict(files=draw(st.integers(1, 5)), steps=draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8),
                                    st.sampled_from([60, 300, 1100]))),
                signals=draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(5, 15))), seed=draw(gen.seeds()),
                delim=draw(st.sampled_from(DELIMS)),
                writer=draw(st.sampled_from(['modred', 'own'])),
                order=draw(st.permutations(list(range(5)))),
                bad=draw(st.sampled_from([None] * 5 + ['value', 'length', 'order'])),
                times=draw(st.sampled_from(['increasing', 'increasing', 'decreasing', 'unsorted',
                                            'repeated', 'negative'])),
                values=draw(st.sampled_from(['normal', 'normal', 'special'])),
                bad_file=draw(st.integers(0, 4)), bad_step=draw(st.one_of(st.integers(0, 7), st.integers(0, 1099))),
                uniform=draw(st.booleans()),
                unit=draw(st.sampled_from([1., 1., 1e-9, 1e-15, 1e7])),
                offset=draw(st.sampled_from([0., 0., 1e6, -1e5])))


def strategies(tier):
    k = 3 if tier == 'quick' else 30
    return [('array', array_cases(), 600 * k), ('refuse', refuse_cases(), 80 * k),
            ('signals', signal_cases(), 250 * k)]


SPECIAL = np.array([0., -0., np.inf, -np.inf, np.nan, 5e-324, -2.2250738585072014e-308,
                    1.7976931348623157e308, 0.1, 1 / 3., 1e22, -1e-300])


def reals(shape, kind, r):
    if kind == 'normal':
        return r.randn(*shape)
    if kind == 'wide':
        return r.randn(*shape) * 10. ** r.randint(-300, 300, shape)
    if kind == 'int':
        return r.randint(-5, 6, shape).astype(float)
    if kind == 'special':
        return SPECIAL[r.randint(0, len(SPECIAL), shape)]
    bits = r.randint(0, 2 ** 63, shape, dtype=np.uint64) * 2 + r.randint(
        0, 2, shape, dtype=np.uint64)
    v = bits.view(float)
    return np.where(np.isfinite(v), v, 1.5)


def make(shape, dtype, kind, seed):
    r = gen.rng(seed)
    d = np.dtype(dtype)
    if d.kind in 'iu':
        info = np.iinfo(d)
        lo, hi = max(info.min, -2 ** 53), min(info.max, 2 ** 53)
        return r.randint(lo, hi, shape, dtype=np.int64).astype(d)
    if d.kind == 'b':
        return r.rand(*shape) > 0.5
    a = reals(shape, kind, r)
    if d.kind == 'c':
        z = np.empty(shape, complex)
        z.real = a
        z.imag = reals(shape, kind, r)
        a = z
    if d.itemsize < (16 if d.kind == 'c' else 8):
        with np.errstate(all='ignore'):
            a = a.astype(d)
    return a


def same(got, want, what):
    """Bitwise the same values (any NaN equals any NaN)."""
    got, want = np.asarray(got), np.asarray(want)
    need_shape(got, want.shape, what)
    parts = [(got.real, want.real), (got.imag, want.imag)] if np.iscomplexobj(want) else [
        (got, want)]
    need(np.iscomplexobj(got) == np.iscomplexobj(want), '%s has type %s', what, got.dtype)
    for g, w in parts:
        w = w.astype(float)
        ok = (g == w) & (np.signbit(g) == np.signbit(w)) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = tuple(np.argwhere(~ok)[0])
            fail('%s: entry %s is %r instead of %r', what, i, got[i], want[i])


def save(util, a, path, delim, positional=False):
    if delim is None:
        util.save_array_text(a, path)
    elif positional:
        util.save_array_text(a, path, delim)
    else:
        util.save_array_text(a, path, delimiter=delim)


def load(util, path, delim, cplx):
    kw = {}
    if delim is not None:
        kw['delimiter'] = delim
    if cplx:
        kw['is_complex'] = True
    return util.load_array_text(path, **kw)


def run_case(name, case, ctx):
    from modred import util
    d = ctx.scratch()
    path = os.path.join(d, 'array.txt')
    if case.get('pathlib'):
        path = pathlib.Path(path)
    if name == 'array':
        a = make(tuple(case['shape']), case['dtype'], case['values'], case['seed'])
        cplx = np.iscomplexobj(a)
        if case['layout'] == 'transposed':
            arg = np.ascontiguousarray(a.T).T
        else:
            arg = gen.same_layouts(a, case['layout'])
        before = np.array(arg, copy=True)
        ctx.nontrivial(a.size > 1)
        ctx.label('dtype:' + case['dtype'], 'layout:' + case['layout'], 'values:' + case['values'],
                  'delim:%r' % case['delim'], '%dD' % a.ndim)
        save(util, arg, path, case['delim'], case['positional'])
        same(np.array(arg).astype(a.dtype), before.astype(a.dtype), 'array after saving')
        want = a.reshape(-1, 1) if a.ndim == 1 else a
        got = load(util, path, case['delim'], cplx)
        same(got, want, 'loaded array')
        if cplx:        # documented format: real and imaginary parts in turn
            raw = load(util, path, case['delim'], False)
            flat = np.empty((want.shape[0], 2 * want.shape[1]))
            flat[:, ::2], flat[:, 1::2] = want.real, want.imag
            same(raw, flat, 'real and imaginary parts')
        if case['resave']:
            # overwriting by a smaller array leaves nothing behind
            b = make((2, 1), 'float64', 'normal', case['seed'] + 1)
            save(util, b, path, case['delim'])
            same(load(util, path, case['delim'], False), b, 'array saved over another')
            save(util, gen.same_layouts(got, case['relayout']), path, case['delim'])
            same(load(util, path, case['delim'], cplx), want, 'loaded array saved again')
        return
    if name == 'refuse':
        ctx.nontrivial()
        a = gen.rand(tuple(case['shape']), case['seed'], case['cplx'])
        for arg in (a, a.tolist()):
            try:
                util.save_array_text(arg, path)
            except RuntimeError:
                continue
            fail('saved an array with %d dimensions', a.ndim)
        b = gen.rand((case['rows'], case['cols']), case['seed'])
        save(util, b, path, case['delim'])
        try:
            got = load(util, path, case['delim'], True)
        except ValueError:
            need(case['cols'] % 2 == 1, '%d columns refused as complex', case['cols'])
            ctx.label('odd columns')
            return
        need(case['cols'] % 2 == 0, '%d columns loaded as complex', case['cols'])
        same(got, b[:, ::2] + 1j * b[:, 1::2], 'pairs of columns')
        return
    return signals(case, ctx, util, d)


def signals(case, ctx, util, d):
    r = gen.rng(case['seed'])
    nf, nt, ns = case['files'], case['steps'], case['signals']
    times = np.arange(nt) * 0.3 + 1.7 if case['uniform'] else np.cumsum(r.rand(nt) + 0.1)
    times = {'increasing': lambda: times, 'decreasing': lambda: times[::-1],
             'unsorted': lambda: times[r.permutation(nt)], 'negative': lambda: times - 2.5,
             'repeated': lambda: np.concatenate((times[:1], times[:-1]))}[case['times']]().copy()
    data = [r.randn(nt, ns) for _ in range(nf)]
    if case['values'] == 'special':
        for a in data:
            a[r.rand(nt, ns) < .4] = r.choice(
                [0., -0., 1e-310, 1e300, -1e-200, np.inf, -np.inf, np.nan, 1 / 3.])
    ctx.label('times:' + case['times'], 'values:' + case['values'])
    paths = [os.path.join(d, 'signal%d.txt' % i) for i in range(nf)]
    bad = case['bad'] if nf > 1 else None
    if bad == 'order' and np.allclose(times, times[::-1]):
        bad = None
    bad_file = case['bad_file'] % nf
    offset = case['offset'] if nt > 1 else 0.

    def clock(t):
        return (t + offset) * case['unit']
    ctx.label('unit of time:%g' % case['unit'], 'offset:%g' % offset)
    ctx.nontrivial(nt > 1)
    for i in range(nf):
        t = times.copy()
        if bad and i == bad_file:
            if bad == 'value':
                t[case['bad_step'] % nt] += 0.01 * (1 + abs(t[case['bad_step'] % nt]))
            elif bad == 'order':
                t = t[::-1]
            else:
                t = np.append(t, t[-1] + 0.1)
        raw = np.hstack((clock(t)[:, None], np.vstack(
            (data[i], np.zeros((len(t) - nt, ns))))))
        if case['writer'] == 'modred':
            save(util, raw, paths[i], case['delim'])
        else:
            with open(paths[i], 'w') as f:
                for row in raw:
                    f.write((case['delim'] or ' ').join(repr(float(x)) for x in row) + '\n')
    kw = {} if case['delim'] is None else dict(delimiter=case['delim'])
    good = [i for i in range(nf) if not (bad and i == bad_file)]
    if ns == 0:
        ctx.label('no signals')
        for f, arg in ((util.load_signals, paths[0]), (util.load_multiple_signals, paths)):
            try:
                f(arg, **kw)
            except ValueError:
                continue
            fail('%s loaded a file without signals', f.__name__)
        return
    i = good[0]
    t, s = util.load_signals(paths[i], **kw)
    same(t, clock(times), 'time values')
    same(s, data[i], 'signals')
    order = [i for i in case['order'] if i < nf]
    if bad:
        ctx.label('inconsistent times: ' + bad)
        try:
            util.load_multiple_signals([paths[i] for i in order], **kw)
        except ValueError:
            return
        fail('files with different time values were loaded')
    ctx.label('stacked' if nf > 1 else 'single')
    t, s = util.load_multiple_signals([paths[i] for i in order], **kw)
    same(t, clock(times), 'time values')
    same(s, np.array([data[i] for i in order]), 'stacked signals')

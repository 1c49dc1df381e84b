"""C14: a vector handle returns (last put vector minus base) times scale.

Stateful: a history of puts, gets and comparisons through handles that may
share files and base handles, against a model of the stored vectors.
"""
import os
import pickle

import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need, close
from harness import fail

ID = 'C14'
RULE = ('histories of put/get/compare through 1-6 handles (types, shared paths, chains of base '
        'handles, scales); non-trivial = a handle with base or scale is read after a put '
        'that changed what it depends on')
ASSUMPTIONS = ['files are only written through handles after the start of the history',
               'text handles hold 2D arrays (1D ones come back as one column, see C13)',
               'the vector objects have exact arithmetic up to rounding']

TYPES = ['mem', 'pickle', 'text']
SCALES = [None, None, None, 1, 2., -0.5, 0., [0.5, -2.], 1 + 1e-7, -1, 1e-13, 1e40]


@st.composite
def cases(draw, vt, min_ops):
    n = draw(st.integers(1, 6))
    handles = []
    for i in range(n):
        typ = draw(st.sampled_from(TYPES if vt == 'array' else TYPES[:2]))
        handles.append(dict(
            type=typ, path=draw(st.integers(0, 2)),
            base=draw(st.one_of(st.none(), st.integers(0, i - 1))) if i else None,
            scale=draw(st.sampled_from(SCALES)), first=draw(st.integers(0, 3)),
            keyword=draw(st.booleans())))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('put'), st.integers(0, n - 1), st.integers(0, 9)),
        st.tuples(st.just('get'), st.integers(0, n - 1)),
        st.tuples(st.just('get'), st.integers(0, n - 1)),
        st.tuples(st.just('eq'), st.integers(0, n - 1), st.integers(0, n - 1))),
        min_size=min_ops, max_size=16))
    return dict(vt=vt, handles=handles, ops=[list(o) for o in ops], cplx=draw(st.booleans()),
                shape=[draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                share=draw(st.booleans()), mag=draw(st.sampled_from([1., 1., 1e-20, 1e20])), seed=draw(gen.seeds()), setup=draw(st.sampled_from(['direct', 'put'])))


def strategies(tier):
    k = 3 if tier == 'quick' else 25
    return [('history', cases('array', 1), 250 * k), ('history', cases('array', 8), 250 * k),
            ('history', cases('object', 5), 300 * k)]


class Model(object):
    """Stored vectors by storage key; the definition of get."""
    def __init__(self, case):
        self.h = case['handles']
        self.stored = {}

    def key(self, i):
        d = self.h[i]
        return ('mem', i) if d['type'] == 'mem' else (d['type'], d['path'])

    def get(self, i):
        d = self.h[i]
        v = self.stored[self.key(i)]
        if d['base'] is not None:
            v = v - self.get(d['base'])
        s = scale_of(d)
        return v if s is None else v * s

    def depends(self, i):
        d = self.h[i]
        return {self.key(i)} | (set() if d['base'] is None else self.depends(d['base']))


def scale_of(d):
    s = d['scale']
    return complex(*s) if isinstance(s, list) else s


def run_case(name, case, ctx):
    import modred as mr
    d = ctx.scratch()
    model = Model(case)
    H = []
    cplx = case['cplx']

    def value(k):
        """Vector number k (k and k+1 may be equal, 8 and 9 nearly equal to 0)."""
        v = gen.rand(tuple(case['shape']), case['seed'] + k % 8 // 2, cplx, 'normal')
        return v * case['mag'] * (1 if k < 8 else 1 + 1e-9)

    out = []         # all objects given to or returned by handles, with their values

    def keep(o, v=None):
        out.append((o, np.array(vecs.value_of(o) if v is None else v)))
        return o

    def obj(v):
        if case['share']:        # equal vectors are one object
            for o, old in out:
                if old.tobytes() == v.tobytes():
                    ctx.label('shared object')
                    return o
        return keep(vecs.PlainVec(v.copy()) if case['vt'] == 'object' else v.copy(), v)

    def path(i):
        return os.path.join(d, '%s%d' % (case['handles'][i]['type'], case['handles'][i]['path']))

    for i, h in enumerate(case['handles']):
        base = None if h['base'] is None else H[h['base']]
        kw = {}
        if base is not None or h['keyword']:
            kw['base_vec_handle'] = base
        if h['scale'] is not None or h['keyword']:
            kw['scale'] = scale_of(h)
        v = value(h['first'])
        if h['type'] == 'mem':
            H.append(mr.VecHandleInMemory(obj(v) if case['setup'] == 'direct' else None, **kw))
        elif h['type'] == 'pickle':
            H.append(mr.VecHandlePickle(path(i), **kw))
        else:
            H.append(mr.VecHandleArrayText(path(i), is_complex=cplx, **kw))
        if case['setup'] == 'direct' and h['type'] != 'mem':
            if h['type'] == 'pickle':
                with open(path(i), 'wb') as f:
                    pickle.dump(obj(v), f)
            else:
                a = np.empty((v.shape[0], 2 * v.shape[1])) if cplx else v
                if cplx:
                    a[:, ::2], a[:, 1::2] = v.real, v.imag
                with open(path(i), 'w') as f:
                    for row in a:
                        f.write(' '.join(repr(float(x)) for x in row) + '\n')
        elif case['setup'] == 'put':
            H[i].put(obj(v))
        model.stored[model.key(i)] = v
        ctx.label('type:' + h['type'], h['base'] is not None and 'base',
                  h['scale'] is not None and 'scale')
    read = {}        # handle -> values of what it depends on at its last get

    def bound(i):
        h = case['handles'][i]
        s = 1. if h['scale'] is None else abs(scale_of(h))
        return s * (1. if h['base'] is None else 1. + bound(h['base']))

    def check_get(i, where):
        h = case['handles'][i]
        got = keep(H[i].get())
        want = model.get(i)
        if case['vt'] == 'object':
            need(type(got) is vecs.PlainVec, '%s: get returned %s', where, type(got))
        close(vecs.value_of(got), want, '%s: handle %d (%s)' % (where, i, h), 1e-12,
              scale=case['mag'] * 4 * float(bound(i)))
        need(np.iscomplexobj(vecs.value_of(got)) == np.iscomplexobj(want),
             '%s: number type changed', where)
        state = [model.stored[k].tobytes() for k in sorted(model.depends(i))]
        if (h['base'] is not None or h['scale'] is not None) and i in read and \
                read[i] != state:
            ctx.nontrivial()
        read[i] = state

    def check_stored(where):
        """The storages hold the vectors put, unscaled and without base."""
        for i, h in enumerate(case['handles']):
            want = model.stored[model.key(i)]
            if h['type'] == 'mem':
                got = vecs.value_of(H[i].vec)
            elif h['type'] == 'pickle':
                with open(path(i), 'rb') as f:
                    got = vecs.value_of(pickle.load(f))
            else:
                got = np.array([[float(x) for x in line.split()] for line in open(path(i))])
                if cplx:
                    got = got[:, ::2] + 1j * got[:, 1::2]
            gen.exact(got, want, '%s: vector stored for handle %d (%s)' % (where, i, h))

    for step, op in enumerate(case['ops']):
        where = 'step %d %s' % (step, op)
        i = op[1]
        if op[0] == 'put':
            v = value(op[2])
            o = obj(v)
            H[i].put(o)
            gen.exact(vecs.value_of(o), v, where + ': vector put')
            model.stored[model.key(i)] = v
        elif op[0] == 'get':
            check_get(i, where)
        else:
            j = op[2]
            a, b = case['handles'][i], case['handles'][j]
            if a['type'] != b['type']:
                want = False
            elif a['type'] == 'mem':
                want = np.array_equal(model.stored[model.key(i)], model.stored[model.key(j)])
            else:
                want = a['path'] == b['path']
            ctx.label('compared equal' if want and i != j else 'compared')
            need(bool(H[i] == H[j]) == want, '%s: equality of %s and %s is not %s',
                 where, a, b, want)
            need(bool(H[i] != H[j]) != want, '%s: inequality', where)
        check_stored(where)
    for i in range(len(H)):
        check_get(i, 'end')
    for i in reversed(range(len(H))):
        check_get(i, 'end, reversed')
    check_stored('end')
    for k, (o, v) in enumerate(out):
        gen.exact(vecs.value_of(o), v, 'vector %d given to or got from a handle earlier' % k)

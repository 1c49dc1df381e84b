"""C16: the sanity check accepts valid vectors and rejects faulty ones."""
import hypothesis.strategies as st
import numpy as np

import gen
import vecs
from gen import need
from harness import fail

ID = 'C16'
RULE = ('vector objects x inner products x class; valid ones of any magnitude must pass, ones '
        'with one injected fault must raise; every case is non-trivial except zero vectors')
ASSUMPTIONS = ['faults change the result by at least 0.1% of a vector with entries between '
               '0.1 and 3; faults that a single vector cannot reveal (such as ignoring the '
               'imaginary part of a scalar) are not claimed']

CLASSES = ['VectorSpaceHandles', 'PODHandles', 'BPODHandles', 'DMDHandles', 'TLSqrDMDHandles']
FAULTS = ['add in place', 'add in place, returns copy', 'add changes other',
          'add ignores other', 'add ignores self', 'add mis-scales other', 'add mis-scales sum',
          'add subtracts', 'add ignores second part', 'add zeroes second part',
          'add first entry only', 'add to self wrong', 'add to others wrong',
          'mul in place', 'mul in place, returns copy', 'mul ignores scalar', 'mul mis-scales',
          'mul squares scalar', 'mul ignores second part', 'mul zeroes second part',
          'mul first entry only', 'mul adds scalar', 'mul divides',
          'ip norm', 'ip quartic', 'ip linear', 'ip constant', 'ip offset', 'ip abs', 'ip none']


class Vec(vecs.Vector):
    """Two-part vector object with an optional fault."""
    def __init__(self, a, b, fault=None):
        self.a = np.array(a)
        self.b = np.array(b)
        self.fault = fault

    def new(self, a, b):
        return Vec(a, b, self.fault)

    def __add__(self, other):
        f = self.fault
        a, b = self.a + other.a, self.b + other.b
        if f == 'add in place':
            self.a, self.b = a, b
            return self
        if f == 'add in place, returns copy':
            self.a, self.b = a, b
        elif f == 'add changes other':
            other.a, other.b = a, b
        elif f == 'add ignores other':
            a, b = self.a, self.b
        elif f == 'add ignores self':
            a, b = other.a, other.b
        elif f == 'add mis-scales other':
            a, b = self.a + 1.01 * other.a, self.b + 1.01 * other.b
        elif f == 'add mis-scales sum':
            a, b = a * 0.99, b * 0.99
        elif f == 'add subtracts':
            a, b = self.a - other.a, self.b - other.b
        elif f == 'add ignores second part':
            b = self.b
        elif f == 'add zeroes second part':
            b = b * 0
        elif f == 'add first entry only':
            a = a.copy()
            a[1:] = self.a[1:]
        elif f == 'add to self wrong' and other is self:
            a = a * 1.5
        elif f == 'add to others wrong' and other is not self:
            a = a * 1.5
        return self.new(a, b)

    def __mul__(self, scalar):
        f = self.fault
        a, b = self.a * scalar, self.b * scalar
        if f == 'mul in place':
            self.a, self.b = a, b
            return self
        if f == 'mul in place, returns copy':
            self.a, self.b = a, b
        elif f == 'mul ignores scalar':
            a, b = self.a, self.b
        elif f == 'mul mis-scales':
            a, b = a * 1.01, b * 1.01
        elif f == 'mul squares scalar':
            a, b = a * scalar, b * scalar
        elif f == 'mul ignores second part':
            b = self.b
        elif f == 'mul zeroes second part':
            b = b * 0
        elif f == 'mul first entry only':
            a = a.copy()
            a[1:] = self.a[1:]
        elif f == 'mul adds scalar':
            a, b = self.a + scalar, self.b + scalar
        elif f == 'mul divides':
            a, b = self.a / scalar, self.b / scalar
        return self.new(a, b)


def good_ip(weights):
    def ip(u, v):
        return np.vdot(u.a, weights[0] * v.a) + np.vdot(u.b, weights[1] * v.b)
    return ip


def bad_ip(fault, weights):
    ip = good_ip(weights)
    return {
        'ip norm': lambda u, v: abs(ip(u, v)) ** 0.5,
        'ip quartic': lambda u, v: ip(u, v) ** 2,
        'ip linear': lambda u, v: np.sum(np.abs(v.a)) + np.sum(np.abs(v.b)),
        'ip constant': lambda u, v: 1.5,
        'ip offset': lambda u, v: ip(u, v) + 1.,
        'ip abs': lambda u, v: np.sum(np.abs(u.a) ** 0.5 * np.abs(v.a) ** 0.5),
    }[fault]


@st.composite
def good_cases(draw):
    return dict(cls=draw(st.sampled_from(CLASSES)),
                vt=draw(st.sampled_from(['array', 'array', 'object', '2d', 'PlainVec'])),
                n=draw(st.one_of(*[st.integers(1, 40)] * 6 + [st.integers(41, 3000)])), cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                exp=draw(st.integers(-60, 60)), zero=draw(st.sampled_from([0, 0, 0, 0, 1])),
                spread=draw(st.sampled_from([0, 3, 10])),
                weighted=draw(st.booleans()), verbosity=draw(st.sampled_from([0, 1])),
                handle=draw(st.sampled_from(['mem', 'pickle', 'scaled'])))


@st.composite
def bad_cases(draw, fault):
    return dict(cls=draw(st.sampled_from(CLASSES)), fault=fault,
                n=draw(st.integers(2, 6)), cplx=draw(st.booleans()), seed=draw(gen.seeds()),
                weighted=draw(st.booleans()), verbosity=draw(st.sampled_from([0, 1])))


def strategies(tier):
    k = 3 if tier == 'quick' else 25
    return [('good', good_cases(), 500 * k)] + [('bad', bad_cases(f), 14 * k) for f in FAULTS]


def magnitudes(n, seed, cplx):
    """Entries of ordinary magnitude 0.1 to 3."""
    r = gen.rng(seed)
    v = r.uniform(0.1, 3., n) * r.choice([-1, 1], n)
    return v * np.exp(2j * np.pi * r.rand(n)) if cplx else v


def run_case(name, case, ctx):
    import modred as mr
    n, cplx, seed = case['n'], case['cplx'], case['seed']
    cls = getattr(mr, case['cls'])
    ctx.label(case['cls'])
    wts = gen.rng(seed + 9).uniform(0.5, 2, 2) if case['weighted'] else np.ones(2)
    if name == 'bad':
        fault = case['fault']
        ctx.nontrivial()
        ctx.label('fault:' + fault)
        v = Vec(magnitudes(n, seed, cplx), magnitudes(n, seed + 1, cplx), fault)
        ip = good_ip(wts)
        if fault == 'ip none':
            ip = None
        elif fault.startswith('ip'):
            ip = bad_ip(fault, wts)
        obj = cls(inner_product=ip, verbosity=case['verbosity'])
        try:
            obj.sanity_check(mr.VecHandleInMemory(v))
        except (RuntimeError if fault == 'ip none' else ValueError):
            return
        fail('%s.sanity_check accepted a vector with fault: %s', case['cls'], fault)
    scale = 10. ** case['exp']
    base = magnitudes(n, seed, cplx) * 10. ** (
        -case['spread'] * gen.rng(seed + 3).rand(n)) * scale
    if case['zero']:
        base = base * 0
    ctx.nontrivial(not case['zero'])
    ctx.label('vec:' + case['vt'], 'magnitude:1e%+d..' % (20 * (case['exp'] // 20)))
    if case['vt'] == 'object':
        v, ip = Vec(base, base[::-1] * 0.7), good_ip(wts)
    elif case['vt'] == 'PlainVec':
        v, ip = vecs.PlainVec(base), vecs.ip_arr
    else:
        v, ip = base.copy(), vecs.ip_arr
        if case['vt'] == '2d':
            v = np.vstack((base, base * 2.5))
        if case['weighted']:
            W = gen.rng(seed + 8).uniform(0.5, 2, v.shape)
            ip = lambda a, b: np.sum(a.conj() * W * b)
    def content(x):
        return np.hstack((x.a, x.b)) if isinstance(x, Vec) else vecs.value_of(x)
    before = content(v).copy()
    want = before
    if case['handle'] == 'pickle':
        import os
        h = mr.VecHandlePickle(os.path.join(ctx.scratch(), 'v.pkl'))
        h.put(v)
    elif case['handle'] == 'scaled':
        h = mr.VecHandleInMemory(v, scale=-3.)
        want = before * -3.
    else:
        h = mr.VecHandleInMemory(v)
    obj = cls(inner_product=ip, verbosity=case['verbosity'])
    try:
        obj.sanity_check(h)
    except (ValueError, RuntimeError) as e:
        fail('%s.sanity_check refused a valid vector: %s', case['cls'], e)
    gen.exact(content(v), before, 'vector after the sanity check')
    gen.exact(content(h.get()), want, 'vector of the handle after the sanity check')

"""C31: vectors are retrieved, multiplied and combined only as often as documented."""
import hypothesis.strategies as st
import numpy as np

import gen
import scen
from gen import need
import modred as mr
from modred.vectorspace import VectorSpaceHandles

ID = 'C31'
RULE = ('operation x numbers of vectors x memory limit x ranks (on one or more simulated nodes); '
        'user callbacks count their calls, the counts are compared with bounds from the '
        'documented scaling; non-trivial = at least four vectors')
ASSUMPTIONS = ['three further calls per process and operation are allowed for timing and for '
               'finding the number type',
               'symmetric arrays on several processes: fewer than all inner products, or all of '
               'them when few vectors are shared by many processes']
SIZES = {'quick': [2, 3, 4, (0, 1), (0, 1, 0, 1)],
         'thorough': [2, 3, 4, 5, 6, (0, 1), (0, 1, 0, 1), (0, 1, 2)]}
OPS = ['ip', 'ip', 'symm', 'symm', 'lin', 'lin', 'pod', 'bpod', 'dmd', 'dmd_pair', 'tls',
       'tls_pair', 'galerkin', 'derivs', 'load']


@st.composite
def cases(draw, sizes):
    p, hosts = draw(sizes), None
    if isinstance(p, tuple):
        p, hosts = len(p), list(p)
    count = st.one_of(*[st.integers(1, 8), st.integers(1, 40)] * 4 + [st.integers(41, 150)])
    return dict(procs=p, hosts=hosts, op=draw(st.sampled_from(OPS)), num=draw(count),
                num2=draw(count), num3=draw(st.integers(1, 5)), inputs=draw(st.integers(1, 3)),
                outputs=draw(st.integers(1, 3)), seed=draw(gen.seeds()),
                limit=draw(st.one_of(st.integers(1, 8), st.integers(1, 30), st.just(1000))),
                verbosity=draw(st.sampled_from([0, 0, 1])), repeat=draw(st.integers(0, 2)),
                adjoint=draw(st.booleans()), orthonormal=draw(st.booleans()))


def strategies(tier):
    k = 1 if tier == 'quick' else 12
    return [('count', cases(st.just(1)), 500 * k),
            ('count', cases(st.sampled_from(SIZES[tier])), 300 * k)]


class Counts(object):
    def __init__(self):
        self.ip = self.mul = self.put = 0
        self.gets = {}




class Num(object):
    """Vector which counts multiplications."""
    counts = Counts()

    def __init__(self, arr):
        self.arr = arr

    def __add__(self, other):
        return Num(self.arr + other.arr)

    def __mul__(self, scalar):
        Num.counts.mul += 1
        return Num(self.arr * scalar)
    __rmul__ = __mul__

    def __sub__(self, other):
        return Num(self.arr - other.arr)


class Handle(object):
    def __init__(self, data, key):
        self.data, self.key = data, key

    def get(self):
        g = Num.counts.gets
        g[self.key] = g.get(self.key, 0) + 1
        return Num(self.data.copy())

    def put(self, vec):
        Num.counts.put += 1


def ip(v, w):
    Num.counts.ip += 1
    return np.vdot(v.arr, w.arr)


def handles(n, num, seed, key):
    X = gen.rand((n, num), seed)
    return [Handle(X[:, i].copy(), (key, i)) for i in range(num)]


def limit_of(case):
    per_node = case['procs'] // len(set(case['hosts'] or [0]))
    return case['limit'] * per_node


def scenario(case, env):
    """Returns one record (what was done, counts) per operation."""
    num, num2, k3, s = case['num'], case['num2'], case['num3'], case['seed']
    n = 45
    kw = dict(inner_product=ip, max_vecs_per_node=limit_of(case), verbosity=case['verbosity'])
    records = []
    def step(name, dims, func, *args, **kwargs):
        Num.counts = c = Counts()
        ret = func(*args, **kwargs)
        records.append(dict(name=name, dims=dims, ip=c.ip, mul=c.mul, put=c.put,
                            gets=sorted([list(k), v] for k, v in c.gets.items())))
        return ret
    op = case['op']
    def modes(funcs, num, k, **kwargs):
        for i, f in enumerate(funcs):
            idx = [(j * 2 + i) % k for j in range(min(k3, k))]
            step('lin', [num, len(idx)], f, idx, handles(n, len(idx), 0, 'out'), **kwargs)
    if op in ('ip', 'symm', 'lin'):
        vs = VectorSpaceHandles(**kw)
        for _ in range(1 + case['repeat']):
            if op == 'ip':
                step('ip', [num, num2], vs.compute_inner_product_array,
                     handles(n, num, s, 'a'), handles(n, num2, s + 1, 'b'))
            elif op == 'symm':
                step('symm', [num], vs.compute_symm_inner_product_array,
                     handles(n, num, s, 'a'))
            else:
                step('lin', [num, num2], vs.lin_combine, handles(n, num2, 0, 'out'),
                     handles(n, num, s, 'a'), gen.rand((num, num2), s))
    elif op == 'pod':
        obj = mr.PODHandles(**kw)
        step('symm', [num], obj.compute_decomp, handles(n, num, s, 'a'))
        step('none', [], obj.compute_proj_coeffs)
        step('none', [], obj.compute_eigendecomp)
        modes([obj.compute_modes], num, len(obj.eigvals))
    elif op == 'bpod':
        p, q = case['inputs'], case['outputs']
        nx, ny = p * (1 + num // p), q * (1 + num2 // q)
        obj = mr.BPODHandles(**kw)
        step('bpod', [nx, ny, p, q], obj.compute_decomp, handles(n, nx, s, 'a'),
             handles(n, ny, s + 1, 'b'), num_inputs=p, num_outputs=q)
        step('none', [], obj.compute_direct_proj_coeffs)
        step('none', [], obj.compute_adjoint_proj_coeffs)
        k = len(obj.sing_vals)
        modes([obj.compute_direct_modes], nx, k)
        modes([obj.compute_adjoint_modes], ny, k)
    elif op in ('dmd', 'tls', 'dmd_pair', 'tls_pair'):
        tls = op.startswith('tls')
        obj = (mr.TLSqrDMDHandles if tls else mr.DMDHandles)(**kw)
        if op.endswith('pair'):
            step('tls_pair' if tls else 'dmd_pair', [num], obj.compute_decomp,
                 handles(n, num, s, 'a'), handles(n, num, s + 1, 'b'))
        else:
            step('symm', [num + 1], obj.compute_decomp, handles(n, num + 1, s, 'a'))
        step('none', [], obj.compute_spectrum)
        step('none', [], obj.compute_proj_coeffs)
        step('none', [], obj.compute_eigendecomp)
        modes([obj.compute_exact_modes, obj.compute_proj_modes, obj.compute_adjoint_modes], num,
              len(obj.eigvals))
    elif op == 'galerkin':
        k, m = min(num, n), case['inputs']
        adj = handles(n, k, s + 2, 'c') if case['adjoint'] else None
        gal = mr.LTIGalerkinProjectionHandles(
            ip, handles(n, k, s, 'a'), adjoint_basis_vec_handles=adj,
            is_basis_orthonormal=case['orthonormal'], max_vecs_per_node=limit_of(case),
            verbosity=case['verbosity'])
        proj = 0 if case['orthonormal'] else 2 if case['adjoint'] else 1
        for i in range(1 + case['repeat']):
            step('gal_A', [k, k, proj * (i == 0)], gal.reduce_A, handles(n, k, s + 3, 'd'))
            step('gal_B', [k, m, 0], gal.reduce_B, handles(n, m, s + 4, 'e'))
            step('none', [], gal.reduce_C, [np.ones(2)] * k)
    elif op == 'derivs':
        step('derivs', [num], mr.compute_derivs_handles, handles(n, num, s, 'a'),
             handles(n, num, s + 1, 'b'), handles(n, num, 0, 'out'), .1)
    else:
        # A loaded decomposition: modes without computing anything again
        kw['get_array'] = lambda arr: arr
        obj = mr.PODHandles(**kw)
        step('none', [], obj.get_decomp, np.arange(num, 0, -1.), np.eye(num))
        hs = handles(n, num, s, 'a')
        modes([obj.compute_modes], num, num, vec_handles=hs)
        step('none', [], obj.compute_proj_coeffs)
    return records


def ceil(a, b):
    return -(-a // b)


class Bound(object):
    """Allowed numbers: in total and by one process."""
    def __init__(self, case):
        self.p = case['procs']
        self.M = max(3, case['limit'])
        self.ip = self.mul = self.put = self.get = 0
        self.my_ip = self.my_mul = self.my_get = self.my_put = 0

    def add_ip(self, r, c):
        r, c, p = min(r, c), max(r, c), self.p
        loops = ceil(ceil(r, p), self.M - 2)
        self.ip += r * c + 3 * p
        self.get += r + c * loops + 3 * p
        self.my_ip += max(ceil(r, p) * c, ceil(c, p) * r) + 3
        self.my_get += ceil(r, p) + ceil(c, p) * loops + 3

    def add_symm(self, n):
        p = self.p
        loops = ceil(n, (self.M - 2) * p)
        self.ip += (n * (n + 1) // 2 if p == 1 else n * n) + 3 * p
        self.get += n * loops + 3 * p
        rows = ceil(n, p) + loops
        self.my_ip += rows * n + 3
        self.my_get += rows * loops + 3

    def add_lin(self, nb, ns):
        p = self.p
        loops = ceil(ceil(ns, p), self.M - 2)
        self.mul += nb * ns + 4 * p
        self.get += nb * loops + 3 * p
        self.put += ns
        self.my_mul += max(ceil(ns, p) * nb, ceil(nb, p) * ns) + 4
        self.my_get += ceil(nb, p) * loops + 3
        self.my_put += ceil(ns, p)


def bound(case, rec):
    b, d, name = Bound(case), rec['dims'], rec['name']
    if name == 'ip':
        b.add_ip(*d)
    elif name == 'symm':
        b.add_symm(*d)
    elif name == 'lin':
        b.add_lin(*d)
    elif name == 'bpod':
        b.add_ip(d[1], d[2])
        b.add_ip(d[3], d[0])
    elif name == 'dmd_pair':
        b.add_symm(d[0])
        b.add_ip(d[0], d[0])
    elif name == 'tls_pair':
        b.add_symm(d[0])
        b.add_symm(d[0])
        b.add_ip(d[0], d[0])
    elif name in ('gal_A', 'gal_B'):
        b.add_ip(*d[:2])
        if d[2] == 2:
            b.add_ip(d[0], d[0])
        elif d[2]:
            b.add_symm(d[0])
    elif name == 'derivs':
        b.get, b.put, b.mul = 2 * d[0] + 4 * b.p, d[0], 3 * d[0] + 8 * b.p
        share = ceil(d[0], b.p)
        b.my_get, b.my_put, b.my_mul = 2 * share + 4, share, 3 * share + 8
    return b


def run_case(name, case, ctx):
    p = case['procs']
    ctx.label('op:' + case['op'], 'ranks:%d' % p,
              case['hosts'] and 'nodes:%d' % len(set(case['hosts'])))
    ctx.nontrivial(max(case['num'], case['num2']) > 3)
    try:
        if p == 1:
            ranks = [scenario(case, scen.Env(0, 1, None, case))]
        else:
            import pool
            ranks = pool.run(pool.spec(case), 'c31', case, ctx.check)
    except np.linalg.LinAlgError:
        ctx.label('singular (skipped)')
        return
    for i, rec in enumerate(ranks[0]):
        recs = [r[i] for r in ranks]
        b = bound(case, rec)
        what = 'operation %d (%s of %s vectors, %d processes, %d vectors each)' % (
            i, rec['name'], rec['dims'], p, b.M)
        for r in recs:
            r['get'] = sum(v for _, v in r['gets'])
        for kind, text in (('ip', 'inner products'), ('get', 'gets'), ('put', 'puts'),
                           ('mul', 'multiplications')):
            mine = [r[kind] for r in recs]
            need(sum(mine) <= getattr(b, kind), '%s: %d %s, at most %d are needed', what,
                 sum(mine), text, getattr(b, kind))
            need(max(mine) <= getattr(b, 'my_' + kind), '%s: one process did %d of %d %s, '
                 'its share is %d', what, max(mine), sum(mine), text, getattr(b, 'my_' + kind))

"""Persistent pools of MPI worker processes driven by the (serial) check.

pool.run(n, func, case) runs lib/scen.py's function `func` on n ranks (as one
collective job) and returns a list with one result per rank.  The control
channel is a Unix socket per rank, so it never touches the communicator the
code under test uses.

n is a number of ranks, or (n, host numbers): ranks which see different host
names, as on several nodes, or 'nompi': one process without mpi4py.
"""
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

import harness

HERE = os.path.dirname(os.path.abspath(__file__))
MPIEXEC = '/opt/venv/bin/mpiexec'
# names of simulated nodes, which differ at the start, at the end, and in length
HOSTS = ['node-a01', 'node-b01', 'node-a02', 'node-a012', 'n', 'b-node-a01']
_pools = {}
START_TIMEOUT = 240
HANG_TIMEOUT = 45       # no rank makes progress for this long, twice in a row
GRACE = 5               # other ranks' time once one rank has failed


def send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack('>Q', len(data)) + data)


def recv(sock):
    head = b''
    while len(head) < 8:
        part = sock.recv(8 - len(head))
        if not part:
            raise EOFError
        head += part
    left = struct.unpack('>Q', head)[0]
    parts = []
    while left:
        part = sock.recv(min(left, 1 << 20))
        if not part:
            raise EOFError
        parts.append(part)
        left -= len(part)
    return pickle.loads(b''.join(parts))


class RankFailure(object):
    """What a rank reports instead of a result."""
    def __init__(self, kind, text):
        self.kind, self.text = kind, text      # 'violation','exception','hang','died'

    def __repr__(self):
        return '%s: %s' % (self.kind, self.text)


class Pool(object):
    def __init__(self, spec):
        cmd = [sys.executable, os.path.join(HERE, 'mpi_worker.py')]
        hosts = ''
        if spec == 'nompi':
            n, hosts = 1, 'nompi'
        else:
            n = spec
            if isinstance(spec, tuple):
                n, hosts = spec[0], ' '.join(HOSTS[i] for i in spec[1])
            cmd = [MPIEXEC, '-launcher', 'fork', '-n', str(n)] + cmd
        self.n = n
        self.dir = tempfile.mkdtemp(prefix='vmodred_pool_')
        path = os.path.join(self.dir, 's')
        lst = socket.socket(socket.AF_UNIX)
        lst.bind(path)
        lst.listen(n)
        lst.settimeout(START_TIMEOUT)
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.proc = subprocess.Popen(
            cmd + [path, hosts],
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
            env=env, start_new_session=True)
        self.socks = [None] * n
        self.pids = [None] * n
        try:
            for _ in range(n):
                s, _a = lst.accept()
                s.settimeout(START_TIMEOUT)
                rank, size, pid = recv(s)
                if size != n:
                    raise harness.HarnessError('MPI size %d, not %d' % (size, n))
                self.socks[rank], self.pids[rank] = s, pid
        except (socket.timeout, EOFError) as e:
            text = open(os.path.join(self.dir, 'log'), 'rb').read()[-2000:]
            self.kill()
            raise harness.HarnessError(
                'MPI pool of %d did not start: %r\n%s' % (n, e, text))
        finally:
            lst.close()

    def kill(self):
        for s in self.socks:
            if s is not None:
                try:
                    s.close()
                except OSError:
                    pass
        for pid in self.pids:
            if pid is not None:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(timeout=20)
        except subprocess.TimeoutExpired:
            pass
        self.log.close()
        if os.path.basename(self.dir).startswith('vmodred_pool_'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def job(self, func, case, scratch):
        for s in self.socks:
            send(s, (func, case, scratch))
        results = [None] * self.n
        waiting = set(range(self.n))
        deadline = time.time() + HANG_TIMEOUT
        while waiting:
            left = deadline - time.time()
            if left <= 0:
                for r in waiting:
                    results[r] = RankFailure('hang', 'rank did not return')
                return results, False
            ready, _, _ = select.select(
                [self.socks[r] for r in waiting], [], [], min(left, 5))
            for s in ready:
                r = self.socks.index(s)
                try:
                    status, val = recv(s)
                except (EOFError, OSError):
                    results[r] = RankFailure('died', 'process ended')
                    waiting.discard(r)
                    deadline = min(deadline, time.time() + GRACE)
                    continue
                waiting.discard(r)
                if status == 'ok':
                    results[r] = val
                else:
                    results[r] = RankFailure(status, val)
                    deadline = min(deadline, time.time() + GRACE)
        ok = all(not (isinstance(x, RankFailure) and x.kind in ('died', 'hang'))
                 for x in results)
        return results, ok


def get(n):
    if n not in _pools:
        _pools[n] = Pool(n)
    return _pools[n]


def spec(case):
    """The pool for a case with 'procs' and perhaps 'hosts'."""
    return (case['procs'], tuple(case['hosts'])) if case.get('hosts') else case['procs']


def drop(n):
    p = _pools.pop(n, None)
    if p is not None:
        p.kill()


def stop_all():
    for n in list(_pools):
        drop(n)


def run(n, func, case, check):
    """Runs on n ranks; raises Violation if any rank fails or hangs."""
    size = 1 if n == 'nompi' else n[0] if isinstance(n, tuple) else n
    for attempt in (0, 1):
        scratch = check.scratch_dir()
        results, healthy = get(n).job(func, case, scratch)
        bad = [(r, x) for r, x in enumerate(results)
               if isinstance(x, RankFailure)]
        if bad:
            # a rank that failed may have left messages behind: start afresh
            drop(n)
        if not bad:
            return results
        real = [(r, x) for r, x in bad if x.kind in ('violation', 'exception')]
        if real:
            r, x = real[0]
            harness.fail('rank %d of %d: %s', r, size, x)
        harn = [(r, x) for r, x in bad if x.kind == 'harness']
        if harn:
            raise harness.HarnessError(repr(harn[0]))
        if attempt == 0:
            continue            # once more in a fresh pool
        e = harness.Violation('ranks %s of %d: %s (twice, in fresh processes)' % (
            [r for r, _ in bad], size, bad[0][1]))
        e.no_shrink = True
        raise e

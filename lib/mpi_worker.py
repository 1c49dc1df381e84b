"""One MPI rank of a pool (see pool.py)."""
import io
import os
import socket
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
import pool

rank, size = 0, 1
if sys.argv[2] == 'nompi':
    sys.modules['mpi4py'] = None        # importing it raises ImportError
else:
    from mpi4py import MPI
    rank, size = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
    if sys.argv[2]:
        hostname = sys.argv[2].split()[rank]
        socket.gethostname = lambda: hostname
harness.import_modred()
warnings.simplefilter('ignore')
import scen

sock = socket.socket(socket.AF_UNIX)
sock.connect(sys.argv[1])
pool.send(sock, (rank, size, os.getpid()))
devnull = open(os.devnull, 'w')
while True:
    try:
        func, case, scratch = pool.recv(sock)
    except (EOFError, OSError):
        os._exit(0)
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        env = scen.Env(rank, size, scratch, case)
        reply = ('ok', getattr(scen, func)(case, env))
    except harness.Violation as e:
        reply = ('violation', str(e))
    except Exception as e:
        reply = ('exception', '%s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc(limit=-6)))
    sys.stdout, sys.stderr = old
    try:
        pool.send(sock, reply)
    except OSError:
        os._exit(0)

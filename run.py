#!/opt/venv/bin/python
"""Runs one check: run.py <property id> [--replay FILE] (see lib/harness.py)."""
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
want = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
python = '/opt/venv/bin/python'       # has modred's dependencies
if not os.access(python, os.X_OK):
    python = sys.executable
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(python))) or \
        any(os.environ.get(k) != v for k, v in want.items()) or \
        os.environ.get('PYTHONPATH'):
    os.environ.update(want)
    os.environ.pop('PYTHONPATH', None)
    os.execv(python, [python] + sys.argv)
sys.path.insert(0, os.path.join(here, 'lib'))
import harness
code = harness.main(sys.argv[1:])
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)

#!/opt/venv/bin/python
"""Setup: nothing to build; shows that what the checks need is there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import harness
import numpy, scipy, mpi4py, hypothesis
harness.import_modred()
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'mpi4py',
      mpi4py.__version__, 'hypothesis', hypothesis.__version__)

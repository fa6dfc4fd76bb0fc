import argparse
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('tier', choices=['quick', 'thorough'], nargs='?', default='quick')
ap.add_argument('--replay')
a = ap.parse_args()

# one thread per process, no bytecode in /repo, real JIT only where it is the object of the check
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('MPLCONFIGDIR', '/tmp/mpl-verif')
sys.dont_write_bytecode = True
with open(os.path.join(here, 'props', a.prop.lower() + '.py')) as f:
    if '\nJIT = True' not in f.read():
        os.environ['NUMBA_DISABLE_JIT'] = '1'
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import core  # noqa: E402

sys.exit(core.main(a.prop, a.tier, a.replay))

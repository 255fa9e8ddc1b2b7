""" Brings the system under test into the simulator.  Import first. """
import os
import sys
import uuid
import warnings

REPO = os.environ.get('RZSIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.dont_write_bytecode = True
sys.path[:] = [SRC] + [p for p in sys.path if p != SRC]

from . import core                      # noqa: E402
core.install_locks()

import numpy                            # noqa: E402,F401
import scipy.signal                     # noqa: E402,F401
import scipy.interpolate                # noqa: E402,F401
import scipy.special                    # noqa: E402,F401
warnings.simplefilter('ignore')
import dask                             # noqa: E402
import dask.array                       # noqa: E402,F401
import razorback as rzb                 # noqa: E402
import razorback.utils                  # noqa: E402,F401
import razorback.weights                # noqa: E402,F401
import razorback.prefilters             # noqa: E402,F401
import razorback.calibrations           # noqa: E402,F401
import razorback.fourier_transform      # noqa: E402,F401
import razorback.io.ats                 # noqa: E402,F401
import razorback.io.binary_file_array   # noqa: E402,F401
import razorback.cli                    # noqa: E402,F401

PKG = os.path.join(os.path.realpath(SRC), 'razorback') + '/'
_where = os.path.realpath(os.path.dirname(rzb.__file__)) + '/'
if _where != PKG:
    raise SystemExit(f'razorback comes from {_where}, expected {PKG}')
PREFIX = os.path.dirname(rzb.__file__) + '/'

from . import daskget, disk             # noqa: E402

_uuid_rng = core.stream(0, 'uuid')


def seed_uuid(seed):
    global _uuid_rng
    _uuid_rng = core.stream(seed, 'uuid')


def _uuid4():
    return uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)


uuid.uuid4 = _uuid4

_real_showwarning = warnings.showwarning


def _showwarning(message, category, filename, lineno, file=None, line=None):
    s = core.current_sim()
    if s is None:
        return
    t = s.current
    lst = getattr(t, 'warnings', None)
    if lst is not None:
        lst.append((category.__name__, str(message)))


def install():
    daskget.install()
    disk.install()
    warnings.simplefilter('always')
    warnings.showwarning = _showwarning
    sys.stdout = core.ThreadedStdout(sys.stdout)
    _warm_opcode_tracing()


def _warm_opcode_tracing():
    """ CPython 3.12 delivers opcode events only after the first frame asked for
    them and tracing was set again; do that once so that every run sees them """
    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        return tracer

    def victim():
        x = 1
        return x + 1
    for _ in range(3):
        sys.settrace(tracer)
        victim()
        sys.settrace(None)

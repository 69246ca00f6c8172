"""Sets up one interpreter as a simulated world: every seam is installed before the code under test is imported."""
import os
import random
import sys
import threading
import types

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
ROOT = REPO + '/cheval/'
JIT = None


class CoopLock:
    """Stand-in for locks created by the code under test, so that the simulator decides who waits."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        from . import sched
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not sched.block_current():
                raise RuntimeError('deadlock: the lock is held and no other simulated thread can run')
        self._owner = me
        self._count = 1
        return True

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Seams:
    """Per-run behaviour of the seams; reset before and after every run."""

    def __init__(self):
        self.reset(None)

    def reset(self, run):
        self.run = run
        self.ne_before = None      # callables(count) -> None or raises
        self.ne_after = None
        self.ne_calls = 0
        self.ne_blocks = None      # choice source which divides evaluations into blocks and orders these
        self.ne_lock = CoopLock(True)
        self.entropy = random.Random(20240601)
        self.entropy_bytes = None  # callable(n) -> bytes
        self.num_threads_calls = []


SEAMS = Seams()


def divide_evaluations(R):
    """Lets the expression engine evaluate in several blocks, in any order."""
    if R.src.chance(1, 2):
        SEAMS.ne_blocks = R.src
        R.probe('histories with evaluations divided into blocks')


def _divided(ex, kwargs, real, names_of):
    """Evaluates in blocks, in a drawn order, with other simulated caller threads running between the blocks.
    Returns None (without having done anything) for what cannot be divided."""
    import numpy as np
    from . import sched
    src = SEAMS.ne_blocks
    local, out = kwargs.get('local_dict'), kwargs.get('out')
    if local is None or any(f in ex for f in ('sum(', 'prod(', 'min(', 'max(')):
        return None
    try:
        ops = {n: np.asarray(local[n]) for n in names_of(ex)}
        shape = np.broadcast_shapes(*[o.shape for o in ops.values()])
    except Exception:
        return None                 # the engine itself will complain
    if (out is not None and out.shape != shape) or int(np.prod(shape)) < 2:
        return None
    n_blocks = 1 + src.draw(4)
    if n_blocks == 1:
        return None
    axis = src.draw(len(shape))
    n = shape[axis]
    cuts = sorted({0, n} | {src.draw(n) for _ in range(n_blocks - 1)})
    pieces = src.shuffle([slice(a, b) for a, b in zip(cuts, cuts[1:])])

    def part(x, piece):
        ax = axis - (len(shape) - x.ndim)
        if ax < 0 or x.shape[ax] == 1:
            return x
        return x[(slice(None),) * ax + (piece,)]
    kw = {k: v for k, v in kwargs.items() if k not in ('local_dict', 'out', '_frame_depth')}
    with SEAMS.ne_lock:             # the engine evaluates one expression at a time
        for k, piece in enumerate(pieces):
            if k:
                sched.yield_point()
            got = real(ex, local_dict={n: part(o, piece) for n, o in ops.items()},
                       out=None if out is None else part(out, piece), **kw)
            if out is None:
                if k == 0:
                    whole = np.empty(shape, dtype=got.dtype)
                part(whole, piece)[...] = got
    if SEAMS.run is not None:
        SEAMS.run.probe('evaluations divided into blocks')
    return whole if out is None else out


def _install_numexpr():
    import numexpr as ne
    real = ne.evaluate
    ne.set_num_threads(1)
    import numexpr.necompiler as nec

    def names_of(ex):
        return nec.getExprNames(ex, nec.getContext({}))[0]

    def evaluate(ex, *args, **kwargs):
        s = SEAMS
        s.ne_calls += 1
        k = s.ne_calls
        kwargs['_frame_depth'] = kwargs.get('_frame_depth', 3) + 1
        if s.ne_before is not None:
            s.ne_before(k, ex, kwargs)
        result = None
        if s.ne_blocks is not None and not args:
            result = _divided(ex, kwargs, real, names_of)
        if result is None:
            result = real(ex, *args, **kwargs)
        if s.ne_after is not None:
            s.ne_after(k, ex, kwargs)
        return result

    def set_num_threads(n):
        SEAMS.num_threads_calls.append(('numexpr', n))
        return 1

    ne.evaluate = evaluate
    ne.set_num_threads = set_num_threads


def _install_entropy():
    real = random._urandom

    def urandom(n):
        if SEAMS.entropy_bytes is not None:
            return SEAMS.entropy_bytes(n)
        return SEAMS.entropy.randbytes(n)

    # numpy's RandomState()/SeedSequence() take their entropy from `secrets.randbits`, which uses SystemRandom
    random._urandom = urandom
    return real


def _install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def make(real, reentrant):
        def factory(*a, **k):
            name = sys._getframe(1).f_globals.get('__name__', '')
            if name == 'cheval' or name.startswith('cheval.'):
                return CoopLock(reentrant)
            return real(*a, **k)
        return factory

    threading.Lock = make(real_lock, False)
    threading.RLock = make(real_rlock, True)


def prepare_env(jit, cache_dir):
    """Environment of a world's interpreter (must be set before numba is imported)."""
    return {
        'PYTHONDONTWRITEBYTECODE': '1', 'NUMBA_CACHE_DIR': cache_dir, 'NUMBA_NUM_THREADS': '16',
        'NUMBA_DISABLE_JIT': '0' if jit else '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '16',
    }


def enter(jit, instrument_core=False):
    """Imports the code under test into this interpreter, behind the seams."""
    global JIT
    JIT = jit
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pandas  # noqa
    import numba
    assert bool(numba.config.DISABLE_JIT) == (not jit)
    if jit:
        from . import threadlayer
        threadlayer.install()
    else:
        def set_num_threads(n):
            if not isinstance(n, (int, np.integer)):
                raise TypeError('The number of threads specified must be an integer')
            if n < 1 or n > numba.config.NUMBA_NUM_THREADS:
                raise ValueError('The number of threads must be between 1 and %s' % numba.config.NUMBA_NUM_THREADS)
            SEAMS.num_threads_calls.append(('numba', int(n)))
        numba.set_num_threads = set_num_threads
    _install_numexpr()
    _install_entropy()
    _install_locks()
    sys.path.insert(0, REPO)
    from . import parloop
    parloop.install_importer(transform_core=instrument_core and not jit)
    import cheval
    assert os.path.abspath(cheval.__file__).startswith(ROOT), cheval.__file__
    return cheval


def reset(run):
    """Called before (run) and after (None) every simulated run: no state of the process leaks between runs."""
    SEAMS.reset(run)
    if run is not None:
        import numpy as np
        np.random.seed(12345)
        random.seed(12345)
        if JIT:
            from . import threadlayer
            threadlayer.SCHED = None
            threadlayer.RNG.reset(1)
            threadlayer.DROPPED.clear()
    else:
        from . import sched
        sched.stop_all()
    from cheval import LinkedDataFrame
    LinkedDataFrame.reset_fill_defaults()

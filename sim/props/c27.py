"""C27: the process around the package is neither changed nor used."""
import decimal
import gc
import hashlib
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
import pandas as pd

from .. import lm, mm, world
from ..engine import Violation
from .faults import interrupted
from .modelcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa
from . import linkcommon

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 4000, 'jit': 2500}, 'thorough': {'nojit': 150000, 'jit': 100000}}
RULE = ('Each run draws settings of the process (NumPy error handling and print options, pandas options, warning filters, global random '
        'generators, garbage collection, working directory, environment, threads of the engine) and changes them between the operations of '
        'a drawn history on models or linked frames, some of them failing or interrupted at drawn points; the settings are compared around '
        'every operation, results with the reference, and the same run or lookup under different settings bit by bit.')
ASSUMPTIONS = _A + ['the numbers of threads of the two engines are settings that runs are asked to make (n_threads)',
                    'pandas options that make edits by the caller himself fail (mode.chained_assignment = "raise") are not drawn']
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1]
OPS = [(3, 'assign'), (3, 'expr'), (1, 'declare'), (1, 'units'), (2, 'partial'), (1, 'tree'), (1, 'drop_group'), (1, 'precision'),
       (4, 'run'), (3, 'broken'), (3, 'same'), (1, 'copy'), (1, 'subset'), (1, 'preval'), (3, 'refused'), (2, 'ready'),
       (2, 'unseeded')]


def options(node=None, path=''):
    from pandas._config import config
    node = config._global_config if node is None else node
    for k, v in sorted(node.items()):
        if isinstance(v, dict):
            yield from options(v, path + k + '.')
        else:
            yield path + k, v


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def settings():
    state = np.random.get_state()
    return {
        'NumPy error handling': (np.geterr(), np.geterrcall(), np.getbufsize()),
        'NumPy print options': repr(sorted(np.get_printoptions().items(), key=lambda x: x[0])),
        "NumPy's global generator": digest((state[0], state[1].tobytes(), state[2:])),
        "Python's global generator": digest(random.getstate()),
        'pandas options': repr(list(options())),
        'warning filters': (list(warnings.filters), warnings.showwarning, warnings.warn),
        'limits': (sys.getrecursionlimit(), sys.getswitchinterval()),
        'garbage collection': (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)),
        'signal handlers': [signal.getsignal(s) for s in SIGNALS],
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'logging': (logging.root.level, list(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': repr(decimal.getcontext()),
        'hooks': (sys.excepthook, threading.excepthook, sys.stdout, sys.stderr, sys.displayhook),
        'import path': list(sys.path),
        'text written to the standard output': sys.stdout.getvalue(),
        'files opened': len(os.listdir('/proc/self/fd')),
        'files of the working directory': sorted(os.listdir('.')),
        'current mask of new files': umask(),
        'threads': sorted(t.name for t in threading.enumerate()),
    }


class Ambient:
    """Draws settings of the process and puts the original ones back at the end."""

    def __init__(self, R):
        self.R, self.src = R, R.src

    def __enter__(self):
        import numexpr as ne
        self.err, self.prt = np.geterr(), np.get_printoptions()
        self.rng, self.prng = np.random.get_state(), random.getstate()
        self.opts = dict(options())
        self.gc = gc.isenabled()
        self.cwd, self.env = os.getcwd(), dict(os.environ)
        self.filters = list(warnings.filters)
        self.ne = ne.set_num_threads(1)
        self.dir = tempfile.mkdtemp(prefix='verif-c27-')
        self.dirs = [os.path.join(self.dir, n) for n in 'ab']
        for d in self.dirs:
            os.mkdir(d)
        os.chdir(self.dirs[0])
        self.out, sys.stdout = sys.stdout, io.StringIO()
        return self

    def __exit__(self, *a):
        import numexpr as ne
        np.seterr(**self.err)
        np.set_printoptions(**self.prt)
        np.random.set_state(self.rng)
        random.setstate(self.prng)
        for k, v in self.opts.items():
            if dict(options())[k] != v:
                self.option(k, v)
        (gc.enable if self.gc else gc.disable)()
        sys.stdout = self.out
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in [k for k in os.environ if k not in self.env]:
            del os.environ[k]
        os.environ.update(self.env)
        warnings.filters[:] = self.filters
        getattr(warnings, '_filters_mutated', lambda: None)()
        ne.set_num_threads(self.ne)

    def option(self, k, v):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pd.set_option(k, v)

    def change(self):
        import numexpr as ne
        src = self.src
        for what in src.sample(['err', 'print', 'pandas', 'warnings', 'random', 'gc', 'cwd', 'env', 'engine'], src.rint(1, 4)):
            if what == 'err':
                v = src.pick(['raise', 'ignore', 'warn'])
                np.seterr(all=v)
            elif what == 'print':
                v = src.pick([1, 8])
                np.set_printoptions(precision=v, threshold=2 if v == 1 else 1000, suppress=v == 1)
            elif what == 'pandas':
                k, vs = src.pick([('compute.use_numexpr', [True, False]), ('compute.use_bottleneck', [True, False]),
                                  ('display.max_rows', [1, 60]), ('display.precision', [0, 6]), ('mode.use_inf_as_na', [True, False]),
                                  ('mode.chained_assignment', [None, 'warn']), ('display.max_colwidth', [2, 50])])
                v = (k, src.pick(vs))
                self.option(*v)
            elif what == 'warnings':
                v = src.pick(['ignore', 'default', 'always'])
                warnings.simplefilter(v)
            elif what == 'random':
                v = src.draw(1000)
                np.random.seed(v)
                random.seed(v)
            elif what == 'gc':
                v = src.chance(1, 2)
                (gc.enable if v else gc.disable)()
            elif what == 'cwd':
                v = src.draw(2)
                os.chdir(self.dirs[v])
            elif what == 'env':
                v = src.pick(['COLUMNS', 'NUMEXPR_MAX_THREADS', 'OMP_NUM_THREADS', 'VERIF_NOTHING', 'PYTHONHASHSEED'])
                os.environ[v] = str(src.rint(1, 4))
            else:
                v = src.rint(1, 8)
                ne.set_num_threads(v)
            self.R.log('setting', what, v)
            self.R.fault('setting of the process changed: ' + what)


def around(R, what, fn):
    """The operation leaves the settings of the process alone, however it ends."""
    before = settings()
    try:
        return fn()
    finally:
        after = settings()
        R.step()
        R.probe('operations with the settings of the process compared')
        for k, v in before.items():
            if v != after[k]:
                raise Violation('process changed', f'{what} has changed: {k} ({str(v)[:150]} -> {str(after[k])[:150]})')


def unseeded(R, amb, p):
    """Runs without a seed, or with a generator of the caller's: only that generator is drawn from."""
    kw = {'clear_scope': False, 'n_draws': R.src.rint(1, 2)}
    around(R, 'a run without a seed', lambda: p.model.run_discrete(**kw))
    seed = R.src.draw(1000)
    rngs = [np.random.RandomState(seed) for _ in range(2)]
    got = []
    for rng in rngs:
        got.append(around(R, 'a run with a generator', lambda: p.model.run_discrete(random_seed=rng, **kw)))
        amb.change()
    R.log(p.name, 'runs with a generator', seed)
    R.probe('runs with a generator of the caller')
    if not mm.same_results(*got) or any(rngs[0].randint(0, 2 ** 31, 5) != rngs[1].randint(0, 2 ** 31, 5)):
        raise Violation('process used', 'two equal generators gave different choices')


def models(R, amb):
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(3)):
        around(R, 'adding an expression', lambda: mc.op_expr(p))
    for k in range(src.rint(2, 9)):
        p = src.pick(mc.pairs)
        op = src.weighted(OPS)
        if src.chance(1, 2):
            amb.change()
        if op == 'run':
            if src.chance(2, 3):
                mc.make_ready(p)
            note_state(R, p)
            around(R, 'a run', lambda: mc.op_run(p))
        elif op == 'unseeded':
            mc.make_ready(p)
            if mc.expectation(p)[0] == 'value':
                unseeded(R, amb, p)
        elif op in ('same', 'broken'):
            mc.make_ready(p)
            if mc.expectation(p)[0] != 'value':
                continue
            kw = {'clear_scope': False, 'n_threads': src.rint(1, 4)}
            if src.chance(1, 2):
                fn, kind = (lambda: p.model.run_stochastic(**kw)), 'stochastic'
            else:
                fn, kind = (lambda: p.model.run_discrete(random_seed=5, n_draws=2, **kw)), 'discrete'
            if op == 'broken':
                around(R, 'an interrupted run', lambda: interrupted(R, 'run', fn, engine=True))
                continue
            a = around(R, 'a run', fn)
            amb.change()
            b = around(R, 'a run', fn)
            R.log(p.name, 'run twice', kind)
            R.probe('runs under two settings of the process compared')
            if not mm.same_results(a, b):
                raise Violation('process used', f'the {kind} results changed with the settings of the process')
        elif op == 'ready':
            around(R, 'assigning', lambda: mc.make_ready(p))
        elif op == 'refused':
            around(R, 'a refused edit', lambda: mc.op_refused(p))
        else:
            around(R, op, lambda: getattr(mc, 'op_' + op)(p))
    mc.make_ready(p)
    around(R, 'a run', lambda: mc.op_run(p))


def frames(R, amb):
    src = R.src
    mc = around(R, 'linking', lambda: lm.LinkMachine(R, many=src.chance(2, 3), deferred=src.pick([1, 4]), max_rows=src.pick([4, 8])))
    for k in range(src.rint(2, 8)):
        if not mc.live:
            return
        fs = src.pick(mc.live)
        linkcommon.note_state(R, fs)
        if src.chance(1, 2):
            amb.change()
        op = src.weighted([(4, 'look'), (3, 'broken'), (3, 'same'), (2, 'derive'), (1, 'relink'), (1, 'recompute'), (2, 'refuse'),
                           (1, 'eval'), (1, 'write'), (1, 'inplace')])
        if op == 'look':
            around(R, 'a lookup', lambda: mc.check_some(fs, 2))
        elif op == 'broken':
            around(R, 'an interrupted lookup', lambda: interrupted(R, 'lookup', lambda: mc.check_some(fs, 1), engine=True))
        elif op == 'eval':
            around(R, 'an evaluation', lambda: mc.check_eval(fs))
        elif op == 'same':
            paths = [p for p in mc.paths(fs) if p[0][0] in fs.must]
            if not paths:
                continue
            path = src.pick(paths)
            if path[-1][1].many:
                get = lambda: mc.walk(fs, path).count()  # noqa
            elif 'f' in path[-1][1].other.plain.columns:
                get = lambda: mc.walk(fs, path)['f']  # noqa
            else:
                continue
            a = around(R, 'a lookup', get)
            amb.change()
            b = around(R, 'a lookup', get)
            R.probe('lookups under two settings of the process compared')
            if mm.fingerprint(a) != mm.fingerprint(b):
                raise Violation('process used', f'{fs.name}: a lookup changed with the settings of the process')
        elif op == 'write':
            text = around(R, 'writing', lambda: fs.df.to_csv())
            amb.change()
            if around(R, 'writing', lambda: fs.df.to_csv()) != text:
                raise Violation('process used', f'{fs.name}: its text changed with the settings of the process')
            from cheval import LinkedDataFrame
            around(R, 'reading', lambda: LinkedDataFrame.read_csv(io.StringIO(text)))
        elif op == 'derive':
            ns = around(R, 'a derivation', lambda: mc.derive(fs))
            if ns is not None:
                mc.live.append(ns)
                if len(mc.live) > 4:
                    mc.live.pop(src.draw(4))
        elif op == 'recompute':
            around(R, 'computing links', lambda: mc.recompute(fs))
        elif op == 'refuse':
            around(R, 'a refused operation', lambda: mc.refuse(fs))
        else:
            around(R, op, lambda: getattr(mc, op)(fs))
    for fs in mc.live:
        around(R, 'lookups', lambda: mc.check_all(fs))


def run(R):
    with Ambient(R) as amb:
        amb.change()
        (models if world.JIT else frames)(R, amb)  # interpreted kernels would draw from NumPy's global generator
    R.nontrivial = True

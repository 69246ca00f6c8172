"""Shared by the kernel properties: running a model under a drawn schedule, in either world."""
import numpy as np
import pandas as pd

from . import parloop, threadlayer, world


class Schedule:
    """A drawn way to execute every parallel loop of one operation. Schedule 0: plain, in order, on the caller."""

    def __init__(self, run, plain=False, small=False):
        self.run = run
        self.plain = plain
        src = run.src
        self.n_threads = 1 if plain else src.pick([1, 2, 3, 4, 5, 8, 16])
        self.instr = (not plain) and (not world.JIT) and src.chance(1, 4)
        self.dirty = 0 if plain else src.draw(1000)

    def __enter__(self):
        if world.JIT:
            threadlayer.SCHED = None if self.plain else threadlayer.SeededSchedule(self.run.src)
            threadlayer.RNG.reset(self.dirty)
            threadlayer.SIGS = []
        elif not self.plain:
            parloop.PAR = parloop.ParPolicy(self.run, self.n_threads, self.instr)
            parloop.PAR.dirty = self.dirty
        if not self.plain:
            self.run.fault('schedule change')
        return self

    def __exit__(self, *a):
        if world.JIT:
            sigs = threadlayer.SIGS
            threadlayer.SCHED = None
            threadlayer.SIGS = None
            if sigs and not self.plain:
                self.run.state('schedule', self.n_threads, tuple(sigs))
                self.run.log('schedule', self.n_threads, 'threads', [s[0] for s in sigs], [s[2] for s in sigs])
                self.run.probe('pieces moved to other workers', sum(w != 0 for s in sigs for w in s[1]))
            if threadlayer.DROPPED:
                self.run.probe('exceptions lost on workers', len(threadlayer.DROPPED))
                threadlayer.DROPPED.clear()
        else:
            parloop.PAR = None
        return False


def make_model(run, tree, units, util, precision, feed=None):
    """A model whose utilities are exactly `util` (nodes in insertion order)."""
    from cheval.model import ChoiceModel
    src = run.src
    model = ChoiceModel(precision=precision)
    tree.build(model)
    model.decision_units = units
    feed_utilities(run, model, tree, units, util, src.draw(3) if feed is None else feed)
    return model


def feed_utilities(run, model, tree, units, util, feed):
    cols = model.choices
    dt = 'f4' if model.precision == 4 else 'f8'
    table = pd.DataFrame(np.ascontiguousarray(util.astype(dt)), index=units, columns=cols)
    if feed == 0:
        model.declare_matrix('U')
        model['U'].assign(table)
        model.expressions.append('U')
    elif feed == 1:   # in two halves, through a filter-free sum
        model.declare_matrix('U1')
        model.declare_matrix('U2')
        half = util.copy()
        half[~np.isfinite(half)] = 0
        rest = np.where(np.isfinite(util), 0.0, util)
        model['U1'].assign(pd.DataFrame(half.astype(dt), index=units, columns=cols))
        model['U2'].assign(pd.DataFrame(rest.astype(dt), index=units, columns=cols))
        model.expressions.append('U1 + U2')
    else:
        order = list(range(len(cols)))[::-1]
        model.declare_matrix('U')
        model['U'].assign(table.iloc[:, order])
        model.expressions.append('U')


def stats():
    d = {'parallel_loops_simulated': threadlayer.STATS['loops'], 'pieces_executed': threadlayer.STATS['pieces'],
         'loops_executed_out_of_order': threadlayer.STATS['reordered'],
         'preempted_loops': parloop.STATS['preempted_loops'], 'baton_switches': parloop.STATS['switches'],
         'loops_run_in_order_only': parloop.STATS['sequential_only']}
    if parloop.TRANSFORMED:
        d['rewritten_parallel_loops'] = {k: ','.join(v) for k, v in parloop.TRANSFORMED.items()}
    return d


REAL = ('cheval (all of it, compiled kernels in world jit, the same kernels as Python with rewritten parallel loops in '
        'world nojit), numba code generation, numpy, pandas, numexpr engine (one real thread)')
STUBS = ('numba threading layer (omp/workqueue) replaced by a seeded simulation; numexpr thread pool reduced to one '
         'thread; process entropy source; locks created by cheval')

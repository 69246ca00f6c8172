"""C23: released data is let go, whatever happened before."""
import gc
import weakref

import numpy as np
import pandas as pd

from .. import mm
from ..engine import Violation
from .c07 import keep_debug
from .faults import interrupted
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 9500}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws a history of assignments, runs (some failing or interrupted), pre-evaluations, unit and tree changes, copies, '
        'subsets and clearing; weak references to every table, series and array which was assigned tell whether anything still holds '
        'the data that no symbol of any model has any more. Garbage is collected at drawn moments only, by the simulator.')
OPS = [(5, 'assign'), (2, 'expr'), (1, 'declare'), (2, 'units'), (2, 'tree'), (2, 'partial'), (2, 'clear_scope'), (1, 'drop_group'), (1, 'debug'),
       (6, 'run'), (3, 'failed_run'), (1, 'copy'), (1, 'subset'), (2, 'preval'), (1, 'drop_model'), (2, 'refused')]


def setup(jit):
    gc.collect()
    gc.freeze()          # what exists before the runs isn't traversed each time


def owner(arr):
    while isinstance(arr.base, np.ndarray):
        arr = arr.base
    return arr


class Given:
    """Something assigned: weak references to the object and to the memory which a symbol would hold."""

    def __init__(self, name, data, sym):
        self.name, self.ref = name, None
        self.weak = []
        if isinstance(data, np.ndarray):
            self.weak.append(('array', weakref.ref(owner(data))))
        elif isinstance(data, pd.Series):
            self.weak.append(('series', weakref.ref(data)))
            self.weak.append(('array of the series', weakref.ref(owner(data.to_numpy()))))
        elif isinstance(data, pd.DataFrame):
            self.weak.append(('table', weakref.ref(data)))
            if sym.kind == 'matrix':
                self.weak.append(('array of the table', weakref.ref(owner(data.to_numpy()))))

    def alive(self):
        return [what for what, w in self.weak if w() is not None]


class Machine(mm.Machine):
    def __init__(self, R):
        super().__init__(R, max_depth=2)
        self.given = []
        self.uni.note = lambda what, obj: obj       # the simulator doesn't keep data either

    def draw_data(self, p, name, *a, **k):
        data, ref = super().draw_data(p, name, *a, **k)
        s = p.ref.scope[name]
        if s.kind != 'number':
            g = Given(name, data, s)
            g.ref = ref
            self.given.append(g)
        return data, ref

    def held(self):
        return {id(s.data) for q in self.pairs for s in q.ref.scope.values() if s.data is not None and s.status != 'empty'}

    def check(self, when):
        held = self.held()
        loose = [g for g in self.given if id(g.ref) not in held]
        if not loose:
            return
        if any(g.alive() for g in loose):
            gc.collect()
        for g in loose:
            kept = g.alive()
            if kept:
                raise Violation('kept', f'the {kept[0]} assigned to {g.name} is still held {when}, although no symbol has it')
        self.given = [g for g in self.given if id(g.ref) in held]
        self.R.probe('data found released', len(loose))


def failed_run(R, mc, p):
    """A run or pre-evaluation with a fault at a drawn point, after which everything is released."""
    src = R.src
    mc.make_ready(p)
    if p.ref.units is None or not p.ref.tree_ready():
        return
    clear = src.chance(1, 3)
    group = src.pick(list(p.ref.groups)) if p.ref.groups and src.chance(1, 3) else None
    m = p.model
    if group is not None and src.chance(1, 2):
        what, fn = 'preval', lambda: m.preval(group)
    else:
        what, fn = 'run', lambda: m.run_stochastic(clear_scope=clear, group=group)
    from cheval.core import UtilityBoundsError

    def tried():
        try:
            fn()
        except (UtilityBoundsError, KeyError, AssertionError, ValueError, TypeError):
            pass
    interrupted(R, what, tried, engine=True)
    m.clear_scope()
    p.ref.scope.clear()
    if what == 'preval':
        m.expressions.clear()
        p.ref.ungrouped, p.ref.groups = [], {}
        mc.op_units(p)                  # what it has (not) evaluated is the subject of C06
        if p.ref.partial is not None or m._cached_utils is not None:
            p.dead = True


def run(R):
    src = R.src
    mc = Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(4)):
        mc.op_expr(p)
    mc.make_ready(p)
    for k in range(src.rint(3, 14)):
        live = [q for q in mc.pairs if not getattr(q, 'dead', False)]
        if not live:
            break
        p = src.pick(live)
        op = src.weighted(OPS)
        if op == 'run':
            if not src.chance(1, 5):
                mc.make_ready(p)
            note_state(R, p)
            mc.op_run(p)
        elif op == 'failed_run':
            failed_run(R, mc, p)
        elif op == 'tree':
            if len(mc.pairs) == 1:       # copies share their nodes
                mc.op_tree(p)
        elif op == 'debug':
            if p.ref.units is not None and len(p.ref.units):
                p.model.debug_id = p.ref.debug_id = src.pick([None] + list(p.ref.units[:4]))
        elif op == 'drop_model':
            if p.name != 'M':
                mc.pairs.remove(p)
                mc.R.log('model', p.name, 'dropped')
        elif op == 'preval':
            if src.chance(3, 4):
                mc.make_ready(p)
            mc.op_preval(p)
        elif op == 'refused':
            mc.op_refused(p, src.pick(['assign', 'assign', 'partial']))
        elif op in ('copy', 'subset'):
            mc.make_ready(p)
            getattr(mc, 'op_' + op)(p)
        else:
            getattr(mc, 'op_' + op)(p)
        for q in mc.pairs:
            keep_debug(q)
        p = live = q = None
        mc.check('after ' + op)
    for p in mc.pairs:
        p.model.clear_scope()
        p.ref.scope.clear()
    mc.check('after everything was cleared')
    R.nontrivial = True

"""C10: refused edits leave no trace, on models (sim/mm) and on linked frames (sim/lm)."""
import pandas as pd

from .. import lm, mm
from . import linkcommon
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 6500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws a history of accepted edits and runs of a model, or of links, derivations, fill settings and lookups of linked '
        'frames, with refused edits of every kind placed in it; the reference never sees the refused ones.')
OPS = [(2, 'assign'), (3, 'expr'), (1, 'expr_batch'), (1, 'declare'), (1, 'units'), (2, 'partial'), (1, 'tree'), (1, 'scale'),
       (1, 'drop_group'), (1, 'precision'), (5, 'run'), (10, 'refused')]


FRAME_OPS = [(8, 'refuse'), (2, 'look'), (2, 'derive'), (2, 'relink'), (1, 'inplace'), (1, 'recompute'), (2, 'refuse target'), (1, 'fill')]


def frames(R):
    src = R.src
    mc = lm.LinkMachine(R, many=src.chance(2, 3), deferred=src.pick([4, 2]), max_rows=src.pick([6, 11]))
    if not mc.live:
        return
    for k in range(src.rint(3, 14)):
        fs = src.pick(mc.live)
        linkcommon.note_state(R, fs)
        op = src.weighted(FRAME_OPS)
        if op == 'refuse':
            mc.refuse(fs)
        elif op == 'refuse target':
            t = src.pick(mc.tables)
            if t.ldf:
                mc.refuse(mc.state_of(t))
        elif op == 'look':
            mc.check_some(fs, 2)
        elif op == 'derive':
            ns = mc.derive(fs)
            if ns is not None:
                mc.live.append(ns)
        elif op == 'inplace':
            mc.inplace(fs)
        elif op == 'fill':
            targets = [t for t in mc.tables if t.ldf]
            if targets:
                t = src.pick(targets)
                fill = src.pick([{'INT_NAME': 5}, {'FLOAT_NAME': -0.5, 'TEXT_NAME': 'none'}, {'TIME_NAME': pd.Timestamp('2001-01-01')}])
                R.log('fill', t.name, fill)
                t.df.set_fill_defaults(**fill)
                t.type_fill.update(fill)
        else:
            getattr(mc, op)(fs)
        if len(mc.live) > 4:
            mc.live.pop(src.draw(4))
    for fs in mc.live:
        linkcommon.note_state(R, fs)
        mc.check_all(fs)
    mc.check_tables()
    R.nontrivial = True


def run(R):
    src = R.src
    if src.chance(1, 3):
        return frames(R)
    mc = mm.Machine(R)
    p = mc.pairs[0]
    if src.chance(4, 5):
        mc.op_units(p)
    for _ in range(1 + src.draw(3)):
        mc.op_expr(p)
    for k in range(src.rint(2, 12)):
        op = src.weighted(OPS)
        if op == 'run':
            if not src.chance(1, 6):
                mc.make_ready(p)
            note_state(R, p)
            mc.op_run(p)
        elif op == 'refused' and src.chance(1, 3):
            mc.make_ready(p)
            mc.op_refused(p, 'assign')
        else:
            getattr(mc, 'op_' + op)(p)
    mc.make_ready(p)
    for g in [None] + list(p.ref.groups):
        note_state(R, p)
        mc.op_run(p, group=g, kw={'clear_scope': False}, kind='stochastic')
    mc.op_run(p)

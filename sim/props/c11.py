"""C11: pre-evaluating groups does not change results."""
from .. import mm
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 6000}, 'thorough': {'nojit': 250000}}
RULE = ('Each run divides drawn expressions into groups sharing symbols, pre-evaluates groups in any order with any options, '
        'with copies, subsets, assignments and runs between; every run is compared with the reference that evaluates all.')
OPS = [(3, 'assign'), (3, 'expr'), (2, 'partial'), (3, 'run'), (1, 'copy'), (2, 'subset'), (8, 'preval'), (1, 'units'),
       (1, 'tree')]


def run(R):
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(2 + src.draw(5)):
        mc.op_expr(p, src.pick([None] + mm.GROUPS + mm.GROUPS[:2]))
    if src.chance(1, 3):
        mc.op_partial(p)
    mc.make_ready(p)
    for k in range(src.rint(2, 10)):
        p = src.pick(mc.pairs)
        op = src.weighted(OPS)
        if op in ('run', 'preval'):
            if src.chance(1, 3):
                mc.make_ready(p)
            note_state(R, p)
            if op == 'run':
                mc.op_run(p, kw={'clear_scope': src.chance(1, 6)})
            else:
                mc.op_preval(p)
                R.nontrivial = True
                if src.chance(2, 3):
                    mc.op_run(p, group=None, kw={'clear_scope': False})
        else:
            getattr(mc, 'op_' + op)(p)
    for p in mc.pairs:
        mc.make_ready(p)
        mc.op_run(p, group=None, kw={'clear_scope': False}, kind='stochastic')

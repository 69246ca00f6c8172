"""C07: copies and subsets are exact and independent, in any interleaving of later operations."""
from .. import mm
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 6000}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws a model history, takes copies (every option) and subsets (every mask) of any of the models at any '
        'point and interleaves further operations on all of them; each model has its own reference.')
OPS = [(3, 'assign'), (2, 'expr'), (1, 'expr_batch'), (1, 'declare'), (1, 'units'), (3, 'partial'), (1, 'drop_group'),
       (1, 'clear_scope'), (1, 'expr_clear'), (1, 'precision'), (5, 'run'), (3, 'copy'), (3, 'subset'), (2, 'preval'), (1, 'debug'), (2, 'refused'), (1, 'groups'), (2, 'renew')]


def keep_debug(p):
    """Tracing a unit that is not there any more is not a case of the property."""
    if p.ref.debug_id is not None and (p.ref.units is None or p.ref.debug_id not in list(p.ref.units)):
        p.model.debug_id = p.ref.debug_id = None


def run(R):
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(4)):
        mc.op_expr(p)
    mc.make_ready(p)
    if src.chance(1, 2):
        mc.op_partial(p)
    for k in range(src.rint(3, 14)):
        p = src.pick(mc.pairs)
        op = src.weighted(OPS)
        keep_debug(p)
        if op in ('copy', 'subset') and src.chance(1, 2):
            mc.make_ready(p)
        if op == 'run':
            if not src.chance(1, 4):
                mc.make_ready(p)
            note_state(R, p)
            mc.op_run(p, kw=None if src.chance(1, 2) else {'clear_scope': False})
        elif op == 'debug':
            if p.ref.units is not None and len(p.ref.units):
                p.model.debug_id = p.ref.debug_id = src.pick([None] + list(p.ref.units[:4]))
                R.log(p.name, 'debug_id', p.ref.debug_id)
        elif op == 'preval':
            if src.chance(3, 4):
                mc.make_ready(p)
            mc.op_preval(p)
        elif op == 'refused':
            mc.op_refused(p, src.pick(['assign', 'assign', 'partial']))
        else:
            q = getattr(mc, 'op_' + op)(p)
            if op in ('copy', 'subset') and q is not None:
                R.nontrivial = True
                R.probe('subsets taken' if op == 'subset' else 'copies taken')
                keep_debug(q)
                if src.chance(1, 4):
                    mc.op_renew(src.pick([p, q]))
                if src.chance(1, 2):
                    mc.op_run(q, group=None, kw={'clear_scope': False})
    for p in mc.pairs:
        keep_debug(p)
        mc.op_run(p, group=None, kw={'clear_scope': False}, kind='stochastic')
        mc.make_ready(p)
        note_state(R, p)
        mc.op_run(p, group=None, kw={'clear_scope': False}, kind='stochastic')

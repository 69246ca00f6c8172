"""C20: runs never use missing, stale or mismatched data."""
from .. import mm
from ..engine import Violation
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 8000}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws a history of unit changes, tree edits, declarations, assignments (matching and mismatching), clearing '
        'and run attempts, most of them without making the model ready first; readiness and results follow the reference.')
OPS = [(5, 'assign'), (2, 'expr'), (2, 'declare'), (4, 'units'), (2, 'partial'), (2, 'tree'), (1, 'clear_scope'), (1, 'drop_group'),
       (3, 'refused'), (8, 'run'), (3, 'ready'), (1, 'half_nest'), (1, 'preval')]


def half_nest(R, mc, p):
    """A nest with a single child is not ready; completing it makes it so."""
    src = R.src
    leaves = [n for n in p.ref.tree.nodes if not n.children and len(n.path) < 3]
    if not leaves:
        return
    path = src.pick(leaves).path
    names = src.sample(['a', 'b', 'bus'], 2)
    for k, nm in enumerate(names):
        p.nodes[path + (nm,)] = p.nodes[path].add_choice(nm)
        p.ref.add_choice(nm, 1.0, path)
        R.log(p.name, 'add choice', '.'.join(path + (nm,)))
        if k == 0:
            mc.op_run(p)
            R.fault('run attempted on an unfinished tree')


def run(R):
    from cheval.model import ChoiceModel
    from cheval.exceptions import ModelNotReadyError
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    if src.chance(1, 12):
        m = ChoiceModel()
        k = src.draw(3)
        if k:
            m.add_choice('a')
        if k == 2:
            m.add_choice('b')
        else:
            m.decision_units = [1, 2]
        for fn in (m.run_stochastic, m.run_discrete):
            try:
                fn()
            except (ModelNotReadyError, ValueError):
                R.fault('run of an unfinished model')
            else:
                raise Violation('no error', 'an unfinished model was run')
    if src.chance(3, 4):
        mc.op_units(p)
    for _ in range(1 + src.draw(3)):
        mc.op_expr(p)
    if src.chance(1, 2):
        mc.make_ready(p)
    for k in range(src.rint(3, 14)):
        op = src.weighted(OPS)
        if op == 'run':
            note_state(R, p)
            exp, got = mc.op_run(p, kw={'clear_scope': src.chance(1, 4)})
            if exp[0] == 'error':
                R.fault('run refused')
        elif op == 'ready':
            mc.make_ready(p)
        elif op == 'refused':
            mc.op_refused(p, src.pick(['assign', 'assign', 'assign', 'reserved', 'partial', 'mask']))
        elif op == 'half_nest':
            half_nest(R, mc, p)
        elif op == 'preval':
            mc.op_preval(p)
        elif op == 'tree':
            mc.op_tree(p)
            check_index(R, p)
        else:
            getattr(mc, 'op_' + op)(p)
    mc.make_ready(p)
    note_state(R, p)
    mc.op_run(p)


def check_index(R, p):
    """The choice index always reflects the current tree."""
    if p.ref.tree_ready():
        if list(p.model.choices) != p.ref.tree.labels():
            raise Violation('stale index', f'choices {list(p.model.choices)} for {p.ref.tree.labels()}')
        el = p.ref.tree.elemental()
        if list(p.model.elemental_choices) != [p.ref.tree.labels()[k] for k in el]:
            raise Violation('stale index', f'elemental choices {list(p.model.elemental_choices)}')

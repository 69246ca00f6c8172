"""C05: runs refine the reference model over any history of use."""
from .. import mm
from ..engine import Violation
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 6500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws a tree and a history of construction, declaration, assignment, expression, group, partial-utility, '
        'tree-edit, precision, clearing and run operations; every run is compared with the reference model.')
OPS = [(3, 'assign'), (3, 'expr'), (1, 'expr_batch'), (1, 'declare'), (1, 'units'), (2, 'partial'), (1, 'tree'), (1, 'scale'),
       (1, 'drop_group'), (1, 'clear_scope'), (1, 'expr_clear'), (1, 'precision'), (6, 'run'), (2, 'repeat')]


def run(R):
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    ops = list(OPS)
    if src.chance(1, 40):
        mc.n = src.rint(600, 1500)     # several evaluation blocks of the expression engine
        R.probe('histories with several evaluation blocks')
    mc.op_units(p)
    for _ in range(1 + src.draw(4)):
        mc.op_expr(p)
    n_ops = src.rint(2, 14 if mc.n is None else 6)
    for k in range(n_ops):
        op = src.weighted(ops)
        if op == 'run':
            if not src.chance(1, 5):
                mc.make_ready(p)
            note_state(R, p)
            mc.op_run(p)
            R.nontrivial = True
        elif op == 'repeat':
            mc.make_ready(p)
            kw = dict(clear_scope=False, check_infeasible=False)
            exp = mc.expectation(p, None, False)
            first = mc.call(lambda: p.model.run_stochastic(**kw), 'run')
            mc.judge(p, 'stochastic', exp, first, kw)
            if first[0] == 'value':
                second = mc.call(lambda: p.model.run_stochastic(**kw), 'run')
                R.log('run twice')
                if second[0] != 'value' or not mm.same_results(first[1], second[1]):
                    raise Violation('repeat differs', f'repeating a run gave something else ({second[0]})')
        else:
            getattr(mc, 'op_' + op)(p)
    mc.make_ready(p)
    note_state(R, p)
    mc.op_run(p)

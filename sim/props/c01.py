"""C01: stochastic runs equal the logit definition, bit for bit the same on every schedule."""
import numpy as np

from .. import kernels, logit
from ..engine import Violation
from ..kernels import Schedule

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 1400, 'jit': 3500}, 'thorough': {'nojit': 60000, 'jit': 200000}}
INSTRUMENT_CORE = True
RULE = ('Each run draws a tree (multinomial or nested, depth up to 3), units, precision, utilities and one in-order '
        'execution plus several drawn schedules (threads, division, order, preemption points) of the same model.')
STATE_MEASURE = 'distinct division/assignment/order tuples (jit) and preemption traces (nojit) of parallel loops'
REAL, STUBS = kernels.REAL, kernels.STUBS
stats = kernels.stats


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_stochastic(res, tree, units, util, precision, scale, infeasible_zero=False):
    probs, top, terms = res
    ref_p, ref_top, ref_terms = logit.reference(tree, util, scale)
    el = tree.elemental()
    labels = tree.labels()
    if not probs.index.equals(units) or not top.index.equals(units) or not terms.index.equals(units):
        raise Violation('labels', 'result is not indexed by the decision units')
    if list(probs.columns) != [labels[k] for k in el] or list(terms.columns) != labels:
        raise Violation('labels', f'columns {list(probs.columns)} / {list(terms.columns)} for {labels}')
    rtol, atol = (2e-5, 1e-7) if precision == 4 else (1e-9, 1e-12)
    for what, got, want in (('probabilities', probs.to_numpy(), ref_p[:, el]), ('top logsum', top.to_numpy(), ref_top),
                            ('logsum terms', terms.to_numpy(), ref_terms)):
        bad = ~np.isclose(got, want, rtol=rtol, atol=atol if what == 'probabilities' else 0)
        if what != 'probabilities':
            bad &= ~((np.abs(got) < 1e-30) & (np.abs(want) < 1e-30))
        if bad.any():
            where = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation('definition', f'{what} at {where}: {got[where]!r}, the definition gives {want[where]!r}')
    tot = probs.to_numpy().sum(axis=1)
    feasible = ref_top > 0
    if not np.allclose(tot[feasible], 1.0, rtol=0, atol=1e-9):
        raise Violation('sum to one', f'{tot}')


def run(R):
    src = R.src
    tree = logit.gen_tree(src)
    n = src.weighted([(4, src.rint(1, 5)), (4, src.rint(6, 14)), (1, src.rint(15, 40))])
    precision = src.pick([8, 4])
    units = logit.gen_units(src, n)
    util = logit.gen_utilities(src, n, tree, precision)
    scale = not src.chance(1, 4)
    R.log('tree', tree, 'rows', n, 'precision', precision, 'scale', scale, 'util',
          float(np.nan_to_num(util, neginf=-99).sum()))
    model = kernels.make_model(R, tree, units, util, precision)
    base = None
    k = 2 + src.draw(3)
    for j in range(k):
        with Schedule(R, plain=(j == 0)) as s:
            res = model.run_stochastic(n_threads=s.n_threads, clear_scope=False, scale_utilities=scale,
                                       check_infeasible=not src.chance(1, 4))
        arrays = [x.to_numpy() for x in res]
        if base is None:
            base = arrays
        else:
            for what, a, b in zip(('probabilities', 'top logsum', 'logsum terms'), base, arrays):
                if not same_bits(a, b):
                    raise Violation('schedule dependent', f'{what} differ between the in-order execution and {s.n_threads}'
                                    f' threads: max difference {np.nanmax(np.abs(a - b))}')
        check_stochastic(res, tree, units, util, precision, scale)
        R.step(n)
    R.state('case', tree.depth, len(tree.nodes), n, precision)

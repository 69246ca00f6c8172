"""C04: infeasible or invalid utilities are always reported, never turned into results."""
import numpy as np
import pandas as pd

from .. import kernels, logit
from ..engine import Violation
from ..kernels import Schedule
from .c01 import check_stochastic

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 1200, 'jit': 2500}, 'thorough': {'nojit': 50000, 'jit': 150000}}
INSTRUMENT_CORE = True
RULE = ('Each run draws a model and marks any number of units as infeasible, overflowing or not-a-number, then executes '
        'stochastic and discrete runs under drawn schedules, so that any worker may evaluate the bad unit.')
STATE_MEASURE = 'distinct division/assignment/order tuples (jit) and preemption traces (nojit) of parallel loops'
REAL, STUBS = kernels.REAL, kernels.STUBS
stats = kernels.stats


def extreme(src, tree, util, row, how, precision, scale):
    """Moves the utilities of a unit such that its logsum is nearly too small or too large, but still a number like any other."""
    low, high = (-36, 37) if precision == 4 else (-304, 306)
    reach = src.pick([0.5, 3, 20])
    aim = (low + src.num(0, reach, reach / 8)) if how == 'smallest' else (high - src.num(0, reach, reach / 8))
    moved = util[row:row + 1].copy()
    _, top, _ = logit.reference(tree, moved, scale)
    for node in tree.tops:
        moved[0, node.pos] += aim * np.log(10) - np.log(top[0])
    moved = moved.astype(np.float32 if precision == 4 else np.float64).astype(np.float64)
    _, top, terms = logit.reference(tree, moved, scale)
    if not (10.0 ** (low - 1) < top[0] < 10.0 ** (high + 1) and np.isfinite(terms).all()):
        return False
    util[row] = moved[0]
    return True


def run(R):
    from cheval.core import UtilityBoundsError
    src = R.src
    tree = logit.gen_tree(src)
    n = src.weighted([(4, src.rint(1, 5)), (4, src.rint(6, 14)), (1, src.rint(15, 40))])
    precision = src.pick([8, 4])
    units = logit.gen_units(src, n)
    good = logit.gen_utilities(src, n, tree, precision)
    scale = not src.chance(1, 4)
    m = len(tree.nodes)
    leaves = tree.elemental()
    util = good.copy()
    bad = {}
    n_bad = src.weighted([(3, 0), (6, 1), (2, 2), (1, n)])
    for _ in range(n_bad):
        row = src.pick([src.draw(n), n - 1, 0])
        kind = src.pick(['infeasible', 'overflow', 'nan'])
        if row in bad:
            continue
        bad[row] = kind
        if kind == 'infeasible':
            how = src.draw(3)
            if how == 0:
                util[row] = -np.inf
            elif how == 1:
                util[row] = -1e5
            else:  # only the alternatives themselves, nests stay at their utility
                for p in leaves:
                    util[row, p] = src.pick([-np.inf, -1e5])
        elif kind == 'overflow':
            p = src.pick(leaves)
            util[row, p] = src.pick([1e5, np.inf, 2000.0])
            if util[row, p] == 2000.0:  # not hidden by an unavailable nest above
                node = tree.nodes[p].parent
                while node is not None:
                    if not util[row, node.pos] > -5:
                        util[row, node.pos] = 0.0
                    node = node.parent
        else:
            util[row, src.draw(m)] = np.nan
    edges = {}
    if src.chance(1, 2):
        for row in src.sample(list(range(n)), src.rint(1, min(n, 3))):
            how = src.pick(['smallest', 'largest'])
            if row not in bad and extreme(src, tree, util, row, how, precision, scale):
                edges[row] = how
                R.fault('unit at the edge of what can be represented')
    R.log('tree', tree, 'rows', n, 'precision', precision, 'scale', scale, 'bad', sorted(bad.items()), 'edges', sorted(edges.items()))
    for k in bad.values():
        R.fault('unit made ' + k)
    order = src.draw(2)
    for _ in range(1 + src.draw(2)):
        model = kernels.make_model(R, tree, units, util, precision, feed=src.pick([0, 2]))
        check = not src.chance(1, 3)
        discrete = src.chance(1, 2)
        n_draws = src.pick([1, 2, 5])
        fatal = any(k != 'infeasible' for k in bad.values()) or (bool(bad) and (discrete or check))
        try:
            with Schedule(R, plain=src.chance(1, 8)) as s:
                if discrete:
                    res = model.run_discrete(random_seed=src.draw(100), n_draws=n_draws, n_threads=s.n_threads,
                                             scale_utilities=scale, clear_scope=False)
                else:
                    res = model.run_stochastic(n_threads=s.n_threads, scale_utilities=scale, check_infeasible=check,
                                               clear_scope=False)
            raised = False
        except UtilityBoundsError as e:
            raised = True
            R.log('raised', e)
        R.step(n)
        R.log('discrete' if discrete else 'stochastic', 'check', check, 'raised', raised)
        if fatal and not raised:
            raise Violation('not reported', f'{sorted(bad.items())}: a {"discrete" if discrete else "stochastic"} run '
                            f'(check_infeasible={check}) returned a result')
        if raised and not fatal:
            raise Violation('spurious', f'UtilityBoundsError although no unit is bad ({sorted(bad.items())}, check={check})')
        if not raised and not discrete:
            R.probe('results with infeasible units' if bad else 'results without bad units')
            check_stochastic(res, tree, units, util, precision, scale)
            for r in bad:
                if res[0].to_numpy()[r].any() or res[1].to_numpy()[r] != 0:
                    raise Violation('infeasible unit', f'unit {r}: {res[0].to_numpy()[r]}, logsum {res[1].to_numpy()[r]}')
        if raised:
            R.probe('bounds errors raised')

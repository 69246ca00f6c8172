"""C09: adding partial utilities is exact on every schedule; tables that do not fit are refused."""
import numpy as np
import pandas as pd

from .. import kernels, logit, world
from ..engine import Violation
from ..kernels import Schedule

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 1500, 'jit': 1500}, 'thorough': {'nojit': 60000, 'jit': 100000}}
INSTRUMENT_CORE = True
RULE = ('Each run draws a tree, units and a history of partial-utility tables (exact, reordered, row/column subsets, '
        'unfitting ones), each added under a drawn schedule; utilities are read back through runs and traces and compared '
        'with exact sums.')
STATE_MEASURE = 'distinct division/assignment/order tuples (jit) and preemption traces (nojit) of parallel loops'
REAL, STUBS = kernels.REAL, kernels.STUBS
stats = kernels.stats


def setup(jit):
    """Compiles the variants used in world jit before the shards start."""
    if not jit:
        return
    from cheval.model import ChoiceModel
    for prec in (8, 4):
        m = ChoiceModel(precision=prec)
        m.add_choices(['a', 'b', 'c'])
        m.decision_units = pd.Index([1, 2, 3])
        dt = f'f{prec}'
        for rows, cols in (([1, 2, 3], ['a', 'b', 'c']), ([2, 1], ['a', 'b', 'c']), ([1, 2, 3], ['b', 'a']),
                           ([2, 1], ['b', 'a'])):
            t = pd.DataFrame(np.ones((len(rows), len(cols)), dtype=dt), index=rows, columns=cols)
            m.add_partial_utilities(t, reindex_rows=True)


def read_back(R, model, n_units, units, tree, expected, where):
    """Utilities through the terms of a run (all units) and through a trace (one unit, exact)."""
    k = R.src.draw(n_units)
    model.debug_id = units[k]
    model.declare_number('zero')
    model['zero'].assign(0)
    if not list(model.expressions):
        model.expressions.append('zero')
    _, _, terms = model.run_stochastic(clear_scope=False, check_infeasible=False, scale_utilities=False)
    trace = model.debug_results
    model.debug_id = None
    got = trace.to_numpy()[-1].astype('f8')
    if not np.array_equal(got, expected[k]):
        raise Violation('wrong utilities', f'{where}: unit {units[k]!r} has {got.tolist()}, expected {expected[k].tolist()}')
    _, _, want = logit.reference(tree, expected, False)
    rel = 2e-5 if model.precision == 4 else 1e-9
    bad = ~np.isclose(terms.to_numpy(), want, rtol=rel, atol=0)
    if bad.any():
        r, c = (int(x) for x in np.argwhere(bad)[0])
        got = terms.to_numpy()[r, c]
        raise Violation('wrong utilities', f'{where}: unit {units[r]!r}, alternative {tree.labels()[c]}: '
                        f'exp(utility) {got!r}, expected {want[r, c]!r} (utility off by {np.log(got / want[r, c]):.3f})')
    R.probe('utility tables read back')


def run(R):
    from cheval.model import ChoiceModel
    src = R.src
    tree = logit.gen_tree(src, max_depth=2)
    m = len(tree.nodes)
    n = src.weighted([(5, src.rint(2, 6)), (4, src.rint(7, 16)), (1 if not world.JIT else 3, src.rint(17, 60))])
    precision = src.pick([8, 4])
    units = logit.gen_units(src, n)
    model = ChoiceModel(precision=precision)
    tree.build(model)
    model.decision_units = units
    labels = tree.labels()
    expected = np.zeros((n, m))
    R.log('tree', tree, 'rows', n, 'precision', precision)
    steps = src.rint(1, 5)
    multi = isinstance(units, pd.MultiIndex)
    for step in range(steps):
        # the table
        rows = list(range(n))
        cols = list(range(m))
        kind_r = src.weighted([(3, 'same'), (3, 'subset'), (2, 'order')])
        kind_c = src.weighted([(3, 'same'), (3, 'subset'), (2, 'order')])
        if kind_r != 'same':
            rows = src.shuffle(rows)[: n if kind_r == 'order' else src.rint(1, n)]
        if kind_c != 'same':
            cols = src.shuffle(cols)[: m if kind_c == 'order' else src.rint(1, m)]
        misfit = src.weighted([(6, None), (1, 'row'), (1, 'col'), (1, 'norows'), (1, 'nocols')])
        prec_t = precision if world.JIT else src.pick([precision, 8, 4])
        data = np.random.RandomState(src.seed32()).randint(-12, 13, (len(rows), len(cols))) * 0.125
        data = np.ascontiguousarray(data.astype(f'f{prec_t}'))
        if not world.JIT and src.chance(1, 3):
            data = np.asfortranarray(data)
        row_labels = units.take(rows)
        col_labels = pd.MultiIndex.from_tuples([labels[c] for c in cols]) if tree.depth > 1 else \
            pd.Index([labels[c] for c in cols])
        rr = rows != list(range(n)) or src.chance(1, 2)
        rc = cols != list(range(m)) or src.chance(1, 2)
        fits = True
        if misfit == 'row':
            fits = False
            lst = list(row_labels)
            lst[src.draw(len(lst))] = (99, 99) if multi else 'nobody' if isinstance(lst[0], str) else -77
            row_labels = pd.MultiIndex.from_tuples(lst) if multi else pd.Index(lst)
        elif misfit == 'col':
            fits = False
            lst = list(col_labels)
            lst[src.draw(len(lst))] = ('zz', '.') if tree.depth > 1 else 'zz'
            col_labels = pd.MultiIndex.from_tuples(lst) if tree.depth > 1 else pd.Index(lst)
        elif misfit == 'norows' and rows != list(range(n)):
            fits, rr = False, False
        elif misfit == 'nocols' and cols != list(range(m)):
            fits, rc = False, False
        table = pd.DataFrame(data, index=row_labels, columns=col_labels)
        before = (table.to_numpy().tobytes(), list(table.index), list(table.columns), str(table.dtypes.tolist()))
        R.log('add', 'rows', rows if len(rows) < 12 else len(rows), 'cols', cols, 'fits', fits, misfit, f'f{prec_t}')
        error = None
        try:
            with Schedule(R, plain=src.chance(1, 8)):
                if src.chance(1, 2) and rc:
                    model.add_partial_utilities(table, reindex_rows=rr)
                else:
                    model.add_partial_utilities(table, reindex_rows=rr, reindex_columns=rc)
        except (KeyError, AssertionError, ValueError, TypeError, IndexError, NotImplementedError) as e:
            error = e
        if (table.to_numpy().tobytes(), list(table.index), list(table.columns), str(table.dtypes.tolist())) != before:
            raise Violation('table modified', 'the given table was changed')
        if fits and error is not None:
            raise Violation('refused', f'a fitting table was refused: {error!r}')
        if not fits:
            R.fault('unfitting table')
            if error is None:
                raise Violation('accepted', f'a table that does not fit ({misfit}) was accepted')
        else:
            expected[np.ix_(rows, cols)] += data.astype('f8')
        R.step(data.size)
        if src.chance(1, 2) or step == steps - 1:
            read_back(R, model, n, units, tree, expected, f'after step {step}')
    R.state('shape', n, m, steps)

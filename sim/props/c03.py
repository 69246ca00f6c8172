"""C03: draws are valid and follow the probabilities, whatever the random source produces."""
import numpy as np

from .. import kernels, logit, parloop
from ..engine import Violation
from ..kernels import Schedule

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 4000, 'jit': 2500}, 'thorough': {'nojit': 150000, 'jit': 100000}}
INSTRUMENT_CORE = True
RULE = ('nojit: the random source of the kernels is replaced by one that hits chosen values (ends of the interval, exact '
        'boundaries between alternatives, just beyond the last one); every draw must have positive probability and be '
        'reported consistently. jit: compiled kernels under drawn schedules; contingency tables of draws against the '
        'reference probabilities and of draws against each other (threshold z > 7.5).')
STATE_MEASURE = 'distinct division/assignment/order tuples (jit) and preemption traces (nojit) of parallel loops'
REAL = kernels.REAL
STUBS = kernels.STUBS + '; nojit: numpy.random inside core.py'
stats = kernels.stats


class Source:
    """A random source whose values the simulator chooses."""

    def __init__(self, R, specials):
        self.R = R
        self.specials = specials
        self.rs = np.random.RandomState(R.src.draw(1000))

    def seed(self, s=None):
        self.rs.seed(s)

    def _one(self):
        src = self.R.src
        kind = src.weighted([(2, 'plain'), (2, 'low'), (2, 'high'), (5, 'special')])
        if kind == 'plain':
            return self.rs.random_sample()
        self.R.fault(f'random source returned a chosen value ({kind})')
        if kind == 'low':
            return 0.0
        if kind == 'high':
            return 1 - 2.0 ** -53
        v = src.pick(self.specials)
        v = [v, np.nextafter(v, 2), np.nextafter(v, -1)][src.draw(3)]
        return min(max(v, 0.0), 1 - 2.0 ** -53)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._one()
        return np.array([low + (high - low) * self._one() for _ in range(int(np.prod(size)))]).reshape(size)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape if shape else None)

    def __getattr__(self, name):
        return getattr(self.rs, name)


def report_kwargs(n_draws, astype, squeeze):
    kw = {'n_draws': n_draws, 'astype': astype, 'squeeze': squeeze}
    if squeeze == 'default':        # everything that equals its documented default is left out
        del kw['squeeze']
        if n_draws == 1:
            del kw['n_draws']
        if isinstance(astype, str) and astype == 'category':
            del kw['astype']
    return kw


def check_labels(R, tree, model, units, make, n_draws, s, index_draws):
    src = R.src
    kind = src.pick(['category', 'object', str, 'index'])
    squeeze = src.chance(1, 2)
    name = src.pick(['absent', 'absent', None, 'pick'])
    more = {} if name == 'absent' else {'result_name': name}
    if squeeze and src.chance(1, 2):
        squeeze = 'default'
    res, _ = make(kind, squeeze, **more)
    if name == 'absent':
        name = None
    if hasattr(res, 'columns') == bool(squeeze and n_draws == 1):
        raise Violation('labels', f'a {type(res).__name__} was returned for {n_draws} draws with squeeze={squeeze}')
    if hasattr(res, 'columns'):
        cols = [res.iloc[:, j] for j in range(res.shape[1])]
        if list(res.columns.names) != [name]:
            raise Violation('labels', f'columns named {list(res.columns.names)} with result_name={name}')
    else:
        cols = [res]
        if res.name != name:
            raise Violation('labels', f'series named {res.name!r} with result_name={name}')
    if len(cols) != n_draws:
        raise Violation('labels', f'{len(cols)} columns for {n_draws} draws')
    names = [n.name for n in tree.nodes]
    for j, col in enumerate(cols):
        if not col.index.equals(units):
            raise Violation('labels', 'draws are not indexed by the decision units')
        if kind == 'index':
            if list(col) != [int(k) for k in index_draws[:, j]]:
                raise Violation('labels', f'draw {j} reported as {list(col)}, drawn {index_draws[:, j].tolist()}')
            continue
        if (kind == 'category') != (str(col.dtype) == 'category'):
            raise Violation('labels', f'dtype {col.dtype} for astype={kind}')
        got = [str(x) for x in col]
        want = [names[int(k)] for k in index_draws[:, j]]
        if got != want:
            raise Violation('labels', f'draw {j} reported as {got}, drawn {want}')
    R.probe('label reports compared')


def run_weights(R):
    """nojit: sampling from tables of weights with extreme values of the random source."""
    from cheval import core
    src = R.src
    n, m, k = src.rint(1, 5), src.rint(1, 6), src.pick([1, 2, 5])
    rs = np.random.RandomState(src.seed32())
    weights = rs.uniform(0.1, 3, (n, m)) * (rs.uniform(size=(n, m)) < 0.6)
    weights[weights.sum(axis=1) == 0, src.draw(m)] = 1.0
    p = weights / weights.sum(axis=1, keepdims=True)
    specials = sorted({float(x) for row in p for x in np.cumsum(row)} | {0.0, 1.0, float(np.finfo('f8').tiny)})
    R.log('weights', weights.tolist(), 'draws', k)
    parloop.RANDOM = Replaying(R, specials, {})
    try:
        res = np.asarray(core.worker_weighted_sample(weights.copy(), k, src.draw(100))).astype('i8')
    finally:
        parloop.RANDOM = None
    if res.shape != (n, k) or res.min() < 0 or res.max() >= m:
        raise Violation('out of range', f'weighted samples {res.tolist()} of {m} weights')
    if not (np.take_along_axis(weights, res, axis=1) > 0).all():
        raise Violation('zero probability drawn', f'weighted samples {res.tolist()} of {weights.tolist()}')
    R.step(n * k)


def run(R):
    """nojit: extreme values of the random source, public interface."""
    src = R.src
    if src.chance(1, 12):
        return run_weights(R)
    tree = logit.gen_tree(src)
    n = src.rint(1, 6)
    precision = src.pick([8, 4])
    units = logit.gen_units(src, n)
    util = logit.gen_utilities(src, n, tree, precision)
    if src.chance(2, 3):  # zero-probability alternatives at the ends
        off = src.sample(tree.elemental()[::-1], src.rint(1, max(1, len(tree.elemental()) - 1)))
        if src.chance(1, 2):
            off = tree.elemental()[-src.rint(1, max(1, len(tree.elemental()) - 1)):]
        util[:, off] = -np.inf
        p, top, _ = logit.reference(tree, util, True)
        util[top <= 1e-30] = 0.0
    R.log('tree', tree, 'rows', n, 'precision', precision, 'util', util.tolist())
    model = kernels.make_model(R, tree, units, util, precision, feed=src.pick([0, 2]))
    probs = model.run_stochastic(clear_scope=False, check_infeasible=False)[0].to_numpy()
    full = np.zeros((n, len(tree.nodes)))
    full[:, tree.elemental()] = probs
    specials = sorted({float(x) for row in full for x in np.cumsum(row)} | {0.0, 1.0, float(np.finfo('f8').tiny)})
    n_draws = src.pick([1, 2, 7])
    seed = src.draw(1000)
    squeeze = src.chance(1, 2)

    fast = {}

    def go(astype, squeeze, **more):
        # the same source must deliver the same values for every report of the same run
        save = list(src.choices)
        parloop.RANDOM = Replaying(R, specials, fast)
        try:
            return model.run_discrete(random_seed=seed, clear_scope=False, **report_kwargs(n_draws, astype, squeeze), **more)
        finally:
            parloop.RANDOM = None

    draws, _ = go('index', False)
    draws = draws.to_numpy()
    if draws.shape != (n, n_draws):
        raise Violation('labels', f'shape {draws.shape} for {n} units, {n_draws} draws')
    for k in range(n):
        for j in range(n_draws):
            c = int(draws[k, j])
            if not 0 <= c < len(tree.nodes):
                raise Violation('out of range', f'unit {k} drew position {c} of {len(tree.nodes)}')
            if tree.nodes[c].children:
                raise Violation('nest drawn', f'unit {k} drew the nest {".".join(tree.nodes[c].path)}')
            if not full[k, c] > 0:
                raise Violation('zero probability drawn', f'unit {k} drew {".".join(tree.nodes[c].path)} with probability 0; '
                                f'random values {fast.get("log")}')
    check_labels(R, tree, model, units, go, n_draws, None, draws)
    R.state('case', tuple(map(tuple, (full > 0).astype(int).tolist())), n_draws)
    R.step(n * n_draws)


class Replaying(Source):
    """A Source that yields the same values every time the run is repeated."""

    def __init__(self, R, specials, store):
        super().__init__(R, specials)
        self.store = store.setdefault('log', [])
        self.k = 0

    def _one(self):
        if self.k == len(self.store):
            self.store.append(super()._one())
        v = self.store[self.k]
        self.k += 1
        return v


def z_of_chi2(x, df):
    """Normal score of a chi-square value (Wilson-Hilferty)."""
    if df <= 0:
        return 0.0
    return ((x / df) ** (1 / 3) - (1 - 2 / (9 * df))) / np.sqrt(2 / (9 * df))


def chi2(counts, expected):
    """Chi-square with rare cells pooled. Returns (statistic, number of cells)."""
    if (counts[expected <= 0] > 0).any():
        return np.inf, 2
    rare = expected < 10
    c, e = list(counts[~rare]), list(expected[~rare])
    if expected[rare].sum() >= 10:
        c.append(counts[rare].sum())
        e.append(expected[rare].sum())
    elif e:
        k = int(np.argmax(e))
        c[k] += counts[rare].sum()
        e[k] += expected[rare].sum()
    c, e = np.array(c, dtype=float), np.array(e, dtype=float)
    return float((((c - e) ** 2) / e).sum()) if len(e) else 0.0, len(e)


def judge(R, what, stat, df):
    R.probe('statistical tests')
    z = z_of_chi2(stat, df)
    if z > 7.5:
        raise Violation('distribution', f'{what}: chi-square {stat:.1f} with {df} degrees of freedom (z = {z:.1f})')


def run_jit(R):
    src = R.src
    tree = logit.gen_tree(src, max_top=4)
    el = tree.elemental()
    precision = src.pick([8, 4])
    mode = src.draw(3)
    # probabilities bounded away from 0
    rs = np.random.RandomState(src.seed32())
    m = len(tree.nodes)
    if mode == 0:      # many draws of a few units with their own probabilities
        n, n_draws = src.rint(2, 12), 1500
        util = rs.uniform(-0.7, 0.7, (n, m))
    elif mode == 1:    # one draw of many equal units
        n, n_draws = 3000, 1
        util = np.repeat(rs.uniform(-0.4, 0.4, (1, m)), n, axis=0)
    else:              # a few draws of many equal units
        n, n_draws = 1500, src.pick([2, 3])
        util = np.repeat(rs.uniform(-0.4, 0.4, (1, m)), n, axis=0)
    dt = 'f4' if precision == 4 else 'f8'
    util = util.astype(dt).astype('f8')
    units = logit.gen_units(src, n)
    seed = src.weighted([(3, src.draw(100000)), (1, 0), (1, None)])
    R.log('tree', tree, 'rows', n, 'draws', n_draws, 'precision', precision, 'seed', seed)
    model = kernels.make_model(R, tree, units, util, precision, feed=0)
    with Schedule(R) as s:
        draws, _ = model.run_discrete(random_seed=seed, n_draws=n_draws, astype='index', squeeze=False,
                                      n_threads=s.n_threads, clear_scope=False)
    draws = draws.to_numpy()
    p, _, _ = logit.reference(tree, util, True)
    if draws.min() < 0 or draws.max() >= m or not np.take_along_axis(p, draws, axis=1).min() > 0:
        raise Violation('zero probability drawn', 'a draw has no probability')
    R.step(draws.size)
    if seed is not None and src.chance(1, 3):
        def go(astype, squeeze, **more):
            return model.run_discrete(random_seed=seed, clear_scope=False, **report_kwargs(n_draws, astype, squeeze), **more)
        if n * n_draws <= 9000:
            check_labels(R, tree, model, units, go, n_draws, s, draws)
    # compact numbering of elemental alternatives
    pos = {c: k for k, c in enumerate(el)}
    d = np.vectorize(pos.__getitem__)(draws)
    q = p[:, el]
    k = len(el)
    if mode == 0:
        total, df = 0.0, 0
        for r in range(n):
            x, c = chi2(np.bincount(d[r], minlength=k), q[r] * n_draws)
            total, df = total + x, df + max(0, c - 1)
        judge(R, 'draws of single units', total, df)
        for lag in (1, 2):   # successive draws of one unit
            total, df = 0.0, 0
            for r in range(n):
                tab = np.bincount(d[r, :-lag] * k + d[r, lag:], minlength=k * k)
                x, c = chi2(tab, (np.outer(q[r], q[r]) * (n_draws - lag)).ravel())
                total, df = total + x, df + max(0, c - 1)
            judge(R, f'pairs of draws {lag} apart', total, df)
        for r in range(n - 1):   # the same draw of two units
            tab = np.bincount(d[r] * k + d[r + 1], minlength=k * k)
            x, c = chi2(tab, (np.outer(q[r], q[r + 1]) * n_draws).ravel())
            judge(R, 'same draw of neighbouring units', x, c - 1)
            tab = np.bincount(d[r, 1:] * k + d[r + 1, :-1], minlength=k * k)
            x, c = chi2(tab, (np.outer(q[r], q[r + 1]) * (n_draws - 1)).ravel())
            judge(R, 'shifted draws of neighbouring units', x, c - 1)
    else:
        qq = q[0]
        for j in range(n_draws):
            x, c = chi2(np.bincount(d[:, j], minlength=k), qq * n)
            judge(R, f'draw {j} over units', x, c - 1)
            for lag in (1, 2, n // 2):
                tab = np.bincount(d[:-lag, j] * k + d[lag:, j], minlength=k * k)
                x, c = chi2(tab, (np.outer(qq, qq) * (n - lag)).ravel())
                judge(R, f'units {lag} apart', x, c - 1)
        for j in range(n_draws - 1):
            tab = np.bincount(d[:, j] * k + d[:, j + 1], minlength=k * k)
            x, c = chi2(tab, (np.outer(qq, qq) * n).ravel())
            judge(R, 'successive draws over units', x, c - 1)
            tab = np.bincount(d[:-1, j + 1] * k + d[1:, j], minlength=k * k)
            x, c = chi2(tab, (np.outer(qq, qq) * (n - 1)).ravel())
            judge(R, 'shifted draws over units', x, c - 1)

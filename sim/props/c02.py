"""C02: discrete draws depend only on the model and the seed."""
import numpy as np
from numpy.random import RandomState

from .. import kernels, logit, world
from ..engine import Violation
from ..kernels import Schedule

WORLDS = {'nojit': 4, 'jit': 4}
RUNS = {'quick': {'nojit': 800, 'jit': 2000}, 'thorough': {'nojit': 40000, 'jit': 120000}}
INSTRUMENT_CORE = True
RULE = ('Each run draws a model, a seed (integer or RandomState), a number of draws, and executes the same discrete run '
        'several times under drawn schedules, dirty worker generators, earlier activity and process entropy; then once '
        'more with the utilities of all other units changed.')
STATE_MEASURE = 'distinct division/assignment/order tuples (jit) and preemption traces (nojit) of parallel loops'
REAL, STUBS = kernels.REAL, kernels.STUBS
stats = kernels.stats


def disturb(R, model_factory):
    """Unrelated earlier activity in the process."""
    src = R.src
    kind = src.draw(6)
    if kind == 1:
        np.random.seed(src.draw(1000))
        np.random.uniform(size=src.draw(50))
        R.fault('global numpy generator moved')
    elif kind == 2:
        import random
        random.seed(src.draw(1000))
        R.fault('global random generator moved')
    elif kind == 3:
        m = model_factory()
        with Schedule(R) as s:
            m.run_discrete(random_seed=src.draw(5000), n_draws=src.rint(1, 4), n_threads=s.n_threads)
        R.fault('another model run before')
    elif kind == 4:
        b = src.draw(256)
        world.SEAMS.entropy_bytes = lambda n: bytes((b + 17 * k) % 256 for k in range(n))
        R.fault('process entropy changed')
    elif kind == 5:
        m = model_factory()
        m.run_discrete(n_draws=src.rint(1, 3))
        R.fault('unseeded run before')


def bits(res):
    draws, ls = res
    return draws.to_numpy().astype('i8').tobytes(), draws.shape, ls.to_numpy().tobytes()


def run_weights(R):
    """Sampling from tables of weights (the kernel of the same module that no model uses)."""
    from cheval import core
    src = R.src
    n, m = src.weighted([(4, src.rint(1, 5)), (4, src.rint(6, 14)), (1, src.rint(15, 40))]), src.rint(1, 6)
    rs = RandomState(src.seed32())
    weights = rs.uniform(0.1, 3, (n, m)) * (rs.uniform(size=(n, m)) < 0.8)
    weights[weights.sum(axis=1) == 0, 0] = 1.0
    given = weights.copy()
    k = src.weighted([(3, 1), (2, 2), (1, 7)])
    seed = src.weighted([(2, 0), (3, src.draw(2 ** 31 - 1))])
    R.log('weights', n, m, 'draws', k, 'seed', seed)
    base = None
    for j in range(2 + src.draw(3)):
        if j:
            np.random.seed(src.draw(1000))
        with Schedule(R, plain=(j == 0)) as s:
            res = np.asarray(core.worker_weighted_sample(weights, k, seed)).astype('i8')
        if base is None:
            base = res
        elif not np.array_equal(base, res):
            raise Violation('schedule dependent', f'weighted samples of execution {j} ({s.n_threads} threads) differ from the in-order one')
        R.step(n)
    if base.shape != (n, k) or base.min() < 0 or base.max() >= m:
        raise Violation('labels', f'weighted samples {base.tolist()} of {m} weights, {n} rows, {k} draws')
    if not (np.take_along_axis(given, base, axis=1) > 0).all():
        raise Violation('zero probability drawn', 'a weighted sample has no weight')
    if not np.array_equal(given, weights):
        raise Violation('weights changed', 'sampling changed the given weights')
    if k == 1:
        r = RandomState(seed).uniform(np.finfo('f8').tiny, 1, n)
        cum = np.cumsum(given / given.sum(axis=1, keepdims=True), axis=1)
        for i in range(n):
            c = int(base[i, 0])
            lo = cum[i, c - 1] if c else 0.0
            if not lo - 1e-9 <= r[i] <= cum[i, c] + 1e-9:
                raise Violation('inverse cdf', f'row {i} got {c} for the uniform number {r[i]!r}')
    if n > 1:
        keep = src.draw(n)
        other = np.roll(given, 1, axis=0).copy()
        other[keep] = given[keep]
        with Schedule(R) as s:
            res = np.asarray(core.worker_weighted_sample(other, k, seed))
        if not np.array_equal(res[keep], base[keep]):
            raise Violation('depends on others', f'weighted samples of row {keep} change with the weights of other rows')


def run(R):
    src = R.src
    if src.chance(1, 10):
        return run_weights(R)
    tree = logit.gen_tree(src)
    n = src.weighted([(4, src.rint(1, 5)), (4, src.rint(6, 14)), (1, src.rint(15, 40))])
    precision = src.pick([8, 4])
    units = logit.gen_units(src, n)
    util = logit.gen_utilities(src, n, tree, precision)
    scale = not src.chance(1, 4)
    n_draws = src.weighted([(3, 1), (2, 2), (2, 3), (1, 9)])
    seed = src.weighted([(2, 0), (3, src.draw(2 ** 31 - 1)), (1, 2 ** 32 - 1 if n_draws == 1 else 5), (3, 'state')])
    state_seed = src.draw(10000)
    pre = src.draw(5)
    R.log('tree', tree, 'rows', n, 'precision', precision, 'scale', scale, 'draws', n_draws, 'seed', seed, state_seed, pre)

    def make_seed():
        if seed != 'state':
            return seed
        rs = RandomState(state_seed)
        rs.uniform(size=pre)
        return rs

    feed = src.draw(3)

    def factory(u=None):
        return kernels.make_model(R, tree, units, util if u is None else u, precision, feed=feed)

    model = factory()
    base = None
    for j in range(2 + src.draw(3)):
        if j:
            disturb(R, factory)
            if src.chance(1, 4):
                model = factory()
        with Schedule(R, plain=(j == 0)) as s:
            res = model.run_discrete(random_seed=make_seed(), n_draws=n_draws, astype='index', squeeze=False,
                                     n_threads=s.n_threads, clear_scope=False, scale_utilities=scale)
        if base is None:
            base = res
        elif bits(base) != bits(res):
            d = (base[0].to_numpy() != res[0].to_numpy())
            raise Violation('schedule dependent', f'execution {j} ({s.n_threads} threads) differs from the in-order one in '
                            f'{int(d.sum())} of {d.size} draws')
        R.step(n)
    draws, ls = base
    if not draws.index.equals(units) or not ls.index.equals(units) or draws.shape != (n, n_draws):
        raise Violation('labels', 'draws are not indexed by the decision units')
    ref_p, ref_top, _ = logit.reference(tree, util, scale)
    if not np.allclose(ls.to_numpy(), ref_top, rtol=2e-5 if precision == 4 else 1e-9, atol=0):
        raise Violation('logsum', f'{ls.to_numpy()} instead of {ref_top}')
    if n_draws == 1 and seed != 'state':
        r = RandomState(seed).uniform(np.finfo('f8').tiny, 1, n)
        tol = 1e-4 if precision == 4 else 1e-9
        got = draws.to_numpy()[:, 0]
        cum = np.cumsum(ref_p, axis=1)
        for k in range(n):
            c = int(got[k])
            if not 0 <= c < ref_p.shape[1]:
                raise Violation('inverse cdf', f'unit {k}: position {c} out of range')
            lo = cum[k, c - 1] if c else 0.0
            if not (lo - tol <= r[k] <= cum[k, c] + tol):
                raise Violation('inverse cdf', f'unit {k} got alternative {c} for the uniform number {r[k]!r}; its interval is '
                                f'({lo!r}, {cum[k, c]!r}]')
            R.probe('inverse-cdf draws compared')
    # draws of one unit do not depend on the others' utilities
    if n > 1:
        keep = src.draw(n)
        other = np.roll(util[:, :], 1, axis=0).copy()
        other[keep] = util[keep]
        m2 = factory(other)
        with Schedule(R) as s:
            res2 = m2.run_discrete(random_seed=make_seed(), n_draws=n_draws, astype='index', squeeze=False,
                                   n_threads=s.n_threads, scale_utilities=scale)
        if not np.array_equal(res2[0].to_numpy()[keep], draws.to_numpy()[keep]):
            raise Violation('depends on others', f'draws of unit {keep} change with the utilities of other units')

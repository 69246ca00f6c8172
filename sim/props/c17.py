"""C17: observing a run (logger, trace of a unit) does not change it, and reports what happened."""
import logging

import numpy as np
import pandas as pd

from .. import mm, world
from ..engine import Violation
from ..refmodel import Gray
from .c06 import FailingLogger, Injected, InjectedExit
from .modelcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 4500}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws a model history (groups, pre-evaluation, copies, subsets, unit changes), runs it unobserved, then '
        'with every kind of observer (recording, standard, failing logger; traced unit of any label), with failures '
        'injected at drawn expressions; results are compared bit for bit, logs and traces with the reference steps.')
HIST = [(3, 'assign'), (4, 'expr'), (2, 'expr_batch'), (2, 'partial'), (1, 'preval'), (1, 'drop_group'), (2, 'units'), (1, 'precision'),
        (1, 'copy'), (2, 'subset'), (1, 'tree')]


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def make_logger(kind):
    """(logger, lines)"""
    if kind == 'list':
        lg = mm.ListLogger()
        return lg, lg.lines
    lg = logging.Logger('observer', logging.DEBUG if kind == 'standard' else logging.ERROR)
    h = Recorder()
    lg.addHandler(h)
    return lg, h.lines


def check_log(lines, texts, failed_at, kind):
    """failed_at: position of the expression that failed, or None"""
    want = texts if failed_at is None else texts[:failed_at + 1]
    told = [x for x in lines if any(t in x for t in want)] if len(lines) != len(want) else lines
    if failed_at is not None and len(told) == failed_at:
        want = want[:-1]       # the one that failed need not have been reported yet
    if len(told) != len(want):
        raise Violation('log', f'{len(told)} reports of {len(want)} evaluated expressions: {lines}')
    for k, (line, text) in enumerate(zip(told, want)):
        if text not in line:
            raise Violation('log', f'report {k} is {line!r}; expression {k} is {text!r}')


def check_trace(p, texts, steps, unit):
    res = p.model.debug_results
    ref = p.ref
    if not isinstance(res, pd.DataFrame):
        raise Violation('no trace', f'unit {unit!r} was traced: {res!r}')
    if list(res.index) != texts:
        raise Violation('trace', f'trace of {list(res.index)}; evaluated {texts}')
    if list(res.columns) != ref.tree.labels():
        raise Violation('trace', f'trace columns {list(res.columns)} for {ref.tree.labels()}')
    pos = list(ref.units).index(unit)
    got = res.to_numpy().astype('f8')
    want = np.array([s[pos].astype('f8') for s in steps[1:]]).reshape(got.shape)
    rtol, atol = (4e-4, 1e-4) if ref.loose else (1e-9, 1e-12)
    with np.errstate(all='ignore'):
        ok = (got == want) | np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True) | (np.isnan(got) & np.isnan(want))
        ok |= (got < -1e36) & (want < -1e36)
    if not ok.all():
        i, j = (int(x) for x in np.argwhere(~ok)[0])
        raise Violation('trace', f'after expression {i} {texts[i]!r} unit {unit!r} has {got[i, j]!r} for '
                        f'{ref.tree.labels()[j]!r}; the reference {want[i, j]!r}')


def observe(R, mc, p):
    """Runs of one kind, unobserved and observed."""
    src = R.src
    ref = p.ref
    discrete = src.chance(1, 3)
    group = src.pick([None] + list(ref.groups)) if not discrete else None
    kw = {'clear_scope': False}
    if src.chance(1, 2):
        kw['n_threads'] = src.rint(1, 8)
    if discrete:
        kw.update(random_seed=src.draw(1000), n_draws=src.weighted([(2, 1), (1, 3)]), astype=src.pick(['index', 'object']))
    else:
        kw['check_infeasible'] = False
        if group is not None:
            kw['group'] = group
    exp = mc.expectation(p, group, discrete)
    if exp[0] != 'value':
        return
    texts = [t for _, _, t in ref.exprs(group)]
    steps = ref.steps(ref.exprs(group))
    call = p.model.run_discrete if discrete else p.model.run_stochastic
    p.model.debug_id = None
    try:
        base = call(**kw)
    except Exception as e:
        raise Violation('run fails', f'{e!r} although everything it needs is there') from e
    for _ in range(1 + src.draw(3)):
        unit = src.pick([None] + list(ref.units[:5]) + [ref.units[-1]])
        lk = src.pick([None, 'list', 'standard', 'quiet'])
        logger, lines = make_logger(lk) if lk else (None, [])
        p.model.debug_id = unit
        R.log(p.name, 'observed run', 'discrete' if discrete else 'stochastic', kw, 'unit', repr(unit), 'logger', lk)
        try:
            got = call(**kw, logger=logger) if lk else call(**kw)
        except Exception as e:
            raise Violation('run fails', f'observed ({lk}, unit {unit!r}): {e!r}') from e
        R.nontrivial = True
        R.probe('observed runs compared')
        if not mm.same_results(base, got):
            raise Violation('changed result', f'logger {lk} / traced unit {unit!r} changed the result')
        if lk in ('list', 'standard'):
            check_log(lines, texts, None, lk)
            R.probe('logs checked')
        if unit is not None:
            check_trace(p, texts, steps, unit)
            R.probe('traces checked')
    if src.chance(1, 2):
        failing(R, mc, p, call, kw, group, discrete, texts, base)
    p.model.debug_id = None


def failing(R, mc, p, call, kw, group, discrete, texts, base):
    """A run that fails at a later expression."""
    src = R.src
    logger, lines = make_logger(src.pick(['list', 'standard']))
    unit = src.pick([None] + list(p.ref.units[:3]))
    p.model.debug_id = unit
    k = None
    exc = src.pick([Injected, InjectedExit, MemoryError, KeyboardInterrupt])('injected')
    kind = src.pick(['engine before', 'engine after', 'logger'])
    if not texts:
        return
    k = src.draw(len(texts))
    if kind == 'logger':
        logger = FailingLogger(k + 1, exc)
    else:
        seen = [0]      # evaluations of expressions (those within aggregations have no output table)

        def hook(i, ex, kwargs):
            seen[0] += kwargs.get('out') is not None
            if seen[0] == k + 1:
                raise exc
        if kind == 'engine before':
            world.SEAMS.ne_before = hook
        else:
            world.SEAMS.ne_after = hook
    R.log(p.name, 'run failing at expression', k, kind, 'unit', repr(unit))
    R.fault(kind)
    try:
        call(**kw, logger=logger)
    except BaseException as e:
        if e is not exc and not isinstance(e, Exception):
            raise
    else:
        if kind != 'logger' and seen[0] < k + 1:
            return      # expressions are evaluated some other way
        raise Violation('swallowed', f'the failure injected at expression {k} was not reported')
    finally:
        world.SEAMS.ne_before = world.SEAMS.ne_after = None
    if kind != 'logger':
        check_log(lines, texts, k, kind)
        R.probe('logs of failed runs checked')
    p.model.debug_id = None
    try:
        again = call(**kw)
    except Exception as e:
        raise Violation('run fails', f'{e!r} after an observed run failed') from e
    if not mm.same_results(base, again):
        raise Violation('changed result', f'an observed run failing at expression {k} changed later results')


def observed_preval(R, mc, p):
    """Pre-evaluation, observed."""
    src = R.src
    if not p.ref.groups:
        return
    group = src.pick(list(p.ref.groups))
    kw = mc.preval_kwargs()
    errs, after = mc.preval_outcome(p.ref, group, kw)
    if errs is not None:
        return
    exprs = p.ref.exprs(group)
    steps = p.ref.steps(exprs)
    texts = [t for _, _, t in exprs]
    unit = src.pick([None] + list(p.ref.units[:4]))
    logger, lines = make_logger('list')
    p.model.debug_id = unit
    R.log(p.name, 'observed preval', group, kw, repr(unit))
    try:
        p.model.preval(group, logger=logger, **kw)
    except Exception as e:
        raise Violation('preval fails', f'{e!r}') from e
    check_log(lines, texts, None, 'list')
    if unit is not None:
        check_trace(p, texts, steps, unit)
    p.model.debug_id = None
    p.ref = after
    R.probe('observed pre-evaluations')


def run(R):
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(5)):
        mc.op_expr(p)
    for _ in range(src.rint(1, 6)):
        p = src.pick(mc.pairs)
        for _ in range(src.draw(4)):
            getattr(mc, 'op_' + src.weighted(HIST))(p)
        mc.make_ready(p)
        note_state(R, p)
        try:
            if src.chance(1, 5):
                observed_preval(R, mc, p)
            else:
                observe(R, mc, p)
        except (Gray, KeyError, ValueError):
            R.probe('not judged')
            p.model.debug_id = None
    for p in mc.pairs:
        p.model.debug_id = None
        mc.make_ready(p)
        mc.op_run(p, group=None, kw={'clear_scope': False}, kind='stochastic')

"""C06: a failed or interrupted run, pre-evaluation or partial-utility operation changes nothing later results depend on."""
import numpy as np
import pandas as pd

from .. import engine, mm, world
from ..engine import Violation
from ..refmodel import E
from ..sched import Interrupter
from .modelcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 3600}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws a model history, executes one further operation on a twin (the same history re-executed) to count the '
        'points at which it can fail, and then fails it on the model at a drawn point: an interrupt at a drawn point '
        'of the package (calls, returns of C calls, entries and backward jumps; core.py excepted), an engine failure before, during or after the k-th evaluated block, a '
        'failing logger, or an error of an expression or argument. Two candidate states (never started / completed) are '
        'then told apart by runs that release nothing; none of them matching is a violation, and the retried operation must '
        'give, bit for bit, what the twin gave.')
ASSUMPTIONS = _A + ['an interrupt or a failing allocation comes where the interpreter looks for signals or makes a call (calls, '
                     'function entries, backward jumps of the package), not inside a compiled kernel and not between plain stores']
HIST = [(3, 'assign'), (2, 'expr'), (1, 'declare'), (3, 'partial'), (2, 'run'), (2, 'preval'), (1, 'drop_group'), (1, 'units'),
        (1, 'precision'), (1, 'subset')]


class Injected(Exception):
    pass


class InjectedExit(BaseException):
    pass


def not_core(code):
    return not code.co_filename.endswith('/core.py')


class FailingLogger:
    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def debug(self, *a, **kw):
        self.n += 1
        if self.n == self.k:
            raise self.exc

    info = warning = error = log = debug


def build(R):
    """The history before the operation. Returns (machine, pair)."""
    src = R.src
    mc = mm.Machine(R)
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(4)):
        mc.op_expr(p)
    mc.make_ready(p)
    for _ in range(src.draw(5)):
        op = src.weighted(HIST)
        q = src.pick(mc.pairs)
        if op == 'run':
            mc.op_run(q, kw={'clear_scope': src.chance(1, 4)})
        else:
            getattr(mc, 'op_' + op)(q)
    p = src.pick(mc.pairs)
    mc.make_ready(p)
    return mc, p


class Op:
    """One operation, drawn once and executed on the twin, on the model, and again."""

    def __init__(self, R, mc, p):
        src = R.src
        self.kind = src.weighted([(4, 'stochastic'), (2, 'discrete'), (5, 'preval'), (4, 'partial')])
        ref = p.ref
        self.kw = {}
        self.group = None
        if self.kind == 'preval' and not ref.groups:
            self.kind = 'stochastic'
        if self.kind in ('stochastic', 'discrete'):
            self.kw = {'clear_scope': src.chance(1, 2)}
            if src.chance(1, 2):
                self.kw['n_threads'] = src.rint(1, 8)
            if self.kind == 'stochastic':
                if ref.groups and src.chance(1, 3):
                    self.kw['group'] = self.group = src.pick(list(ref.groups))
                self.kw['check_infeasible'] = src.chance(1, 2)
            else:
                self.kw.update(random_seed=src.draw(1000), n_draws=src.weighted([(3, 1), (1, 3)]),
                               astype=src.pick(['index', 'object', 'category']))
        elif self.kind == 'preval':
            self.group = src.pick(list(ref.groups))
            self.kw = mc.preval_kwargs()
        else:
            n, m = len(ref.units), len(ref.tree.nodes)
            self.rows, self.cols = list(range(n)), list(range(m))
            if src.chance(1, 2):
                self.rows = src.shuffle(self.rows)[:src.rint(1, n)]
            if src.chance(1, 2):
                self.cols = src.shuffle(self.cols)[:src.rint(1, m)]
            vals = mm.dy(np.random.RandomState(src.seed32()), (len(self.rows), len(self.cols)), -4, 5)
            self.vals = vals.astype('f4' if ref.precision == 4 else 'f8')

    def __str__(self):
        return f'{self.kind} {self.group if self.group is not None else ""} {self.kw}'

    def call(self, model, ref, logger=None, kw=None):
        kw = dict(self.kw if kw is None else kw)
        if logger is not None:
            kw['logger'] = logger
        if self.kind == 'stochastic':
            return model.run_stochastic(**kw)
        if self.kind == 'discrete':
            return model.run_discrete(**kw)
        if self.kind == 'preval':
            return model.preval(self.group, **kw)
        table = pd.DataFrame(self.vals.copy(), index=ref.units.take(self.rows), columns=model.choices.take(self.cols))
        return model.add_partial_utilities(table, reindex_rows=True, reindex_columns=True)

    def after(self, mc, ref):
        """The reference state after completion; None if it cannot complete or cannot be judged."""
        if self.kind == 'preval':
            errs, after = mc.preval_outcome(ref, self.group, self.kw)
            return errs, after
        after = ref.copy()
        if self.kind == 'partial':
            if after.partial is None:
                after.partial, after.partial_units = np.zeros((len(ref.units), len(ref.tree.nodes))), ref.units
            after.partial[np.ix_(self.rows, self.cols)] += self.vals
        elif self.kw.get('clear_scope', True):
            after.scope.clear()
        return None, after


def probe(mc, p, ref):
    """Whether the model behaves as `ref` says, by runs that release nothing."""
    p.ref = ref
    try:
        for group in [None] + mm.GROUPS:
            mc.op_run(p, group=group, kind='stochastic', kw={'clear_scope': False})
    except Violation as v:
        return f'{v}'
    return None


def build_twin(R, choices):
    src = engine.Src(replay=list(choices))
    R2 = engine.Run(src, R.index, R.tier)
    return build(R2)


def fault_of(R, op, counts):
    """Draws what goes wrong. Returns (description, context manager or None, logger, kw)"""
    src = R.src
    lines, blocks, lines_logged = counts
    exc = src.pick([KeyboardInterrupt, MemoryError, Injected, InjectedExit, ValueError])('injected')
    kinds = [(6, 'interrupt')]
    if blocks:
        kinds += [(2, 'engine before'), (2, 'engine during'), (2, 'engine after')]
    if lines_logged:
        kinds += [(2, 'logger')]
    if op.kind in ('stochastic', 'discrete'):
        kinds += [(1, 'argument')]
        if op.group is None:
            kinds += [(2, 'expression')]
    kind = src.weighted(kinds)
    return kind, exc


def run(R):
    src = R.src
    mc, p = build(R)
    prefix = list(src.choices)
    mc2, p2 = build_twin(R, prefix)
    # which pair of the twin is the same one
    op = Op(R, mc, p)
    errs, after = op.after(mc, p.ref)
    if errs is not None:
        return
    exp = ('value',)
    if op.kind in ('stochastic', 'discrete'):
        exp = mc.expectation(p, op.group, op.kw.get('check_infeasible', True))
        if exp[0] not in ('value', 'error'):
            return
    # ---- on the twin: how far it gets, and what it gives
    twin_log = mm.ListLogger()
    world.SEAMS.ne_calls = 0
    use_logger = op.kind != 'partial' and src.chance(1, 2)
    base, base_err = None, None
    with Interrupter(0, None, pred=not_core) as it:
        try:
            base = op.call(p2.model, p2.ref, twin_log if use_logger else None)
        except Exception as e:
            base_err = e
    counts = (it.count, world.SEAMS.ne_calls, len(twin_log.lines))
    if base_err is not None and exp[0] != 'error':
        raise Violation('operation fails', f'{op} raised {base_err!r} without any fault') from base_err
    # ---- on the model, with the fault
    before = p.ref.copy()
    kind, exc = fault_of(R, op, counts)
    logger = mm.ListLogger() if use_logger else None
    kw = None
    inter = None
    world.SEAMS.ne_calls = 0
    detail = ''
    if kind == 'interrupt':
        # mostly spread over the whole operation, sometimes at its very end
        n = counts[0]
        k = 1 + src.draw(n) if src.chance(3, 4) else max(1, n - src.draw(min(n, 30)))
        inter = Interrupter(k, exc, pred=not_core)
        detail = f'{k}/{n}'
    elif kind.startswith('engine'):
        k = 1 + src.draw(counts[1])
        detail = f'{k}/{counts[1]}'

        def hook(i, ex, kwargs):
            if i == k:
                if kind == 'engine during' and kwargs.get('out') is not None:
                    out = kwargs['out']
                    out[:max(1, len(out) // 2)] = 777.25
                raise exc
        if kind == 'engine after':
            world.SEAMS.ne_after = hook
        else:
            world.SEAMS.ne_before = hook
    elif kind == 'logger':
        k = 1 + src.draw(counts[2])
        logger = FailingLogger(k, exc)
        detail = f'{k}/{counts[2]}'
    elif kind == 'expression':
        text = src.pick(['NAN', 'pt.nocol', 'hh.nolink.age', 'k1 @ nosuch', 'zz9', '{nosuch: 1}', 'hh.zone.sum(age)',
                         'exp(1000) * exp(1000) - exp(1000) * exp(1000)', 'log(-1)', 'where(k1 > 0, NAN, NAN)'])
        p.model.expressions.append(text, group='bad')
        detail = text
    else:
        kw = dict(op.kw)
        bad = [('n_threads', 0), ('n_threads', 999), ('n_threads', 'two')]
        if op.kind == 'discrete':
            bad += [('astype', 'nonsense'), ('n_draws', 0), ('random_seed', 'seed'), ('astype', 'f8')]
        a, v = src.pick(bad)
        kw[a] = v
        detail = f'{a}={v!r}'
    R.log(p.name, 'FAULT', str(op), '|', kind, detail, type(exc).__name__ if kind not in ('argument', 'expression') else '')
    got, err = None, None
    try:
        if inter is not None:
            with inter:
                got = op.call(p.model, p.ref, logger, kw)
        else:
            got = op.call(p.model, p.ref, logger, kw)
    except BaseException as e:
        err = e
    finally:
        world.SEAMS.ne_before = world.SEAMS.ne_after = None
    if kind == 'expression':
        p.model.expressions.drop_group('bad')
        if err is None:
            raise Violation('no error', f'a run with the expression {detail!r} gave a result')
    where = inter.where if inter is not None else kind
    R.fault(kind)
    R.state(op.kind, kind, where)
    R.log('->', 'completed' if err is None else f'raised {type(err).__name__}', where)
    if err is not None and not isinstance(err, Exception) and err is not exc:
        raise err
    # ---- which state is it in?
    if err is None:
        # the fault did not reach it, or was dealt with: then it must have completed
        if op.kind in ('stochastic', 'discrete'):
            if base_err is not None:
                raise Violation('no error', f'{op} returned a result with the fault, an error without')
            if kind != 'argument' and not mm.same_results(base, got):
                raise Violation('result after fault', f'{op} returned something else after {kind} {detail} was injected')
        cands = [('completed', after)]
    else:
        cands = [('not started', before)]
        if op.kind in ('stochastic', 'discrete'):
            if op.kw['clear_scope']:
                cands.append(('released', after))
        else:
            cands.append(('completed', after))
    kept, why = [], []
    for name, ref in cands:
        w = probe(mc, p, ref.copy())
        if w is None:
            kept.append((name, ref))
        else:
            why.append(f'{name}: {w}')
    if not kept:
        raise Violation('half-done', f'after {op} failed by {kind} {detail} ({where}) the model is in neither state. '
                        + ' | '.join(why))
    names = [n for n, _ in kept]
    R.probe('left ' + '/'.join(names))
    R.log('state:', names)
    name, ref = kept[0]
    p.ref = ref.copy()
    # ---- again, without the fault
    if name == 'not started' and len(kept) == 1:
        again, again_err = None, None
        try:
            again = op.call(p.model, p.ref, mm.ListLogger() if use_logger else None)
        except Exception as e:
            again_err = e
        if (again_err is None) != (base_err is None) or type(again_err) is not type(base_err):
            raise Violation('retry', f'{op} again: {again_err!r}; a fresh model: {base_err!r}')
        if again_err is None and op.kind in ('stochastic', 'discrete') and not mm.same_results(base, again):
            raise Violation('retry', f'{op} again gave a result other than a fresh model after {kind} {detail} ({where})')
        R.probe('retried')
        p.ref = after.copy() if again_err is None else p.ref
        if again_err is not None and op.kw.get('clear_scope', False):
            p.model.clear_scope()
            p.ref.scope.clear()
            p2.model.clear_scope()
    elif name == 'released':
        p2.model.clear_scope()
    elif len(kept) > 1:
        return
    # ---- the model and its twin go on alike
    if name in ('not started', 'completed'):
        same_after(R, mc, p, p2, op)
    # ---- and the history goes on
    for _ in range(src.draw(4)):
        q = src.pick(mc.pairs)
        o = src.weighted(HIST)
        if o == 'run':
            mc.make_ready(q)
            mc.op_run(q, kw={'clear_scope': src.chance(1, 4)})
        else:
            getattr(mc, 'op_' + o)(q)
    for q in mc.pairs:
        mc.make_ready(q)
        note_state(R, q)
        mc.op_run(q, group=None, kw={'clear_scope': False}, kind='stochastic')


def same_after(R, mc, p, p2, op):
    """Runs of the model and of the twin, after both completed the operation, are the same to the bit."""
    for group in [None] + list(p.ref.groups):
        exp = mc.expectation(p, group, False)
        if exp[0] != 'value':
            continue
        kw = {'clear_scope': False, 'check_infeasible': False}
        if group is not None:
            kw['group'] = group
        try:
            a, b = p.model.run_stochastic(**kw), p2.model.run_stochastic(**kw)
        except Exception as e:
            raise Violation('run fails', f'{e!r} after {op}') from e
        if not mm.same_results(a, b):
            raise Violation('later results', f'after {op} was retried, a run differs from that of a model where nothing failed')

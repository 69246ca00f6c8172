"""C08: caller threads using their own models or shared tables do not affect each other."""
import numpy as np
import pandas as pd

from .. import lm, mm, sched
from ..engine import Violation
from ..sched import Interrupter, Scheduler
from . import linkcommon
from .faults import KINDS
from .modelcommon import note_state

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 5500}, 'thorough': {'nojit': 200000}}
RULE = ('Each run prepares models (independent ones, copies and subsets of one prepared model, the same tables assigned to '
        'several of them) or linked frames with deferred links, and lets 2 to 4 simulated caller threads work: each edits and '
        'runs its own model, reads the shared frames, or derives frames of its own from them. The scheduler takes the baton '
        'away at drawn interruptible points of the package; in some runs one thread is interrupted. Each thread is judged by '
        'the reference of its own model, or by brute-force key matching, as if it were alone.')
REAL = 'cheval, pandas, numpy, numexpr engine (one real thread); the threads are real, and parked except for the one holding the baton'
STUBS = 'numba compilation and threading layer (kernels interpreted, not preempted), numexpr thread pool, locks of the package'
STATE_MEASURE = 'distinct abstract model states (see C05) and frame states (see C12) at the operations of the threads'
ASSUMPTIONS = ['threads change hands at calls, function entries and backward jumps of the package, not inside kernels, numexpr, pandas or numpy',
               'no thread changes settings of the class (fill values), edits shared tables or the shared nodes of copies']
OPS = [(8, 'run'), (3, 'assign'), (2, 'expr'), (1, 'expr_batch'), (1, 'declare'), (2, 'partial'), (2, 'preval'), (1, 'drop_group'),
       (1, 'clear_scope'), (1, 'expr_clear'), (1, 'precision'), (1, 'units'), (1, 'copy'), (1, 'subset'), (1, 'refused'), (1, 'group'), (1, 'read')]


def schedule(R, bodies):
    s = Scheduler(R, points=True, hot=sched.draw_hot(R), pred=lambda c: not c.co_filename.endswith('/core.py'),
                  quanta=[(2, 0), (2, 2), (3, 8), (4, 40), (4, 200), (3, 1500)])
    for k, b in enumerate(bodies):
        s.spawn(f'thread {k}', b)
    tasks = s.go()
    R.fault('thread preempted', max(0, s.switches - len(bodies)))
    if s.switches > len(bodies):
        R.probe('schedules with preemption')
    R.log('schedule', s.switches, s.trace[:60])
    for t in tasks:
        if t.error is not None:
            raise t.error


def interrupting(R, k, fn):
    """fn(), interrupted at the k-th point this thread comes to. True if it was."""
    name, cls = R.src.pick(KINDS)
    it = Interrupter(k, cls('injected'))
    sched._interrupt = it
    try:
        fn()
    except cls as e:
        if e is not it.exc:
            raise
    finally:
        if sched._interrupt is it:
            sched._interrupt = None
    if it.where is None:
        return False
    R.fault(f'{name} in one thread')
    R.log(name, 'at', it.where)
    return True


# ------------------------------------------------------------------------------------------------------------- models

def read_frame(R, mc, df, ref):
    """Looks something up in a shared frame, as a reader which owns no model."""
    src = R.src
    kind, path, col = src.pick([e for e in mc.uni.schema()['hh'] if e[0] == 'agg' or e[2] in 'fi'])
    names = list(path) if kind == 'agg' else list(path[:-1])
    col = col if kind == 'agg' else path[-1]
    rows, t, many = [[k] for k in range(ref.n)], ref, False
    for nm in names:
        if nm not in t.links:
            return
        how, other, where = t.links[nm]
        nxt = []
        for r in rows:
            out = []
            for k in r:
                w = where[k]
                out.extend(w.tolist() if how == 'many' else [w] if w >= 0 else [])
            nxt.append(out)
        rows, t = nxt, other
        many = many or how == 'many'
    if not many and any(not r for r in rows):
        return                   # fill values are the subject of C16
    node = df
    for nm in names:
        node = getattr(node, nm)
    if many:
        if kind != 'agg':
            return
        got, exp = node.sum(col), [float(sum(t.cols[col][k] for k in r)) for r in rows]
        some = [bool(r) for r in rows]
        got = [g if s else 0 for g, s in zip(got.tolist(), some)]
        exp = [e if s else 0 for e, s in zip(exp, some)]
    else:
        got, exp = [np.nan if x is pd.NA else x for x in node[col]], [t.cols[col][r[0]] for r in rows]
    R.log('read', '.'.join(names + [col]))
    R.probe('reads of shared frames')
    if not np.allclose(np.asarray(got, 'f8'), np.asarray(exp, 'f8'), equal_nan=True):
        raise Violation('lookup', f'{names} {col}: {got} instead of {exp}')


def share(R, mc):
    """The same table objects in several models."""
    src = R.src
    p = mc.pairs[0]
    for name in list(p.ref.scope):
        s = p.ref.scope[name]
        if s.gone or s.status != 'filled' or not src.chance(1, 2):
            continue
        data, ref = mc.draw_data(p, name)
        mc.uni.note(name, data)
        for q in mc.pairs:
            t = q.ref.scope.get(name)
            if t is None or t.gone or t.kind != s.kind or t.orient != s.orient or t.params != s.params or q.ref.units is None \
                    or (q.ref.tree.labels() != p.ref.tree.labels() and (s.orient != 0 or s.kind == 'matrix')) \
                    or not q.ref.units.equals(p.ref.units):
                continue
            q.model[name].assign(data)
            t.status, t.data = 'filled', ref
            R.probe('tables shared by models' if q is not p else 'tables to be shared')
        R.log('shared', name)


def independent(R, mc, other):
    """Another model, with a tree of its own, using the same units and the same row-oriented tables."""
    src = R.src
    q = other.pairs[0]
    q.name = 'XYZ'[len([p for p in mc.pairs if p.name in 'XYZ'])]
    p = mc.pairs[0]
    q.model.decision_units = p.ref.units
    q.ref.set_units(p.ref.units)
    for _ in range(1 + src.draw(3)):
        mc.op_expr(q)
    for e, _, _ in q.ref.exprs(None):
        for name in sorted(e.simple() | e.chained()):
            s = p.ref.scope.get(name)
            if s is not None and not s.gone and s.status == 'filled' and s.orient == 0 and s.kind in ('table', 'vector') and name not in q.ref.scope:
                mc.declare(q, name)
                if s.kind == 'table' and s.params['links'] != q.ref.scope[name].params['links']:
                    continue
                q.model[name].assign(data_of(mc, s))
                q.ref.scope[name].status, q.ref.scope[name].data = 'filled', s.data
    mc.make_ready(q)
    mc.pairs.append(q)


def data_of(mc, sym):
    return mc.given[id(sym.data)]


def models(R):
    src = R.src
    mc = mm.Machine(R, max_depth=2)
    mc.given = {}
    draw = mc.draw_data

    def draw_data(p, name, *a, **k):
        data, ref = draw(p, name, *a, **k)
        if p.ref.scope[name].kind != 'number':
            mc.given[id(ref)] = data
            keep.append((data, ref))
        return data, ref
    keep = []
    mc.draw_data = draw_data
    p = mc.pairs[0]
    mc.op_units(p)
    for _ in range(1 + src.draw(4)):
        mc.op_expr(p)
    if src.chance(1, 3):
        mc.op_expr(p, mm.GROUPS[0])
    mc.make_ready(p)
    if src.chance(1, 3):
        mc.op_partial(p)
    n = src.rint(2, 3)
    for _ in range(n - 1):
        how = src.draw(3)
        if how == 0:
            mc.op_copy(src.pick(mc.pairs))
        elif how == 1:
            mc.op_subset(src.pick(mc.pairs))
        else:
            other = mm.Machine(R, max_depth=2)
            independent(R, mc, other)
    share(R, mc)
    for q in mc.pairs:
        if src.chance(3, 4):
            mc.make_ready(q)
    mc.mine = {}
    owned = list(mc.pairs)
    frames = [(s.data, mc.given[id(s.data)]) for q in owned for nm, s in q.ref.scope.items()
              if nm == 'hh' and s.status == 'filled' and not s.gone and id(s.data) in mc.given]
    victim = src.draw(len(owned)) if src.chance(1, 3) else None
    dead = []
    kind = 'discrete' if src.chance(1, 4) else None

    def body_of(k, p):
        def body():
            left = src.rint(1, 3)
            at = src.draw(left)
            mine = p
            for j in range(left):
                op = src.weighted(OPS)
                if k == victim and j == at:
                    mc.make_ready(mine)
                    kw = {'clear_scope': src.chance(1, 2)}
                    names = mc.assignable(mine)
                    if not names:
                        mc.declare(mine, 'v1')
                        names = ['v1']
                    name = src.pick(names)
                    data = mc.draw_data(mine, name)[0]
                    m = mine.model
                    fn = src.pick([lambda: m.run_stochastic(**kw), lambda: m.run_discrete(random_seed=1, **kw), lambda: m.run_stochastic(**kw),
                                   lambda: m.expressions.append(mc.gen(mine).expression()[2]), lambda: m[name].assign(data),
                                   lambda: [m.preval(g) for g in list(mine.ref.groups)], m.copy, m.clear_scope,
                                   lambda: m.declare_vector('v_new', 0), lambda: read_some(R, mc, frames)])

                    def tried():
                        from cheval.core import UtilityBoundsError
                        from cheval.exceptions import ModelNotReadyError
                        try:
                            fn()
                        except (UtilityBoundsError, ModelNotReadyError):
                            pass
                    R.log('thread', k, mine.name, 'to be interrupted')
                    interrupting(R, 1 + src.draw(2 << src.draw(9)), tried)
                    dead.append(p)       # what it did is the subject of C06
                    return
                R.log('thread', k, mine.name, op)
                if op == 'read':
                    read_some(R, mc, frames)
                    continue
                if op in ('run', 'preval', 'group') and src.chance(5, 6):
                    mc.make_ready(mine)
                if op == 'run':
                    note_state(R, mine)
                    mc.op_run(mine, kw=None if src.chance(1, 3) else {'clear_scope': False}, kind=kind)
                elif op == 'group':
                    mc.op_run(mine, group=mm.GROUPS[0], kw={'clear_scope': False}, kind='stochastic')
                elif op in ('copy', 'subset'):
                    before = len(mc.pairs)
                    if before < 4:
                        mc.make_ready(mine)
                        q = getattr(mc, 'op_' + op)(mine)
                        if q is not None:
                            mc.make_ready(q)
                            mc.op_run(q, kw={'clear_scope': False})
                elif op == 'refused':
                    mc.op_refused(mine, src.pick(['assign', 'partial', 'mask']))
                else:
                    getattr(mc, 'op_' + op)(mine)
            mc.make_ready(mine)
            note_state(R, mine)
            mc.op_run(mine, kw={'clear_scope': False}, kind=kind)
        return body
    bodies = [body_of(k, q) for k, q in enumerate(owned)]
    if frames and src.chance(1, 3):
        bodies.append(lambda: [read_some(R, mc, frames) for _ in range(src.rint(1, 3))])
    schedule(R, bodies)
    for q in mc.pairs:
        if q in dead:
            continue
        mc.make_ready(q)
        mc.op_run(q, group=None, kw={'clear_scope': False}, kind='stochastic')
    read_some(R, mc, frames)


def read_some(R, mc, frames):
    if frames:
        ref, df = R.src.pick(frames)
        read_frame(R, mc, df, ref)


# -------------------------------------------------------------------------------------------------------------- frames

def frames(R):
    src = R.src
    mc = lm.LinkMachine(R, many=src.chance(2, 3), deferred=src.pick([5, 4, 2]), max_rows=src.pick([6, 11]))
    if not mc.live:
        return
    race = src.chance(1, 3)      # all threads are the first to use the same links
    if race:
        mc.live.sort(key=lambda fs: fs.name)
        del mc.live[1:]
    for _ in range(0 if race else src.draw(3)):
        fs = src.pick(mc.live)
        ns = mc.derive(fs)
        if ns is not None:
            mc.live.append(ns)
    states = list(mc.live)
    victim = src.chance(1, 3)

    def body_of(k):
        def body():
            own = []
            for j in range(src.rint(1, 4)):
                fs = src.pick(own or states) if src.chance(1, 2) else src.pick(states)
                linkcommon.note_state(R, fs)
                what = src.weighted([(4, 'look'), (2, 'all'), (2, 'derive'), (1, 'compute'), (1, 'summary')])
                R.log('thread', k, fs.name, what)

                def fn():
                    if race and j == 0:
                        mc.check_all(fs)
                    elif what == 'look':
                        mc.check_some(fs, 1)
                    elif what == 'all':
                        mc.check_all(fs)
                    elif what == 'derive':
                        ns = mc.derive(fs)
                        if ns is not None:
                            own.append(ns)
                    elif what == 'compute':
                        if not fs.relabelled and all(k in fs.must for k in fs.links):
                            fs.df.compute_indexers(refresh=src.chance(1, 2))
                    else:
                        fs.df.link_summary()
                        dir(fs.df)
                if victim and k == 0 and src.chance(1, 2):
                    interrupting(R, 1 + src.draw(2 << src.draw(8)), fn)
                else:
                    fn()
            for fs in own:
                mc.check_some(fs, 1)
        return body
    schedule(R, [body_of(k) for k in range(src.rint(2, 4))])
    for fs in mc.live:
        mc.check_all(fs)
    mc.check_tables()


def run(R):
    if R.src.chance(2, 5):
        frames(R)
    else:
        models(R)
    R.nontrivial = True

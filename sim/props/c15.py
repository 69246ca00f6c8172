"""C15: reading never alters what belongs to the caller."""
import io

import numpy as np
import pandas as pd

from .. import lm, mm
from ..engine import Violation
from . import linkcommon
from .faults import interrupted

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 7500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws linked frames (or a model with data in various memory layouts) and a history of reading operations, of '
        'which some fail or are interrupted at a drawn point; after every operation the fingerprints of every frame, series, '
        'array, index and argument the caller owns are compared with those before. Results of lookups and runs are '
        'overwritten by the caller now and then.')
REAL = 'cheval (kernels as Python functions), pandas, numpy, numexpr engine (one real thread)'
STUBS = 'numba compilation and threading layer (kernels interpreted in order), numexpr thread pool'
STATE_MEASURE = linkcommon.STATE_MEASURE
ASSUMPTIONS = ['in-place changes by the caller are not reading operations',
               'an interrupt or a failing allocation comes at a call, function entry or backward jump of the package']


class Same:
    """Equal only to the very same object."""

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, other):
        return self.obj is other.obj

    def __repr__(self):
        return '<object>'


def values_print(v):
    if isinstance(v, pd.Categorical):
        return ('cat', v.codes.tobytes(), tuple(map(repr, v.categories)), v.ordered)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return (str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, np.ndarray):
        return ('O', tuple(map(repr, v.ravel().tolist())))
    return (str(v.dtype), tuple(map(repr, v)))


def index_print(ix):
    return (type(ix).__name__, tuple(map(repr, ix.names)),
            tuple(values_print(ix.get_level_values(k).values) for k in range(ix.nlevels)))


def fingerprint(obj):
    if isinstance(obj, pd.DataFrame):
        cols = tuple(values_print(obj.iloc[:, k].values) for k in range(obj.shape[1]))
        links = ()
        if hasattr(obj, 'link_summary'):
            s = obj.link_summary()
            links = tuple((n, Same(obj.get_link_target(n)), bool(a)) for n, a in zip(s.index, s['aggregation']))
        return (type(obj).__name__, index_print(obj.index), tuple(map(repr, obj.columns)), cols, links, repr(obj.attrs))
    if isinstance(obj, pd.Series):
        return ('series', index_print(obj.index), values_print(obj.values), repr(obj.name))
    if isinstance(obj, pd.Index):
        return index_print(obj)
    if isinstance(obj, np.ndarray):
        return ('array', values_print(obj))
    if isinstance(obj, dict):
        return ('dict', tuple((repr(k), Same(v), fingerprint(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(fingerprint(x) for x in obj))
    return repr(obj)


class Watch:
    def __init__(self, R):
        self.R = R
        self.seen = {}

    def add(self, name, obj):
        if not isinstance(obj, (int, float, str, type(None))) and id(obj) not in self.seen:
            self.seen[id(obj)] = (name, obj, fingerprint(obj))

    def again(self, obj):
        if id(obj) in self.seen:
            name, _, _ = self.seen[id(obj)]
            self.seen[id(obj)] = (name, obj, fingerprint(obj))

    def check(self, after):
        for name, obj, fp in self.seen.values():
            new = fingerprint(obj)
            if new != fp:
                diff = [f'{a!r:.150} became {b!r:.150}' for a, b in zip(fp, new) if a != b]
                raise Violation('caller data altered', f'{name} ({type(obj).__name__}) by {after}: {diff}')
        self.R.probe('fingerprint comparisons', len(self.seen))


# ------------------------------------------------------------------------------------------------------- linked frames

def other_read(R, mc, fs, w):
    """Reading operations which mc does not judge by value."""
    src = R.src
    what = src.pick(['evaluate', 'evaluate', 'evaluate', 'out', 'pivot', 'csv', 'summary', 'dir', 'fail', 'fail', 'fail', 'repr', 'list args', 'link'])
    cols = [c for c in ('i', 'f') if list(fs.twin.columns).count(c) == 1 and fs.twin[c].dtype.kind in 'iuf']
    paths = [p for p in mc.paths(fs) if all(n.isidentifier() for n, _ in p) and p[0][0] in fs.must]
    path = src.pick(paths) if paths else None
    prefix = '.'.join(n for n, _ in path) if path else None
    R.log(fs.name, what, prefix)
    if what in ('evaluate', 'out') and cols:
        c = src.pick(cols)
        arr = np.arange(fs.n) * 0.5
        local = {'loc': arr if src.chance(1, 2) else arr[:], 'num': 3}
        w.add('local_dict', local)
        w.add('local array', arr)
        expr = src.pick([f'{c} + loc * num', f'where({c} > 0, loc, num)', f'-{c} * num', f'{c}', 'loc', 'loc + num'])
        if path and src.chance(1, 2):
            expr += f' + {prefix}.' + ('sum(i)' if path[-1][1].many else src.pick(['i', 'f']))
        kw = {}
        if what == 'out':
            out = pd.Series(np.zeros(fs.n), index=fs.twin.index)
            kw = {'out': out}
        r = fs.df.evaluate(expr, local_dict=local, **kw)
        if isinstance(r, pd.Series) and 'out' not in kw and src.chance(1, 2):
            mc.spoil(r)
            w.check(f'modifying the result of {expr}')
    elif what == 'pivot':
        mc.check_pivot(fs)
    elif what == 'csv':
        fs.df.to_csv(io.StringIO())
    elif what == 'summary':
        fs.df.link_summary().iloc[:, 0:0]
        for lk in fs.must:
            fs.df.get_link_target(lk)
    elif what == 'dir':
        dir(fs.df)
        for lk in fs.must:
            dir(fs.df[lk])
    elif what == 'repr':
        repr(fs.df), str(fs.df.head(2)), fs.df.describe(include='all') if fs.n else None
    elif what == 'list args' and path:
        # lists handed over when linking belong to the caller, too
        link = path[0][1]
        how, labels = link.self_spec
        if path[0][0] in fs.relabelled or not mc.has_keys(link, fs.twin) or how == 'index' or link.other_spec[0] == 'index':
            return
        a, b = list(labels), list(link.other_spec[1])
        w.add('labels', a)
        w.add('other labels', b)
        new = fs.df.copy()
        try:
            new.link_to(link.other.df, 'again', **{'on_self' if how == 'cols' else 'self_levels': a,
                                                  'on_other' if link.other_spec[0] == 'cols' else 'other_levels': b})
        except RuntimeError:
            return
        if not link.many:
            new.again.i
    elif what == 'link':
        # linking a copy leaves the original and the target as they are
        new = fs.df.copy()
        t = src.pick(mc.tables)
        try:
            new.link_to(t.df, 'fresh', precompute=src.chance(1, 2))
        except Exception as e:
            if e.args == ('injected',):
                raise
    elif what == 'fail':
        bad = src.pick(['column', 'link', 'agg', 'expr', 'out', 'text'])
        node = None
        try:
            if bad == 'column' and path:
                mc.walk(fs, path)['nothing here']
            elif bad == 'link':
                fs.df['nothing here']
            elif bad == 'agg' and path and path[-1][1].many:
                getattr(mc.walk(fs, path), src.pick(['sum', 'mean', 'max']))(src.pick(['s', 'i + nothing', 't', '(', 'i.x']))
            elif bad == 'expr':
                fs.df.evaluate(src.pick(['i + nothing', 'nothing.f', 'i +', "s > 1", 't * 2', 'sum(i, f)'] + ([f'{prefix}.nothing', f'{prefix}.t', f'{prefix}.s + 1'] if path else [])))
            elif bad == 'out':
                fs.df.evaluate('f + 0.5', out=pd.Series(np.zeros(fs.n, dtype='i4')))
            elif bad == 'text':
                fs.df.pivot_table(values='nothing', index='b')
        except Exception as e:
            if e.args == ('injected',):
                raise
            R.probe('failing reads')


def linked(R):
    src = R.src
    mc = lm.LinkMachine(R, many=src.chance(2, 3), max_rows=src.pick([5, 9]))
    w = Watch(R)
    for t in mc.tables:
        w.add(t.name, t.df)
        if t.ldf:
            w.add(t.name + ' base', t.base_frame)
    for k in range(src.rint(2, 8)):
        if not mc.live:
            break
        fs = src.pick(mc.live)
        w.add(fs.name, fs.df)
        linkcommon.note_state(R, fs)
        what = src.weighted([(4, 'look'), (2, 'derive'), (4, 'other'), (1, 'recompute')])
        made = []

        def fn():
            if what == 'look':
                mc.check_some(fs, 2)
            elif what == 'derive':
                made.append(mc.derive(fs))
            elif what == 'other':
                other_read(R, mc, fs, w)
            else:
                mc.recompute(fs)
        if src.chance(1, 2):
            try:
                interrupted(R, what, fn, engine=True)
            finally:
                pass
        else:
            fn()
        w.check(f'{fs.name} {what}')
        for ns in made:
            if ns is not None:
                mc.live.append(ns)
                if len(mc.live) > 4:
                    mc.live.pop(src.draw(4))
    for fs in mc.live:
        mc.check_all(fs)
        for path in mc.paths(fs):
            if not path[-1][1].many and src.chance(1, 2):
                c = src.pick(lm.ALLCOLS)
                if mc.check_lookup(fs, path, c, mutate=True) is not None:
                    mc.check_lookup(fs, path, c, mutate=False)
    w.check('lookups')


# -------------------------------------------------------------------------------------------------------------- models

class Layouts(mm.Universe):
    """Data handed to the model in various memory layouts; what it is a view of is watched as well."""

    def vector(self, index, orient):
        data, vals = super().vector(index, orient)
        how = self.src.draw(4)
        n = len(vals)
        if isinstance(data, np.ndarray):
            if how == 1:
                big = np.zeros(2 * n + 1, dtype=vals.dtype)
                big[1::2] = vals
                self.note('array behind a view', big)
                data = big[1::2]
            elif how == 2:
                big = np.zeros((n, 2), dtype=vals.dtype)
                big[:, 1] = vals
                self.note('array behind a view', big)
                data = big[:, 1]
        elif how in (1, 2):
            frame = pd.DataFrame({'p': vals, 'q': vals, 'r': vals}, index=index)
            self.note('frame behind a column', frame)
            data = frame['q']
        return data, vals

    def matrix(self, *a):
        frame, full = super().matrix(*a)
        how = self.src.draw(3)
        if how == 1:
            frame = pd.DataFrame(np.asfortranarray(frame.to_numpy()), index=frame.index, columns=frame.columns)
        elif how == 2:
            v = frame.to_numpy()
            big = np.zeros((v.shape[0] + 2, v.shape[1] + 1), dtype=v.dtype)
            big[1:-1, 1:] = v
            self.note('array behind a matrix', big)
            frame = pd.DataFrame(big[1:-1, 1:], index=frame.index, columns=frame.columns)
        return frame, full


def models(R):
    src = R.src
    w = Watch(R)
    mc = mm.Machine(R, max_depth=2)
    mc.uni.__class__ = Layouts
    note = mc.uni.note

    def watched(what, obj):
        w.add(what, obj)
        return note(what, obj)
    mc.uni.note = watched
    p = mc.pairs[0]
    mc.op_units(p)
    w.add('units', p.ref.units)
    for _ in range(1 + src.draw(3)):
        mc.op_expr(p)
    for k in range(src.rint(2, 8)):
        if not mc.pairs:
            break
        p = src.pick(mc.pairs)
        op = src.weighted([(2, 'run'), (3, 'faulted run'), (2, 'spoilt'), (1, 'assign'), (1, 'faulted assign'), (1, 'partial'),
                           (1, 'faulted partial'), (1, 'preval'), (1, 'subset'), (1, 'copy'), (1, 'refused')])
        if op in ('run', 'faulted run', 'spoilt', 'preval', 'faulted partial'):
            mc.make_ready(p)
            w.check('assignments')
        R.log('->', op)
        if op == 'run':
            mc.op_run(p)
        elif op == 'faulted run':
            kw = {'clear_scope': False}
            if src.chance(1, 2):
                interrupted(R, 'run', lambda: attempt(p.model.run_stochastic, kw), engine=True)
            else:
                kw.update(random_seed=src.draw(99), n_draws=1 + src.draw(2))
                interrupted(R, 'run', lambda: attempt(p.model.run_discrete, kw), engine=True)
        elif op == 'spoilt':
            r = attempt(p.model.run_stochastic, {'clear_scope': False, 'check_infeasible': False})
            if r is not None:
                for x in r if isinstance(r, tuple) else (r,):
                    x.values[...] = 0.25
                    if isinstance(x, pd.DataFrame) and len(x.columns):
                        x.iloc[:, 0] = 0.125
                R.fault('results of a run modified')
                w.check('modifying the results of a run')
                mc.op_run(p, group=None, kw={'clear_scope': False}, kind='stochastic')
        elif op == 'faulted assign':
            names = mc.assignable(p)
            if names:
                name = src.pick(names)
                data, ref = mc.draw_data(p, name)
                mc.uni.note(name, data)
                R.log(p.name, 'assign', name)
                failed, _ = interrupted(R, 'assign', lambda: p.model[name].assign(data))
                s = p.ref.scope[name]
                s.status, s.data = ('maybe', None) if failed else ('filled', ref)
        elif op == 'faulted partial':
            n, m = len(p.ref.units), len(p.ref.tree.nodes)
            t = pd.DataFrame(np.ones((n, m), dtype=f'f{p.ref.precision}'), index=p.ref.units, columns=p.model.choices)
            if src.chance(1, 2):
                t = t.iloc[::-1]
            w.add('partial utilities', t)
            failed, _ = interrupted(R, 'add_partial_utilities', lambda: p.model.add_partial_utilities(t, reindex_rows=True, reindex_columns=True))
            w.check('add_partial_utilities')
            mc.pairs.remove(p)
        else:
            getattr(mc, 'op_' + op)(p)
        w.check(op)
    for p in mc.pairs:
        mc.make_ready(p)
        mc.op_run(p, kw={'clear_scope': False})
    w.check('final runs')


def attempt(fn, kw):
    """Runs which fail for reasons of their own (utilities out of bounds) are of no interest here."""
    from cheval.core import UtilityBoundsError
    try:
        return fn(**kw)
    except UtilityBoundsError:
        return None


def run(R):
    if R.src.chance(1, 3):
        models(R)
    else:
        linked(R)
    R.nontrivial = True

"""C16: fill values apply where they were set, and temporary ones are always undone."""
import numpy as np
import pandas as pd

from .. import lm
from ..engine import Violation
from .faults import Injected, InjectedExit, interrupted
from .linkcommon import ASSUMPTIONS as _A, REAL, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 9500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws tables with many unmatched rows and a history of fill settings for columns, frames and all frames, '
        'resets, refused settings, temporary blocks (nested, left normally, by an error, by an interrupt at a drawn point of a '
        'lookup, or refused because of a later name) and lookups on all frames, judged by a reference of the settings in force.')
STATE_MEASURE = 'distinct (level of the setting in force, type, depth of temporary blocks, how the last block was left) at lookups of unmatched rows'
ASSUMPTIONS = _A + ['nothing is interrupted while a temporary block is being entered or left',
                    'which defaults a frame has after its reset, if those of all frames were changed before, is not judged']
KIND_COL = {'FLOAT_NAME': 'f', 'INT_NAME': 'i', 'BOOL_NAME': 'b', 'TEXT_NAME': 's', 'CAT_NAME': 'c', 'TIME_NAME': 't', 'UINT_NAME': 'i'}
VALUES = {'f': [-1.5, 0.0, 99.25, np.nan, np.inf, 3], 'i': [7, -3, 0, 2.5, 2 ** 40, -1, np.nan], 'b': [True, False, True, 5],
          's': ['none', 'a longer text', None, ''], 'c': ['u', 'www', np.nan], 't': [pd.Timestamp('1999-01-01'), pd.NaT, pd.Timestamp('2030-05-05')]}


class Fills:
    """The settings in force, per table and for all frames."""

    def __init__(self, R):
        self.R, self.src = R, R.src
        self.depth = 0
        self.left = '-'

    def draw(self, refused=False):
        src = self.src
        kinds = src.sample(list(KIND_COL), src.rint(1, 3))
        kw = {k: src.pick(VALUES[KIND_COL[k]]) for k in kinds}
        if refused:
            items = list(kw.items())
            items.insert(src.draw(len(items) + 1), (src.pick(['NOPE', 'float', 'FLOAT', 'int_name']), 1))
            kw = dict(items)
        return kw


def run(R):
    from cheval import LinkedDataFrame
    src = R.src
    F = Fills(R)
    class_fill = {}
    if src.chance(1, 3):
        class_fill.update(F.draw())
        LinkedDataFrame.set_fill_defaults(**class_fill)
        R.log('all frames', class_fill)
    mc = lm.LinkMachine(R, many=src.chance(1, 4), max_rows=6, class_fill=class_fill, unmatched=3)
    for t in mc.tables:      # all roots are looked at
        if t.ldf and t.links and not any(f.table is t for f in mc.live):
            mc.live.append(mc.state_of(t))

    def look(n=3):
        if not mc.live:
            return
        for _ in range(n):
            fs = src.pick(mc.live)
            paths = [p for p in mc.paths(fs) if not p[-1][1].many]
            if not paths:
                continue
            path = src.pick(paths)
            t = path[-1][1].other
            col = src.pick([c for c in lm.ALLCOLS if c in t.plain.columns] or [None])
            if col is None:
                continue
            if src.chance(1, 6) and col in 'if':
                mc.check_eval(fs)
            else:
                mc.check_lookup(fs, path, col)
            if -1 in mc.end(fs, path):
                kind = mc.type_of(t, col)
                level = 'column' if t.ldf and col in t.col_fill else 'frame' if t.ldf else 'all'
                R.state(level, kind, kind in (t.type_fill if t.ldf else class_fill), F.depth, F.left)
                R.probe(f'fill by {level} setting judged')

    def scope(t):
        """(object to call, settings)"""
        return (target(t), t.type_fill) if t is not None else (LinkedDataFrame, class_fill)

    def target(t):
        """The frame itself, or as whoever has a link to it gets it."""
        ways = [(fs, lk) for fs in mc.live for lk in sorted(fs.must) if fs.links[lk].other is t]
        if not ways or src.chance(2, 3):
            return t.df
        fs, lk = src.pick(ways)
        R.log(t.name, 'by way of', fs.name, lk)
        R.probe('frames reached by their links')
        return fs.df.get_link_target(lk)

    def draw_scope():
        targets = [t for t in mc.tables if t.ldf]
        return src.pick([None] + targets + targets)

    def refused(fn, what):
        try:
            r = fn()
            if hasattr(r, '__enter__'):
                with r:
                    pass
        except Exception:
            R.fault('refused ' + what)
            return
        raise Violation('not refused', what)

    def block(depth):
        t = draw_scope()
        obj, fills = scope(t)
        name = t.name if t is not None else 'all frames'
        kw = F.draw()
        how = src.weighted([(3, 'normal'), (2, 'error'), (3, 'interrupt'), (2, 'refused')])
        if how == 'refused':
            bad = F.draw(True)
            R.log('temporary', name, bad, 'refused')
            refused(lambda: obj.temporary_fill_defaults(**bad), 'temporary setting')
            F.left = 'refused'
            look()
            return
        saved = {k: fills.get(k, 'unset') for k in kw}
        R.log('temporary', name, kw, how)
        exc = {'error': Injected, 'interrupt': src.pick([KeyboardInterrupt, InjectedExit, MemoryError])}.get(how)
        thrown = exc('injected') if exc else None
        try:
            with obj.temporary_fill_defaults(**kw):
                fills.update(kw)
                F.depth += 1
                body(depth)
                if how == 'interrupt' and src.chance(2, 3):
                    # the lookup itself is interrupted inside the block
                    from ..sched import Interrupter
                    with Interrupter(1 + src.draw(60), thrown):
                        look(2)
                if thrown is not None:
                    raise thrown
        except BaseException as e:
            if e is not thrown:
                raise
            R.fault(f'temporary block left by {type(e).__name__}')
        F.depth -= 1
        F.left = how
        for k, v in saved.items():
            if isinstance(v, str) and v == 'unset':
                fills.pop(k, None)
            else:
                fills[k] = v
        R.log('left', name, how)
        R.probe(f'temporary blocks left: {how}')
        look()

    def body(depth):
        for _ in range(src.rint(0, 2)):
            look(2)
            if src.chance(1, 3):
                step(depth + 1)

    def step(depth):
        what = src.weighted([(2, 'set'), (2, 'column'), (1, 'reset'), (2, 'bad'), (3, 'block'), (1, 'derive'), (1, 'inplace'), (1, 'new target')])
        t = draw_scope()
        obj, fills = scope(t)
        name = t.name if t is not None else 'all frames'
        if what == 'set':
            kw = F.draw()
            R.log(name, 'set', kw)
            if src.chance(1, 3):
                interrupted(R, 'set_fill_defaults', lambda: obj.set_fill_defaults(**kw), k=1 + src.draw(20))
            obj.set_fill_defaults(**kw)
            fills.update(kw)
        elif what == 'column':
            targets = [x for x in mc.tables if x.ldf]
            if not targets:
                return
            t = src.pick(targets)
            col = src.pick([c for c in lm.ALLCOLS if c in t.plain.columns] or [None])
            if col is None:
                return
            v = src.pick(VALUES[col])
            R.log(t.name, 'column fill', col, v)
            target(t).set_column_fill(col, v)
            t.col_fill[col] = v
        elif what == 'reset':
            if F.depth and not src.chance(1, 4):
                return
            R.log(name, 'reset')
            obj.reset_fill_defaults()
            fills.clear()
            if t is not None and class_fill:
                kw = {k: src.pick(VALUES[c]) for k, c in KIND_COL.items()}
                target(t).set_fill_defaults(**kw)
                fills.update(kw)
        elif what == 'bad':
            if src.chance(1, 2):
                bad = F.draw(True)
                R.log(name, 'set', bad, 'refused')
                refused(lambda: obj.set_fill_defaults(**bad), 'setting')
            else:
                targets = [x for x in mc.tables if x.ldf]
                if targets:
                    x = src.pick(targets)
                    R.log(x.name, 'column fill of no column')
                    refused(lambda: x.df.set_column_fill(src.pick(['nothing', 5, 'F']), 1), 'column setting')
        elif what == 'block':
            if depth < 3:
                block(depth)
        elif what == 'derive':
            if mc.live:
                ns = mc.derive(src.pick(mc.live))
                if ns is not None:
                    mc.live.append(ns)
                    if len(mc.live) > 6:
                        mc.live.pop(src.draw(6))
        elif what == 'inplace':
            if mc.live:
                mc.inplace(src.pick(mc.live))
        elif what == 'new target' and mc.live:
            fs = src.pick(mc.live)
            cands = [k for k in fs.keys if k not in fs.relabelled and mc.has_keys(fs.links[k], fs.twin) and not fs.links[k].many]
            if not cands or F.depth or (fs.table is not None and fs.table.name in mc.targets):
                return
            link = fs.links[src.pick(sorted(cands))]
            o = link.other
            try:
                own = lm.keys_of(fs.twin, link.self_spec)
            except Exception:
                return
            t2 = lm.Table(mc.fresh('n'), o.n, o.base)
            t2.plain, t2.ldf = o.plain, True
            t2.df = LinkedDataFrame(o.plain.copy(deep=True))
            t2.base_frame = t2.df
            t2.type_fill = dict(class_fill)
            new = mc.link_up(fs.df, lm.FSName(fs.name), t2, mc.fresh('again'), link.self_spec, link.other_spec, plain=fs.twin)
            if new.many:
                fs.df.copy
            fs.links = {**fs.links, new.name: new}
            fs.keys[new.name] = own
            fs.must.add(new.name)
            if not new.pre:
                fs.deferred.add(new.name)
            mc.tables.append(t2)
            mc.targets.add(t2.name)
            R.probe('frames created later')
    for _ in range(src.rint(2, 8)):
        step(0)
        look()
    look(6)
    mc.check_tables()
    R.nontrivial = True

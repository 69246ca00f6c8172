"""C26: what a linked frame tells about its links is so, and telling it changes nothing."""
import pandas as pd

from .. import lm, sched
from ..engine import Violation
from ..sched import Scheduler
from .faults import interrupted
from .linkcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 7000}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws tables, links and a history of derivations, in-place operations, further and refused links, (interrupted) first '
        'uses and computations; link summaries, link targets and the names offered by frames, links and aggregations are compared with '
        'what was declared and done, and whatever is offered is used; some reports are interrupted or come from several simulated threads.')
ASSUMPTIONS = _A + ['links which a derived frame may or may not have are only asked to be reported the same way everywhere',
                    'how the key columns and levels are worded is not judged, only that they are named']
AGGS = set(lm.AGGS_NUM + lm.AGGS_ANY)


class Report:
    def __init__(self, R, mc, fs):
        self.R, self.src, self.mc, self.fs = R, R.src, mc, fs

    def rows(self):
        t = self.fs.df.link_summary()
        if t.index.name != 'name' or not t.index.is_unique:
            raise Violation('summary', f'{self.fs.name}: index {t.index.name!r} {list(t.index)}')
        if isinstance(t, lm_frame()) and lm.link_names(t):
            raise Violation('summary', f'the summary of {self.fs.name} has links')
        return {k: t.loc[k] for k in t.index}

    def ask(self):
        for part in self.src.sample(['summary', 'targets', 'names', 'offers', 'again'], self.src.rint(1, 3)):
            self.R.step()
            getattr(self, part)()

    def all(self):
        for part in ('summary', 'targets', 'names', 'offers', 'again'):
            getattr(self, part)()

    def summary(self):
        fs = self.fs
        rows = self.rows()
        self.R.log(fs.name, 'summary', sorted(rows))
        self.R.probe('links in summaries', len(rows))
        for name in sorted(fs.must):
            if name not in rows:
                raise Violation('summary', f'{fs.name}: the link {name} is missing')
        for name, row in rows.items():
            link = fs.links.get(name)
            if link is None:
                raise Violation('summary', f'{fs.name}: {name} was never declared')
            want = {'target_shape': str(link.other.df.shape), 'chained': link.other.ldf, 'aggregation': link.many}
            for k, v in want.items():
                if row[k] != v:
                    raise Violation('summary', f'{fs.name}: {k} of {name} is {row[k]!r}, not {v!r}')
            if row['preindexed'] not in (True, False):
                raise Violation('summary', f'{fs.name}: preindexed of {name} is {row["preindexed"]!r}')
            for k, (how, labels), plain in (('on_self', link.self_spec, fs.twin), ('on_other', link.other_spec, link.other.plain)):
                text = str(row[k])
                kinds = ('column', 'index') if how == 'cols' else ('index', 'column')
                if kinds[0] not in text.lower() or kinds[1] in text.lower() or not all(repr(x) in text for x in labels or []):
                    raise Violation('summary', f'{fs.name}: {k} of {name} is {text!r} for {how} {labels}')

    def targets(self):
        fs = self.fs
        for name in sorted(fs.must):
            if fs.df.get_link_target(name) is not fs.links[name].other.df:
                raise Violation('target', f'{fs.name}: the target of {name} is another frame')
        for name in ('no such link', 'i'):
            try:
                fs.df.get_link_target(name)
            except KeyError:
                continue
            raise Violation('target', f'{fs.name}: a target of {name!r}')
        self.R.probe('targets compared', len(fs.must))

    def names(self):
        fs = self.fs
        got, have = dir(fs.df), lm.link_names(fs.df)
        for name in have:
            if name.isidentifier() != (name in got):
                raise Violation('dir', f'{fs.name}: {name} is ' + ('missing' if name.isidentifier() else 'there'))
        for name in fs.links:
            if name not in have and name in got:
                raise Violation('dir', f'{fs.name} offers {name}, which it does not have')
            if name not in have and name.isidentifier() and hasattr(fs.df, name):
                raise Violation('dir', f'{fs.name} has an attribute {name}, which it does not tell of')
        self.R.probe('names of frames compared')

    def offers(self):
        """What links and aggregations offer can be used."""
        fs, mc, src = self.fs, self.mc, self.src
        paths = [p for p in mc.paths(fs) if p[0][0] in fs.must]
        if not paths:
            return
        path = src.pick(paths)
        node = mc.walk(fs, path)
        link = path[-1][1]
        got = dir(node)
        what = f'{fs.name}.' + '.'.join(n for n, _ in path)
        if link.many:
            if set(got) != AGGS:
                raise Violation('offers', f'{what} offers {sorted(got)}')
            for name in got:
                if not callable(getattr(node, name)):
                    raise Violation('offers', f'{what}.{name} cannot be called')
            try:
                node.no_such_statistic
            except AttributeError:
                pass
            else:
                raise Violation('offers', f'{what} has a no_such_statistic')
        else:
            df = link.other.df
            want = {str(c) for c in df.columns if str(c).isidentifier()}
            if link.other.ldf:
                want |= set(lm.link_names(df))
            if set(got) != {x for x in want if x in got or x.isidentifier()} or len(set(got)) < len(got):
                raise Violation('offers', f'{what} offers {sorted(got)}, not {sorted(want)}')
            for name in ('no_such_column', 'no such column'):
                try:
                    node[name]
                except KeyError:
                    continue
                raise Violation('offers', f'{what} has a {name!r}')
            if hasattr(node, 'no_such_column'):
                raise Violation('offers', f'{what} has a no_such_column')
            name = src.pick(sorted(got))
            r = getattr(node, name) if name.isidentifier() else node[name]
            if name in link.other.plain.columns and name in lm.ALLCOLS and not isinstance(r, pd.Series):
                raise Violation('offers', f'{what}.{name} is {type(r).__name__}')
        self.R.probe('offers of links compared')

    def again(self):
        """Reports neither compute nor change anything."""
        if sched._active is not None:
            return
        fs = self.fs
        a = fs.df.link_summary()
        dir(fs.df)
        for name in a.index:
            dir(fs.df[name])
            fs.df.get_link_target(name)
        b = fs.df.link_summary()
        if not a.equals(b):
            raise Violation('reporting', f'{fs.name}: the summary was {a.to_dict()}, now it is {b.to_dict()}')


def lm_frame():
    from cheval import LinkedDataFrame
    return LinkedDataFrame


def indexed(R, fs, names, value, when):
    s = fs.df.link_summary()['preindexed']
    for name in names:
        if name in s.index and bool(s[name]) != value:
            raise Violation('preindexed', f'{fs.name}: {name} is reported as ' + ('' if s[name] else 'not ') + f'indexed {when}')
    R.probe('index states compared', len(names))


def in_threads(R, mc):
    src = R.src
    s = Scheduler(R, points=True, hot=sched.draw_hot(R))
    for k in range(src.rint(2, 3)):
        def body():
            for _ in range(1 + src.draw(2)):
                fs = src.pick(mc.live)
                if src.chance(1, 2):
                    mc.check_some(fs, 1)
                else:
                    Report(R, mc, fs).ask()
        s.spawn(f'thread {k}', body)
    tasks = s.go()
    R.fault('thread preempted', max(0, s.switches - len(tasks)))
    for t in tasks:
        if t.error is not None:
            raise t.error


def use(R, mc, fs):
    """A link counts as indexed once it was used."""
    src = R.src
    paths = [p for p in mc.paths(fs) if p[0][0] in fs.must and p[0][0] not in fs.relabelled]
    if not paths:
        return
    path = src.pick(paths)
    name = path[0][0]
    if src.chance(1, 3):
        if interrupted(R, 'first use', lambda: mc.check_agg(fs, path) if path[-1][1].many else mc.check_lookup(fs, path))[0]:
            Report(R, mc, fs).summary()
    (mc.check_agg if path[-1][1].many else mc.check_lookup)(fs, path)
    if fs.n and fs.links[name].other.n and not (path[-1][1].many):
        indexed(R, fs, [name], True, 'after it was used')


def run(R):
    src = R.src
    mc = lm.LinkMachine(R, many=src.chance(2, 3), deferred=src.pick([1, 3, 5]), max_rows=src.pick([4, 8]))
    for fs in mc.live:
        indexed(R, fs, sorted(fs.must - fs.deferred), True, 'right after it was declared with precompute=True')
        indexed(R, fs, sorted(fs.must & fs.deferred), False, 'right after it was declared with precompute=False')
    for k in range(src.rint(2, 9)):
        if not mc.live:
            break
        fs = src.pick(mc.live)
        note_state(R, fs)
        op = src.weighted([(4, 'derive'), (3, 'inplace'), (3, 'relink'), (4, 'use'), (2, 'recompute'), (2, 'refuse'), (1, 'target'),
                           (1, 'look'), (2, 'column')])
        if op == 'derive':
            ns = mc.derive(fs)
            if ns is not None:
                mc.live.append(ns)
                if len(mc.live) > 5:
                    mc.live.pop(src.draw(5))
                fs = ns
        elif op == 'relink':
            before = set(fs.keys)
            old = {n: fs.links[n] for n in fs.keys}
            mc.relink(fs)
            new = [n for n in fs.keys if n not in before or fs.links[n] is not old[n]]
            for n in new:
                indexed(R, fs, [n], fs.links[n].pre, 'right after it was declared with precompute=' + str(fs.links[n].pre))
        elif op == 'use':
            use(R, mc, fs)
        elif op == 'recompute':
            if fs.links and not fs.relabelled and all(n in fs.must for n in lm.link_names(fs.df)):
                mc.recompute(fs)
                indexed(R, fs, sorted(fs.must), True, 'after compute_indexers()')
        elif op == 'refuse':
            mc.refuse(fs)
        elif op == 'target':
            mc.edit_target()
        elif op == 'column':
            t = src.pick(mc.tables)
            name = mc.fresh('extra') if src.chance(2, 3) else mc.fresh('extra ')
            if not any(f.table is t for f in mc.live):
                t.df[name] = t.plain[name] = list(range(t.n))
                R.log(t.name, 'new column', name)
        elif op == 'look':
            mc.check_some(fs, 1)
        else:
            mc.inplace(fs)
        if src.chance(2, 3):
            rep = Report(R, mc, src.pick([fs, fs, src.pick(mc.live)]))
            if src.chance(1, 4):
                interrupted(R, 'report', rep.ask)
            rep.ask()
        if src.chance(1, 15):
            in_threads(R, mc)
    for fs in mc.live:
        Report(R, mc, fs).all()
    R.nontrivial = bool(mc.live)

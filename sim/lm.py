"""Histories of linked data frames, judged by brute-force matching of the key values.

Every frame under test has a plain pandas twin to which the same operations are applied (with a hidden column that says
which row of the previous frame each row was), so the key of each row is known whatever was done to the frame.
"""
import copy
import math
import pickle

import numpy as np
import pandas as pd

from . import world
from .engine import Src, Violation

E = '__e'
NUMERIC = ['f', 'i', 'b']
ALLCOLS = ['f', 'i', 'b', 's', 'c', 't']
DEFAULT_FILL = {'f': np.nan, 'i': 0, 'b': False, 's': '', 'c': np.nan, 't': pd.NaT}
TYPE_NAME = {'f': 'FLOAT_NAME', 'i': 'INT_NAME', 'b': 'BOOL_NAME', 's': 'TEXT_NAME', 'c': 'CAT_NAME', 't': 'TIME_NAME'}
AGGS_NUM = ['sum', 'mean', 'max', 'min', 'median', 'prod', 'std', 'var', 'quantile']
AGGS_ANY = ['count', 'first', 'last', 'nth']


def null(x):
    return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, (float, np.floating)) and math.isnan(x))


def same(a, b, tol=0.0):
    if null(a) or null(b):
        return null(a) and null(b)
    try:
        if a == b:
            return True
    except Exception:
        return False
    if tol and not isinstance(a, str) and not isinstance(b, str):
        try:
            return math.isclose(float(a), float(b), rel_tol=tol, abs_tol=tol)
        except (TypeError, ValueError):
            return False
    return False


def same_list(a, b, tol=0.0):
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))


def keys_of(plain, spec):
    """The key of each row (None if any part is missing)."""
    how, labels = spec
    if how == 'cols':
        parts = [plain[c].tolist() for c in labels]
    elif how == 'levels':
        parts = [plain.index.get_level_values(c).tolist() for c in labels]
    else:
        parts = [plain.index.get_level_values(k).tolist() for k in range(plain.index.nlevels)]
    return [None if any(null(x) for x in t) else t for t in zip(*parts)]


def public(df):
    return sorted(x for x in dir(df) if not x.startswith('_'))


def link_names(df):
    return df.link_summary().index.tolist()


class Link:
    def __init__(self, name, owner, other, self_spec, other_spec, many):
        self.name, self.owner, self.other = name, owner, other
        self.self_spec, self.other_spec, self.many = self_spec, other_spec, many
        self.self_keys = None        # per entity of the owner
        self.where = None            # key -> positions in the other table

    def set_other(self, plain_other):
        self.where = {}
        keys = keys_of(plain_other, self.other_spec)
        self.other_missing = None in keys
        for k, key in enumerate(keys):
            if key is not None:
                self.where.setdefault(key, []).append(k)


    def unclear(self, keys):
        """Whether missing keys match missing keys is not specified for links without aggregation."""
        return not self.many and self.other_missing and None in keys


class Table:
    def __init__(self, name, n, base):
        self.name, self.n, self.base = name, n, base
        self.links = {}
        self.col_fill = {}
        self.type_fill = {}
        self.df = None
        self.plain = None            # deep plain copy: the truth


class FS:
    """A frame under test and what is known of its rows."""

    def __init__(self, name, df, twin, links):
        self.name, self.df, self.twin = name, df, twin
        self.links = links           # name -> Link
        self.keys = {}               # name -> key per row
        self.must = set()            # links which must be there
        self.relabelled = set()      # links of which the labels were replaced
        self.table = None
        self.deferred = set()
        self.parent = None

    def forget(self, link):
        self.keys.pop(link, None)
        self.must.discard(link)
        self.relabelled.discard(link)

    @property
    def n(self):
        return len(self.twin)


class LinkMachine:
    def __init__(self, R, *, max_rows=11, many=True, one=True, empty=True, big=0, deferred=2, faulty=None, class_fill=None, unmatched=1):
        self.R, self.src = R, R.src
        self.max_rows, self.many, self.one, self.empty = max_rows, many, one, empty
        self.big = big
        self.deferred = deferred
        self.faulty = faulty         # callable(what, fn, between) which injects faults into operations on links
        world.divide_evaluations(R)
        self.rs = np.random.RandomState(self.src.seed32())
        self.class_fill = {} if class_fill is None else class_fill
        self.unmatched = unmatched
        self.notes = []
        self.live = []
        self.counter = 0
        self.build()

    # ------------------------------------------------------------------------------------------------- generation

    def fresh(self, p='x'):
        self.counter += 1
        return f'{p}{self.counter}'

    def part(self, kind, n, distinct=True):
        if kind == 'int':
            pool = [int(x) for x in self.rs.permutation(3 * n + 3)[:n]]
        elif kind == 'float':
            pool = [x + 0.5 for x in self.rs.permutation(3 * n + 3)[:n].tolist()]
        else:
            pool = [f'k{x}' for x in self.rs.permutation(3 * n + 3)[:n]]
        return pool

    def build(self):
        src, rs = self.src, self.rs
        nt = src.weighted([(3, 2), (4, 3), (2, 4)])
        tables = self.tables = []
        for k in range(nt):
            n = src.rint(2, self.max_rows)
            if self.empty and src.chance(1, 30):
                n = src.draw(2)
            if self.big and k < 2 and src.chance(1, 3):
                n = src.rint(20, self.big)
            t = Table(f't{k}', n, 100 * (k + 1))
            t.idkinds = [src.pick(['int', 'str', 'float']) if not src.chance(1, 2) else 'int'
                         for _ in range(2 if src.chance(1, 3) else 1)]
            if len(t.idkinds) == 1:
                t.id = [(x,) for x in self.part(t.idkinds[0], n)]
            else:
                side = max(2, int(math.ceil(math.sqrt(n + 2))))
                a, b = self.part(t.idkinds[0], side), self.part(t.idkinds[1], side)
                grid = [(x, y) for x in a for y in b]
                t.id = [grid[j] for j in rs.permutation(len(grid))[:n]]
            t.spare = [tuple(self.part(kd, 40)[-1] for kd in t.idkinds) for _ in range(2)]
            t.spare = [s for s in t.spare if s not in t.id]
            t.idnames = [f'{t.name}_{c}' for c in 'ab'[:len(t.idkinds)]]
            tables.append(t)
        # which links
        plans = []
        for i in range(nt - 1):
            js = [i + 1] if src.chance(2, 3) else [src.rint(i + 1, nt - 1)]
            if src.chance(1, 3):
                js.append(src.rint(i + 1, nt - 1))
            for j in js:
                many = self.many and (not self.one or src.chance(1, 2))
                plans.append((i, j, many))
        if self.one and src.chance(1, 10):
            plans.append((0, 0, False))
        if self.many and src.chance(1, 12):
            plans.append((0, 0, True))
        # columns
        extra = {t.name: [] for t in tables}       # (link number, names, tuples)
        links = []
        for num, (i, j, many) in enumerate(plans):
            u, f = (tables[i], tables[j]) if many else (tables[j], tables[i])
            # foreign keys of f to u
            vals = []
            for _ in range(f.n):
                r = rs.randint(0, 12)
                if r < self.unmatched and u.spare:
                    vals.append(u.spare[rs.randint(len(u.spare))])
                elif r < 2 * self.unmatched:
                    vals.append('missing')
                elif u.id:
                    vals.append(u.id[rs.randint(len(u.id))])
                else:
                    vals.append('missing')
            if src.chance(1, 2):
                vals = [u.id[rs.randint(len(u.id))] if v == 'missing' and u.id else v for v in vals]
            tuples = []
            for v in vals:
                if v == 'missing':
                    v = [None] * len(u.idkinds)
                    if len(v) == 2 and rs.randint(2) and u.id:
                        v[0] = u.id[rs.randint(len(u.id))][0]
                    v = tuple(v)
                tuples.append(v)
            same_name = src.chance(1, 2) and f is not u and not any(nm == u.idnames for _, nm, _, _ in extra[f.name])
            names = list(u.idnames) if same_name else [f'fk{num}{c}' for c in 'ab'[:len(u.idkinds)]]
            extra[f.name].append((num, names, tuples, u))
            links.append((num, i, j, many, u, f, names))
        place = {}
        for t in tables:
            opts = ['range', 'range', 'own', 'own', 'own+', 'text', 'dup']
            if extra[t.name]:
                opts += ['fk', 'fk']
            how = src.pick(opts)
            fk = src.pick(extra[t.name]) if how == 'fk' else None
            self.frame(t, how, extra[t.name], fk)
            place[t.name] = (how, fk)
        owners = {tables[i].name for i, _, _ in plans}
        from cheval import LinkedDataFrame
        for t in tables:
            t.ldf = t.name in owners or src.chance(1, 2)
            if t.ldf:
                t.base_frame = t.df
                t.df = LinkedDataFrame(t.df)
                t.type_fill = dict(self.class_fill)
        for num, i, j, many, u, f, names in self.order(links):
            self.declare(num, tables[i], tables[j], many, u, f, names, place)
        for t in tables:
            if t.ldf and t.links and (t is tables[0] or src.chance(1, 3)):
                self.live.append(self.state_of(t))
        self.targets = {l.other.name for t in tables for l in t.links.values()}

    def attempt(self, what, fn, between=None):
        return fn() if self.faulty is None else self.faulty(what, fn, between)

    def order(self, links):
        return self.src.shuffle(links)

    def column(self, vals, kind):
        if kind == 'int':
            if any(v is None for v in vals):
                return pd.Series([np.nan if v is None else float(v) for v in vals], dtype='f8')
            return pd.Series(vals, dtype=self.src.pick(['i8', 'i8', 'i4']))
        if kind == 'float':
            return pd.Series([np.nan if v is None else v for v in vals], dtype='f8')
        s = pd.Series(vals, dtype=object)
        if self.src.chance(1, 4):
            s = s.astype('category')
        return s

    def frame(self, t, how, extra, fk):
        src, rs, n = self.src, self.rs, t.n
        data = {}
        for k, (nm, kd) in enumerate(zip(t.idnames, t.idkinds)):
            data[nm] = self.column([v[k] for v in t.id], kd)
        for num, names, tuples, u in extra:
            for k, (nm, kd) in enumerate(zip(names, u.idkinds)):
                data[nm] = self.column([v[k] for v in tuples], kd)
        f = (rs.randint(-8, 9, n) / 4.0 + t.base)
        f[rs.randint(0, 6, n) == 0] = np.nan
        data['f'] = pd.Series(f.astype(src.pick(['f8', 'f8', 'f4'])))
        data['i'] = pd.Series(rs.permutation(n) + (t.base if n < 120 else 0)).astype('i8')
        if src.chance(1, 4):
            data['i'] = pd.Series((rs.permutation(n) % 100) + 1).astype(src.pick(['i4', 'i1', 'u1', 'i2']))
        data['b'] = pd.Series(rs.randint(0, 2, n).astype(bool))
        data['s'] = pd.Series([['x', 'yy', 'zzz', 'w w'][k] for k in rs.randint(0, 4, n)], dtype=object)
        data['c'] = pd.Series(pd.Categorical([['u', 'vv', 'www'][k] for k in rs.randint(0, 3, n)],
                                             categories=['www', 'u', 'vv'], ordered=src.chance(1, 3)))
        data['t'] = pd.Series(pd.to_datetime(['2020-01-0%d' % (k + 1) for k in rs.randint(0, 5, n)]))
        names = list(data)
        df = pd.DataFrame({c: data[c] for c in src.shuffle(names)} if src.chance(1, 2) else data)
        if n == 0:
            df = df.astype({'b': bool})
        t.levels = None
        if how == 'own':
            df = df.set_index(t.idnames)
            if len(t.idnames) == 1 and src.chance(1, 3):
                df.index.name = None
            t.levels = ('own', list(df.index.names))
        elif how == 'own+':
            df['seq'] = np.arange(n)[::-1] * 2
            order = t.idnames + ['seq'] if src.chance(1, 2) else ['seq'] + t.idnames
            df = df.set_index(order)
            t.levels = ('own', list(df.index.names))
        elif how == 'fk':
            num, fnames, tuples, u = fk
            if src.chance(1, 2):
                df['seq'] = np.arange(n)[::-1] * 2
                df = df.set_index(fnames + ['seq'])
            else:
                df = df.set_index(fnames)
            t.levels = ('fk', list(df.index.names))
        elif how == 'text':
            df.index = [f'{t.name}-{k}' for k in rs.permutation(n)]
        elif how == 'dup':
            df.index = [k // 2 for k in range(n)]
        t.df = df
        t.plain = df.copy(deep=True)

    def side(self, t, names, key_is_index):
        """Spec of a key on one side: ((how, labels), keyword value kind)"""
        if not key_is_index:
            return ('cols', list(names))
        levels = list(t.plain.index.names)
        full = levels == list(names) or (len(levels) == 1 and len(names) == 1)
        if full and self.src.chance(1, 2):
            return ('index', None)
        if levels == [None]:
            return ('levels', [0])
        if self.src.chance(1, 3):
            return ('levels', [levels.index(nm) for nm in names])
        return ('levels', list(names))

    def declare(self, num, owner, other, many, u, f, names, place):
        src = self.src

        def spec(t, foreign):
            how, fk = place[t.name]
            if foreign:
                return self.side(t, names, how == 'fk' and fk[0] == num)
            return self.side(t, t.idnames, how in ('own', 'own+'))
        foreign_self = not many
        self_spec = spec(owner, foreign_self)
        other_spec = spec(other, not foreign_self)
        name = src.pick([f'l{num}', f'l{num}', f'link_{num}', f'to {other.name} {num}'])
        self.link_up(owner.df, owner, other, name, self_spec, other_spec, owner)

    def kwargs(self, self_spec, other_spec):
        src = self.src
        kw = {}

        def val(labels):
            return labels[0] if len(labels) == 1 and src.chance(2, 3) else list(labels)
        if self_spec == other_spec and self_spec[0] == 'cols' and src.chance(2, 3):
            kw['on'] = val(self_spec[1])
        elif self_spec == other_spec and self_spec[0] == 'levels' and src.chance(1, 2):
            kw['levels'] = val(self_spec[1])
        else:
            for who, sp in (('self', self_spec), ('other', other_spec)):
                if sp[0] == 'cols':
                    kw[f'on_{who}'] = val(sp[1])
                elif sp[0] == 'levels':
                    kw[f'{who}_levels'] = val(sp[1])
        return kw

    def link_up(self, df, owner, other, name, self_spec, other_spec, table=None, plain=None):
        """Declares the link on a real frame; `table` is set if the frame is the table's own."""
        src = self.src
        plain = owner.plain if plain is None else plain
        raw_self, raw_other = keys_of(plain, self_spec), keys_of(other.plain, other_spec)
        # missing keys count as equal when the kind of link is determined
        kw = self.kwargs(self_spec, other_spec)
        pre = not src.chance(self.deferred, 5)
        flag = self.attempt('link_to', lambda: df.link_to(other.df, name, precompute=pre, **kw))
        flag = str(flag).endswith('YES')
        self.R.log('link', owner.name if owner else '?', name, '->', other.name, kw, 'pre' if pre else 'deferred', 'many' if flag else 'one')
        link = Link(name, owner, other, self_spec, other_spec, flag)
        full_other = [k for k in raw_other]
        if not flag and len(set(k for k in full_other if k is not None)) < sum(k is not None for k in full_other):
            raise Violation('link kind', f'{name} needs aggregation, but was said not to')
        if flag and len(set(full_other)) == len(full_other):
            raise Violation('link kind', f'{name} needs no aggregation, but was said to')
        link.self_keys = raw_self
        link.set_other(other.plain)
        link.pre = pre
        if table is not None:
            table.links[name] = link
        return link

    def state_of(self, t):
        fs = FS(t.name, t.df, t.plain.copy(deep=True), dict(t.links))
        fs.table = t
        for name, l in t.links.items():
            fs.keys[name] = list(l.self_keys)
            fs.must.add(name)
            if not l.pre:
                fs.deferred.add(name)
        return fs

    # ----------------------------------------------------------------------------------------------------- judging

    def positions(self, fs, link, entities=None):
        return [(-1 if k is None else (link.where.get(k) or [-1])[0]) for k in fs.keys[link.name]]

    def step(self, pos, link):
        """Follows a further link of the target table."""
        out = []
        for p in pos:
            k = link.self_keys[p] if p >= 0 else None
            out.append(-1 if k is None else (link.where.get(k) or [-1])[0])
        return out

    def groups(self, keys, link):
        return [[] if k is None else link.where.get(k, []) for k in keys]

    def fill(self, t, col):
        if t.ldf:
            if col in t.col_fill:
                return t.col_fill[col]
            fills = t.type_fill
        else:
            fills = self.class_fill
        kind = self.type_of(t, col)
        return fills.get(kind, DEFAULT_FILL[col[0]])

    def type_of(self, t, col):
        return 'UINT_NAME' if t.plain[col].dtype.kind == 'u' else TYPE_NAME[col[0]]

    def paths(self, fs, links=None):
        """All lookups of a frame: (list of links)"""
        out = []

        def go(prefix, name, link, depth):
            if link.unclear(fs.keys[name] if depth == 1 else link.self_keys):
                return
            path = prefix + [(name, link)]
            out.append(path)
            if not link.many and link.other.ldf and depth < 3:
                for nm, l2 in link.other.links.items():
                    if nm in getattr(link.other, 'judged', link.other.links):
                        go(path, nm, l2, depth + 1)
        for name in fs.keys:
            if links is None or name in links:
                go([], name, fs.links[name], 1)
        return out

    def present(self, fs, name):
        """Whether the frame has the link; an attribute access must tell the same as an item access."""
        return name in link_names(fs.df)

    def walk(self, fs, path):
        src = self.src
        node = fs.df
        for name, _ in path:
            node = getattr(node, name) if name.isidentifier() and src.chance(1, 2) else node[name]
        return node

    def end(self, fs, path):
        """(positions or groups at the end of the path)"""
        name, link = path[0]
        keys = fs.keys[name]
        pos = None
        for k, (nm, l) in enumerate(path):
            if k:
                keys = [l.self_keys[p] if p >= 0 else None for p in pos]
            if l.many:
                return self.groups(keys, l)
            pos = [-1 if q is None else (l.where.get(q) or [-1])[0] for q in keys]
        return pos

    def expected_lookup(self, fs, path, col):
        t = path[-1][1].other
        vals = t.plain[col].tolist()
        fill = self.fill(t, col)
        return [vals[p] if p >= 0 else fill for p in self.end(fs, path)]

    def call(self, fs, path, fn, what):
        """Runs a lookup; a frame which need not have the link may refuse."""
        from cheval.ldf import LinkageSpecificationError
        name = path[0][0]
        if name not in fs.must and not self.present(fs, name):
            self.R.probe('link lost')
            return None
        try:
            return fn()
        except (LinkageSpecificationError, KeyError, AttributeError) as e:
            if name in fs.must:
                raise Violation('lookup refused', f'{fs.name}: {what}: {e!r}')
            self.R.probe('lookup refused')
            return None

    def check_lookup(self, fs, path=None, col=None, mutate=None):
        src = self.src
        if path is None:
            paths = [p for p in self.paths(fs) if not p[-1][1].many]
            if not paths:
                return None
            path = src.pick(paths)
        t = path[-1][1].other
        cols = [c for c in ALLCOLS if c in t.plain.columns]
        col = col or src.pick(cols)
        what = f'{".".join(n for n, _ in path)}.{col}'
        bracket = src.chance(1, 2)
        got = self.call(fs, path, lambda: self.walk(fs, path)[col] if bracket else getattr(self.walk(fs, path), col), what)
        if got is None:
            return None
        exp = self.expected_lookup(fs, path, col)
        self.R.probe('lookups')
        if any(x == -1 for x in self.end(fs, path)):
            self.R.probe('lookups with unmatched rows')
        self.judge(fs, what, got, exp)
        if mutate or (mutate is None and src.chance(1, 12)):
            self.spoil(got)
        return got

    def spoil(self, series):
        """The caller changes the result of a lookup, which is his."""
        if not len(series):
            return
        if isinstance(series.dtype, pd.CategoricalDtype):
            series.values[:] = series.cat.categories[0]
        elif series.dtype.kind in 'biuf':
            series.iloc[:] = series.dtype.type(1)
            series.values[:] = 1
        elif series.dtype.kind == 'M':
            series.values[:] = np.datetime64('1999-01-01')
        else:
            series.values[:] = 'spoilt'
        self.R.fault('result of a lookup modified')

    def judge(self, fs, what, got, exp, tol=0.0):
        if not isinstance(got, pd.Series):
            raise Violation('lookup', f'{fs.name}: {what} is a {type(got).__name__}')
        if not same_list(got.index.tolist(), fs.twin.index.tolist()) and not got.index.equals(fs.twin.index):
            raise Violation('lookup index', f'{fs.name}: {what} has index {got.index.tolist()}, not {fs.twin.index.tolist()}')
        if not same_list(got.tolist(), exp, tol):
            raise Violation('lookup', f'{fs.name}: {what} gave {got.tolist()}, not {exp}')

    AGG_EXPR = ['i * 2', 'f + i', 'i > 3', 'i', 'f', 'b', '1', '-f']

    def check_agg(self, fs, path=None, draw=None):
        src = self.src
        if path is None:
            paths = [p for p in self.paths(fs) if p[-1][1].many]
            if not paths:
                return None
            path = src.pick(paths)
        call, exp, what, tol = draw or self.draw_agg(fs, path)
        if exp is RuntimeError:
            try:
                r = self.call(fs, path, lambda: call(self.walk(fs, path)), what)
            except RuntimeError:
                self.R.probe('aggregations of text refused')
                return None
            if r is not None:
                raise Violation('aggregation', f'{fs.name}: {what} of text was accepted')
            return None
        got = self.call(fs, path, lambda: call(self.walk(fs, path)), what)
        if got is None:
            return None
        self.R.probe('aggregations')
        self.judge(fs, what, got, exp, tol)
        if src.chance(1, 12):
            self.spoil(got)
        return got

    def draw_agg_again(self, fs, path, seed):
        """draw_agg() which draws the same for the same seed."""
        mine, self.src = self.src, Src(seed)
        try:
            return self.draw_agg(fs, path)
        finally:
            self.src = mine

    def draw_agg(self, fs, path):
        """(call on the node, expected values, text)"""
        src = self.src
        t = path[-1][1].other
        func = src.pick(AGGS_NUM + AGGS_ANY)
        expr = None
        if src.chance(1, 3):
            expr = src.pick(self.AGG_EXPR)
            if t.ldf and src.chance(1, 2):
                e2 = self.inner_expr(t)
                if e2:
                    expr = e2
        elif func == 'count' and src.chance(1, 3):
            expr = None
        else:
            expr = src.pick(NUMERIC + (['s', 'c'] if func in AGGS_ANY or src.chance(1, 4) else []))
        vals, dtype = self.evaluate_on(t, expr or '1')
        if func == 'prod' and dtype not in 'sc' and any(not null(x) and abs(x) > 30 for x in vals):
            func = 'sum'     # stays clear of overflows
        if dtype == 'b' and func in ('quantile', 'std', 'var', 'median', 'prod'):
            func = 'sum'
        kw = {}
        if src.chance(1, 3):
            kw['int_fill'] = src.pick([0, 7, -2])
        if func == 'nth':
            kw['n'] = src.pick([0, 1, 2, -1])
        if func == 'quantile' and src.chance(1, 2):
            kw['q'] = src.pick([0.25, 0.75, 0.0])
        groups = self.end(fs, path)
        what = f'{".".join(n for n, _ in path)}.{func}({"" if expr is None else expr!r}, {kw})'
        args = [] if expr is None else [expr]

        def call(node):
            return getattr(node, func)(*args, **kw)
        if dtype in 'sc' and func in AGGS_NUM:
            return call, RuntimeError, what, 0
        int_fill = kw.get('int_fill', -1)
        fill = int_fill if dtype in 'iub' or func == 'count' else np.nan
        exp = []
        for g in groups:
            if not g:
                exp.append(fill)
                continue
            v = [vals[k] for k in g]
            if func == 'nth':
                k = kw['n']
                exp.append(v[k] if -len(v) <= k < len(v) else fill)
                continue
            if func in ('first', 'last', 'count'):
                w = [x for x in v if not null(x)]
                exp.append(len(w) if func == 'count' else (w[0 if func == 'first' else -1] if w else np.nan))
                continue
            sub = pd.Series(v)
            if dtype == 'b':
                sub = sub.astype('i8')
            a = {'q': kw['q']} if 'q' in kw else {}
            exp.append(getattr(sub, func)(**a))
        if len(set(map(len, groups))) > 1:
            self.R.probe('aggregations over groups of different sizes')
        if dtype == 'u' and func in ('sum', 'prod'):
            exp = [x if null(x) else x for x in exp]
        return call, exp, what, 2e-5 if dtype == 'f' else 1e-9

    def inner_expr(self, t):
        """An aggregated expression which itself looks up the links of the aggregated frame."""
        ones = [(n, l) for n, l in t.links.items() if n.isidentifier() and not l.unclear(l.self_keys) and n in getattr(t, 'judged', t.links)]
        if not ones:
            return None
        n, l = self.src.pick(ones)
        if l.many:
            return f'{n}.{self.src.pick(["sum", "count", "max"])}({self.src.pick(["i", "f"])}) + i'
        return f'{n}.{self.src.pick(["i", "f"])} + i'

    def evaluate_on(self, t, expr):
        """(values per entity, dtype letter) of an expression over a table."""
        p = t.plain
        n = t.n
        kinds = {c: p[c].dtype.kind for c in ('f', 'i', 'b')}
        if expr in ('f', 'i', 'b', 's', 'c'):
            return p[expr].tolist(), {'s': 's', 'c': 'c'}.get(expr, kinds.get(expr))
        i, f = p['i'].astype('i8').to_numpy(), p['f'].astype('f8').to_numpy()
        if expr == '1':
            return [1] * n, 'i'
        if expr == 'i * 2':
            if kinds['i'] == 'u' or p['i'].dtype.itemsize < 4:
                i = i.astype(p['i'].dtype)
                r = i * 2 if not t.ldf else i.astype('i4') * 2
                return r.tolist(), 'i'
            return (i * 2).tolist(), 'i'
        if expr == 'f + i':
            return (f + i).tolist(), 'f'
        if expr == 'i > 3':
            return (i > 3).tolist(), 'b'
        if expr == '-f':
            return (-f).tolist(), 'f'
        # link.col + i, link.agg(col) + i
        name, rest = expr.split('.')[0], expr.split('.')[1].split(' ')[0]
        l = t.links[name]
        o = l.other
        if '(' in rest:
            func, col = rest[:-1].split('(')
            vals = o.plain[col].tolist()
            g = self.groups(l.self_keys, l)
            isint = o.plain[col].dtype.kind in 'iu' or func == 'count'
            out = []
            for x in g:
                v = [vals[k] for k in x]
                w = [y for y in v if not null(y)]
                if not x:
                    r = -1 if isint else np.nan
                elif func == 'count':
                    r = len(w)
                elif func == 'sum':
                    r = sum(w)
                else:
                    r = max(w) if w else np.nan
                out.append(r)
            return [a + b for a, b in zip(out, i.tolist())], 'i' if isint else 'f'
        vals = o.plain[rest].tolist()
        fill = self.fill(o, rest)
        pos = [-1 if k is None else (l.where.get(k) or [-1])[0] for k in l.self_keys]
        return ([(vals[p] if p >= 0 else fill) + b for p, b in zip(pos, i.tolist())],
                'i' if o.plain[rest].dtype.kind in 'iu' else 'f')

    def check_eval(self, fs):
        """An expression over the frame with lookups and aggregations."""
        src = self.src
        paths = [p for p in self.paths(fs) if all(n.isidentifier() for n, _ in p)]
        if not paths or 'i' not in fs.twin.columns or fs.twin['i'].dtype.kind not in 'iu':
            return
        path = src.pick(paths)
        prefix = '.'.join(n for n, _ in path)
        if path[-1][1].many:
            func, col = src.pick(['sum', 'max', 'count']), src.pick(['i', 'f'])
            expr = f'{prefix}.{func}({col}) + i'
            t = path[-1][1].other
            vals = t.plain[col].tolist()
            isint = t.plain[col].dtype.kind in 'iu' or func == 'count'
            exp = []
            for g in self.end(fs, path):
                w = [vals[k] for k in g if not null(vals[k])]
                if not g:
                    exp.append(-1 if isint else np.nan)
                else:
                    exp.append(len(w) if func == 'count' else sum(w) if func == 'sum' else max(w) if w else np.nan)
        else:
            col = src.pick(['i', 'f'])
            expr = f'{prefix}.{col} + i'
            exp = self.expected_lookup(fs, path, col)
        own = fs.twin['i'].tolist()
        exp = [np.nan if null(a) else a + b for a, b in zip(exp, own)]
        got = self.call(fs, path, lambda: fs.df.evaluate(expr), expr)
        if got is not None:
            self.R.probe('expressions')
            self.judge(fs, expr, got, exp, 2e-5)

    def column_for_expr(self, fs):
        """(text, values, kind) of a number column, looked-up column or aggregation for use in an expression, or None."""
        src = self.src
        own = [c for c in ('i', 'f', 'b') if list(fs.twin.columns).count(c) == 1]
        paths = [p for p in self.paths(fs) if all(n.isidentifier() for n, _ in p) and p[0][0] in fs.must]
        if paths and src.chance(2, 3):
            path = src.pick(paths)
            prefix = '.'.join(n for n, _ in path)
            if path[-1][1].many:
                t = path[-1][1].other
                if t.plain['i'].dtype.kind != 'i':
                    return None
                vals = t.plain['i'].tolist()
                return f'{prefix}.sum(i)', [sum(vals[k] for k in g) if g else -1 for g in self.end(fs, path)]
            col = src.pick(['i', 'f'])
            return f'{prefix}.{col}', self.expected_lookup(fs, path, col)
        if not own:
            return None
        c = src.pick(own)
        return c, fs.twin[c].tolist()

    def check_pivot(self, fs):
        src = self.src
        a, b = self.column_for_expr(fs), self.column_for_expr(fs)
        c = self.column_for_expr(fs) if src.chance(1, 3) else None
        if a is None or b is None or a[0] == b[0] or (c is not None and c[0] in (a[0], b[0])) or not fs.n:
            return
        if any(x is not None and x[0] in fs.twin.index.names for x in (a, b, c)):
            return          # pandas calls these ambiguous
        aslist = src.chance(1, 2)
        kw = dict(values=[a[0]] if src.chance(1, 3) else a[0], index=[b[0]] if aslist else b[0],
                  aggfunc=src.pick(['sum', 'count', 'max']))
        if c is not None:
            kw['columns'] = [c[0]] if src.chance(1, 2) else c[0]
        flat = pd.DataFrame({x[0]: pd.Series(x[1]).to_numpy() for x in (a, b, c) if x is not None})
        exp = flat.pivot_table(**kw)
        got = fs.df.pivot_table(**kw)
        self.R.log(fs.name, 'pivot', kw)
        self.R.probe('pivot tables')
        if got.shape != exp.shape or not same_list(got.index.tolist(), exp.index.tolist()) or \
                not same_list(got.columns.tolist(), exp.columns.tolist()) or \
                not np.allclose(got.to_numpy('f8'), exp.to_numpy('f8'), rtol=2e-5, atol=1e-6, equal_nan=True):
            raise Violation('pivot', f'{fs.name}: {kw} gave {got.to_dict()}, not {exp.to_dict()}')

    def check_data(self, fs):
        """The frame is what pandas makes of it."""
        d = fs.df
        if not same_list(list(d.columns), list(fs.twin.columns)):
            raise Violation('frame columns', f'{fs.name}: {list(d.columns)}, not {list(fs.twin.columns)}')
        if not same_list(d.index.tolist(), fs.twin.index.tolist()) and not d.index.equals(fs.twin.index):
            raise Violation('frame index', f'{fs.name}: {d.index.tolist()}, not {fs.twin.index.tolist()}')
        for k in range(len(fs.twin.columns)):
            a, b = pd.DataFrame(d).iloc[:, k].tolist(), fs.twin.iloc[:, k].tolist()
            if not same_list(a, b):
                raise Violation('frame data', f'{fs.name}: column {fs.twin.columns[k]} holds {a}, not {b}')

    def check_some(self, fs, k=2):
        for _ in range(k):
            what = self.src.draw(5)
            if what in (0, 1):
                self.check_lookup(fs)
            elif what in (2, 3):
                if self.check_agg(fs) is None:
                    self.check_lookup(fs)
            else:
                self.check_eval(fs)

    def check_all(self, fs):
        """Every path with one column or aggregation each."""
        for path in self.paths(fs):
            if path[-1][1].many:
                self.check_agg(fs, path)
            else:
                self.check_lookup(fs, path)
        self.check_data(fs)

    def check_tables(self):
        for t in self.tables:
            fs = FS(t.name, t.df, t.plain, {})
            if t.name in {f.table.name for f in self.live if f.table is not None}:
                continue
            self.check_data(fs)

    # -------------------------------------------------------------------------------------------------- derivations

    def has_keys(self, link, twin):
        how, labels = link.self_spec
        if how == 'cols':
            return all(list(twin.columns).count(c) == 1 for c in labels)
        return True

    def derive(self, fs, op=None):
        """Applies a drawn operation and returns the new state (or None)."""
        op = op or self.draw_op(fs)
        if op is None:
            return None
        label, fn, kind, must, idx_kept = op
        tw = fs.twin.copy()
        tw[E] = np.arange(len(tw))
        try:
            r = fn(tw, [E])
        except Exception as e:
            self.R.probe('operation not possible in pandas')
            return None
        if not isinstance(r, pd.DataFrame) or E not in r.columns:
            return None
        self.R.log(fs.name, label)
        try:
            new = fn(fs.df, [])
        except Exception as e:
            if e.args == ('injected',):
                raise
            if must and fs.must:
                raise Violation('operation failed', f'{fs.name}: {label}: {e!r}')
            self.R.log('failed', type(e).__name__)
            self.R.probe('operation refused')
            return None
        if not isinstance(new, pd.DataFrame):
            return None
        from cheval import LinkedDataFrame
        if not isinstance(new, LinkedDataFrame):
            self.R.probe('plain frame returned')
            if must:
                raise Violation('links lost', f'{fs.name}: {label} returned a plain frame')
            return None
        twin = r.drop(columns=E)
        name = self.fresh('d')
        ns = FS(name, new, twin, dict(fs.links))
        ns.parent = fs
        self.transfer(fs, ns, r[E].tolist(), kind, must, idx_kept, twin)
        if kind == 'stale':
            self.refresh(ns)
        self.R.log('->', name, len(twin), 'rows', sorted(link_names(new)))
        for lk in sorted(ns.must):
            if not self.present(ns, lk):
                raise Violation('links lost', f'{name} = {fs.name}.{label} lost the link {lk}')
        for lk in link_names(new):
            if lk not in fs.links:
                raise Violation('links appeared', f'{name}: {lk}')
        self.check_data(ns)
        return ns

    def transfer(self, fs, ns, e, kind, must, idx_kept, twin):
        for lk, link in fs.links.items():
            if lk not in fs.keys:
                continue
            uses_index = link.self_spec[0] != 'cols'
            avail = self.has_keys(link, twin)
            old = fs.keys[lk]
            own = None
            if uses_index:
                if idx_kept or kind == 'rows':
                    try:
                        own = keys_of(twin, link.self_spec)
                    except Exception:
                        own = None
            elif avail:
                own = keys_of(twin, link.self_spec)
            if uses_index and not idx_kept:
                if list(twin.index.names) == list(fs.twin.index.names) and not isinstance(twin.index, pd.RangeIndex):
                    ns.forget(lk)      # other labels of the same names: new keys or the old ones?
                    continue
                ns.relabelled.add(lk)
            if kind == 'cells' and own is not None and lk not in fs.relabelled:
                keys = own
            else:
                keys = []
                for j, x in enumerate(e):
                    if null(x):
                        keys.append(own[j] if own is not None and lk not in fs.relabelled else None)
                    else:
                        keys.append(old[int(x)])
            ns.keys[lk] = keys
            if lk in fs.relabelled:
                ns.relabelled.add(lk)
            if must and lk in fs.must and avail and lk not in ns.relabelled:
                ns.must.add(lk)
            if lk in fs.deferred:
                ns.deferred.add(lk)

    # ------------------------------------------------------------------------------------------------ the operations

    def draw_op(self, fs, names=None):
        src = self.src
        name = src.pick(names or self.OPS)
        return getattr(self, 'o_' + name)(fs)

    OPS = ['mask', 'mask', 'mask_series', 'loc_mask', 'loc_mask_cols', 'loc_labels', 'loc_slice', 'iloc_slice', 'iloc_list', 'iloc_list',
           'iloc_cols', 'head', 'take', 'sample', 'sort_values', 'sort_values', 'sort_index', 'nlargest', 'drop_rows',
           'filter', 'query', 'group', 'group', 'group_filter', 'copy', 'copy', 'columns', 'columns', 'assign', 'assign', 'drop_cols',
           'rename', 'reset_index', 'set_index', 'sort_ignore', 'drop_duplicates', 'dropna', 'reindex', 'reindex_new',
           'reindex_both', 'append', 'transpose', 'where', 'fillna', 'replace', 'clip', 'pickle', 'astype', 'rename_axis',
           'rename_index', 'truncate', 'isin', 'shift', 'edit_key', 'nothing', 'join', 'iloc_rev', 'duplicate']

    def mask(self, n):
        if self.src.chance(1, 12):
            return np.array([self.src.chance(1, 1)] * n, dtype=bool) if self.src.chance(1, 2) else np.zeros(n, bool)
        return np.array([self.src.chance(1, 2) for _ in range(n)], dtype=bool)

    def some_cols(self, fs, keys=None):
        cols = list(fs.twin.columns)
        keep = self.src.subset(cols, 2, 3)
        if keys if keys is not None else self.src.chance(1, 2):
            need = {c for l in fs.links.values() if l.self_spec[0] == 'cols' for c in l.self_spec[1]}
            keep = [c for c in cols if c in keep or c in need]
        if self.src.chance(1, 3):
            keep = keep[::-1]
        return keep

    def plist(self, n, repeat=True):
        if not n:
            return []
        k = self.src.rint(0, n + 1)
        if repeat and self.src.chance(1, 3):
            return [self.src.draw(n) for _ in range(k)]
        p = self.src.sample(range(n), k)
        if self.src.chance(1, 6):
            p = [x - n if self.src.chance(1, 3) else x for x in p]
        return p

    def o_mask(self, fs):
        m = self.mask(fs.n)
        if self.src.chance(1, 2):
            m = m.tolist()
        return f'[mask {np.array(m, int).tolist()}]', lambda d, x: d[m], 'rows', True, True

    def o_mask_series(self, fs):
        if not fs.twin.index.is_unique:
            return self.o_mask(fs)
        m = self.mask(fs.n)
        perm = self.src.shuffle(range(fs.n)) if self.src.chance(1, 2) else list(range(fs.n))
        s = pd.Series(m, index=fs.twin.index).iloc[perm]
        loc = self.src.chance(1, 2)
        return f'[mask series {m.astype(int).tolist()}]', lambda d, x: d.loc[s] if loc else d[s], 'rows', True, True

    def o_loc_mask(self, fs):
        m = self.mask(fs.n)
        return f'.loc[mask {m.astype(int).tolist()}]', lambda d, x: d.loc[m], 'rows', True, True

    def o_loc_mask_cols(self, fs):
        m = self.mask(fs.n)
        c = self.some_cols(fs)
        return f'.loc[mask {m.astype(int).tolist()}, {c}]', lambda d, x: d.loc[m, c + x], 'rows', True, True

    def o_loc_labels(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n or any(k is None for k in keys_of(fs.twin, ('index', None))):
            return self.o_iloc_list(fs)
        p = self.plist(fs.n)
        labels = [idx[k] for k in p]
        if self.src.chance(1, 3):
            c = self.some_cols(fs)
            return f'.loc[{labels}, {c}]', lambda d, x: d.loc[labels, c + x], 'rows', True, True
        return f'.loc[{labels}]', lambda d, x: d.loc[labels], 'rows', True, True

    def o_loc_slice(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or idx.nlevels > 1 or not fs.n:
            return self.o_iloc_slice(fs)
        a, b = sorted((self.src.draw(fs.n), self.src.draw(fs.n)))
        return f'.loc[{idx[a]}:{idx[b]}]', lambda d, x: d.loc[idx[a]:idx[b]], 'rows', True, True

    def o_iloc_slice(self, fs):
        a, b = self.src.rint(-2, fs.n + 1), self.src.rint(-2, fs.n + 2)
        st = self.src.pick([None, None, 2, -1, 3])
        brk = self.src.chance(1, 3)
        return f'.iloc[{a}:{b}:{st}]', lambda d, x: d[a:b:st] if brk and fs.twin.index.dtype != 'f8' else d.iloc[a:b:st], 'rows', True, True

    def o_iloc_rev(self, fs):
        return '.iloc[::-1]', lambda d, x: d.iloc[::-1], 'rows', True, True

    def o_iloc_list(self, fs):
        p = self.plist(fs.n)
        return f'.iloc[{p}]', lambda d, x: d.iloc[p], 'rows', True, True

    def o_iloc_cols(self, fs):
        p = self.plist(fs.n)
        cols = list(fs.twin.columns)
        c = [cols.index(k) for k in self.some_cols(fs) if cols.count(k) == 1]
        k = len(cols)
        sl = self.src.chance(1, 3)
        return f'.iloc[{p}, {c}]', lambda d, x: (d.iloc[p, :] if sl else d.iloc[p, c + [k] * len(x)]), 'rows', True, True

    def o_head(self, fs):
        k = self.src.rint(-1, fs.n + 1)
        tail = self.src.chance(1, 2)
        return f'.{"tail" if tail else "head"}({k})', lambda d, x: d.tail(k) if tail else d.head(k), 'rows', True, True

    def o_take(self, fs):
        p = self.plist(fs.n)
        return f'.take({p})', lambda d, x: d.take(p), 'rows', True, True

    def o_sample(self, fs):
        seed = self.src.draw(1000)
        rep = self.src.chance(1, 3)
        k = self.src.rint(0, fs.n + (2 if rep else 0)) if fs.n else 0
        frac = self.src.chance(1, 4)
        kw = dict(frac=0.5) if frac else dict(n=k)
        return f'.sample({kw}, replace={rep}, {seed})', lambda d, x: d.sample(replace=rep, random_state=seed, **kw), 'rows', True, True

    def valcols(self, fs, kinds='ficst'):
        return [c for c in ALLCOLS if c in fs.twin.columns and list(fs.twin.columns).count(c) == 1 and c in kinds]

    def o_sort_values(self, fs):
        cols = self.valcols(fs, 'ficst')
        if not cols:
            return self.o_iloc_list(fs)
        by = self.src.sample(cols, self.src.rint(1, min(2, len(cols))))
        kw = dict(ascending=self.src.chance(1, 2), kind=self.src.pick(['quicksort', 'mergesort', 'stable']),
                  na_position=self.src.pick(['last', 'first']))
        return f'.sort_values({by}, {kw})', lambda d, x: d.sort_values(by, **kw), 'rows', True, True

    def o_sort_ignore(self, fs):
        cols = self.valcols(fs, 'fi')
        if not cols:
            return self.o_iloc_list(fs)
        c = self.src.pick(cols)
        return f'.sort_values({c}, ignore_index=True)', lambda d, x: d.sort_values(c, ignore_index=True), 'pos_rows', False, False

    def o_sort_index(self, fs):
        asc = self.src.chance(1, 2)
        return f'.sort_index({asc})', lambda d, x: d.sort_index(ascending=asc), 'rows', True, True

    def o_nlargest(self, fs):
        cols = self.valcols(fs, 'fi')
        if not cols:
            return self.o_iloc_list(fs)
        by = self.src.sample(cols, self.src.rint(1, len(cols)))
        k = self.src.rint(1, fs.n + 1)
        small = self.src.chance(1, 2)
        return f'.n{"smallest" if small else "largest"}({k}, {by})', lambda d, x: d.nsmallest(k, by) if small else d.nlargest(k, by), 'rows', False, True

    def o_drop_rows(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n or any(k is None for k in keys_of(fs.twin, ('index', None))):
            return self.o_mask(fs)
        labels = [idx[k] for k in self.src.subset(range(fs.n), 1, 3)]
        return f'.drop({labels})', lambda d, x: d.drop(labels), 'rows', True, True

    def o_filter(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or idx.nlevels > 1 or not fs.n:
            return self.o_mask(fs)
        labels = [idx[k] for k in self.src.sample(range(fs.n), self.src.rint(0, fs.n))]
        if self.src.chance(1, 3):
            c = self.some_cols(fs)
            return f'.filter(items={c})', lambda d, x: d.filter(items=c + x), 'pos', True, True
        return f'.filter({labels}, axis=0)', lambda d, x: d.filter(items=labels, axis=0), 'rows', False, True

    def o_query(self, fs):
        cols = self.valcols(fs, 'fi')
        if not cols:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        v = fs.twin[c].median() if fs.n else 0
        op = self.src.pick(['>', '<=', '!='])
        return f'.query({c} {op} {v})', lambda d, x: d.query(f'{c} {op} {v}'), 'rows', True, True

    def o_group(self, fs):
        cols = self.valcols(fs, 'bsc') + [c for l in fs.links.values() if l.self_spec[0] == 'cols' for c in l.self_spec[1] if c in fs.twin.columns]
        if not cols or not fs.n:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        k = self.src.draw(4)
        how = self.src.draw(3)
        cut = self.src.chance(1, 4)
        kc = self.some_cols(fs)

        def fn(d, x):
            g = d.groupby(c)
            if cut:
                g = g[[q for q in kc if q != c] + x]
            if how == 0:
                parts = [p for _, p in g]
                return parts[k % len(parts)]
            keys = sorted(g.groups, key=repr)
            if how == 1:
                return g.get_group(keys[k % len(keys)])
            return dict(list(g))[keys[k % len(keys)]]
        return f'.groupby({c}){kc if cut else ""} part {k} ({how})', fn, 'rows', True, True

    def o_group_filter(self, fs):
        cols = self.valcols(fs, 'bs')
        if not cols or not fs.n:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        how = self.src.pick(['head', 'tail', 'nth', 'filter', 'sample'])

        def fn(d, x):
            g = d.groupby(c)
            if how == 'filter':
                return g.filter(lambda q: len(q) > 1)
            if how == 'sample':
                return g.sample(n=1, random_state=3)
            if how == 'nth':
                return g.head(2).iloc[::-1]
            return getattr(g, how)(2)
        return f'.groupby({c}).{how}', fn, 'rows', False, True

    def o_copy(self, fs):
        how = self.src.pick(['copy', 'deep', 'copy.copy', 'copy.deepcopy', 'slice'])
        fn = {'copy': lambda d, x: d.copy(), 'deep': lambda d, x: d.copy(deep=True), 'copy.copy': lambda d, x: copy.copy(d),
              'copy.deepcopy': lambda d, x: copy.deepcopy(d), 'slice': lambda d, x: d[:]}[how]
        return f'.{how}()', fn, 'pos', True, True

    def o_columns(self, fs):
        c = self.some_cols(fs)
        loc = self.src.chance(1, 3)
        return f'[{c}]', lambda d, x: d.loc[:, c + x] if loc else d[c + x], 'pos', True, True

    def o_assign(self, fs):
        new = self.fresh('new')
        v = self.rs.randint(0, 9, fs.n)
        how = self.src.draw(3)
        if how == 0:
            return f'.assign({new})', lambda d, x: d.assign(**{new: v}), 'pos', True, True
        if how == 1 and 'i' in self.valcols(fs):
            return f'.eval({new} = i)', lambda d, x: d.eval(f'{new} = i * 2'), 'pos', True, True

        def fn(d, x):
            r = d.copy()
            r[new] = v
            return r
        return f'.copy()[{new}] = ...', fn, 'pos', True, True

    def keycols(self, fs):
        return sorted({c for l in fs.links.values() if l.self_spec[0] == 'cols' for c in l.self_spec[1] if c in fs.twin.columns})

    def o_drop_cols(self, fs):
        cols = [c for c in fs.twin.columns if c not in self.keycols(fs) or self.src.chance(1, 3)]
        c = self.src.subset(cols, 1, 3)
        return f'.drop(columns={c})', lambda d, x: d.drop(columns=c), 'pos', True, True

    def o_rename(self, fs):
        cols = list(fs.twin.columns)
        if not cols:
            return self.o_mask(fs)
        m = {c: self.fresh('r') for c in self.src.sample(cols, 1)}
        return f'.rename(columns={m})', lambda d, x: d.rename(columns=m), 'pos', True, True

    def o_rename_axis(self, fs):
        nm = [self.fresh('ax') for _ in range(fs.twin.index.nlevels)]
        return f'.rename_axis({nm})', lambda d, x: d.rename_axis(nm), 'pos', False, False

    def o_rename_index(self, fs):
        if not fs.n or fs.twin.index.nlevels > 1:
            return self.o_mask(fs)
        a, b = fs.twin.index[self.src.draw(fs.n)], fs.twin.index[self.src.draw(fs.n)]
        return f'.rename({{{a}: {b}}})', lambda d, x: d.rename({a: b}), 'pos', False, False

    def o_reset_index(self, fs):
        drop = self.src.chance(1, 2)
        return f'.reset_index(drop={drop})', lambda d, x: d.reset_index(drop=drop), 'pos', False, False

    def o_set_index(self, fs):
        cols = [c for c in fs.twin.columns if list(fs.twin.columns).count(c) == 1]
        if not cols:
            return self.o_mask(fs)
        c = self.src.sample(cols, self.src.weighted([(3, 1), (1, min(2, len(cols)))]))
        kw = dict(drop=self.src.chance(1, 2), append=self.src.chance(1, 4))
        if c == ['i'] or len(c) == 1 and self.src.chance(1, 2):
            c = c[0]
        return f'.set_index({c}, {kw})', lambda d, x: d.set_index(c, **kw), 'pos', False, False

    def o_drop_duplicates(self, fs):
        cols = self.valcols(fs, 'bsc')
        if not cols:
            return self.o_mask(fs)
        c = self.src.sample(cols, self.src.rint(1, len(cols)))
        kw = dict(keep=self.src.pick(['first', 'last']))
        return f'.drop_duplicates({c}, {kw})', lambda d, x: d.drop_duplicates(c, **kw), 'rows', True, True

    def o_dropna(self, fs):
        cols = self.valcols(fs, 'fi') + self.keycols(fs)
        if not cols:
            return self.o_mask(fs)
        c = self.src.sample(cols, self.src.rint(1, len(cols)))
        return f'.dropna({c})', lambda d, x: d.dropna(subset=c), 'rows', True, True

    def o_reindex(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n:
            return self.o_iloc_list(fs)
        new = idx.take(self.src.sample(range(fs.n), self.src.rint(0, fs.n)))
        return f'.reindex({new.tolist()})', lambda d, x: d.reindex(new), 'rows', True, True

    def o_reindex_new(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n or idx.nlevels > 1 or isinstance(idx, pd.CategoricalIndex):
            return self.o_iloc_list(fs)
        new = idx.take(self.src.shuffle(range(fs.n)))
        extra = ['zz'] if idx.dtype == object else [9999]
        lab = pd.Index(list(new) + extra, name=idx.name)
        return f'.reindex({lab.tolist()})', lambda d, x: d.reindex(lab), 'rows', False, True

    def o_reindex_both(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n:
            return self.o_iloc_list(fs)
        c = self.some_cols(fs)
        new = idx.take(self.src.sample(range(fs.n), self.src.rint(0, fs.n)))
        return f'.reindex({new.tolist()}, columns={c})', lambda d, x: d.reindex(index=new, columns=c + x), 'rows', False, True

    def o_append(self, fs):
        how = self.src.draw(3)

        def fn(d, x):
            if how == 0:
                return d.append(d)
            if how == 1:
                return pd.concat([d, d.iloc[::-1]])
            return pd.concat([d.iloc[1:], d.iloc[:1]])
        return f'append {how}', fn, 'rows', False, True

    def o_duplicate(self, fs):
        p = [k for k in range(fs.n) for _ in range(2)]
        return 'each row twice', lambda d, x: d.iloc[p], 'rows', True, True

    def o_transpose(self, fs):
        if not fs.n or not fs.twin.index.is_unique:
            return self.o_mask(fs)
        return '.T.T', lambda d, x: d.T.T, 'cells', False, True

    def o_where(self, fs):
        m = self.mask(fs.n)
        how = self.src.chance(1, 2)

        def fn(d, x):
            mm = np.repeat(m[:, None], d.shape[1], axis=1)
            if x:
                mm[:, -1] = True
            return d.where(mm) if how else d.mask(~mm)
        return f'.where({m.astype(int).tolist()})', fn, 'cells', False, True

    def o_fillna(self, fs):
        cols = [c for c in fs.twin.columns if fs.twin.columns.tolist().count(c) == 1 and str(fs.twin[c].dtype) != 'category']
        if not cols:
            return self.o_mask(fs)
        m = {c: 3 for c in cols if fs.twin[c].dtype.kind == 'f'}
        return f'.fillna({m})', lambda d, x: d.fillna(m), 'stale', False, True

    def o_replace(self, fs):
        cols = [c for c in self.keycols(fs) if fs.twin.columns.tolist().count(c) == 1 and str(fs.twin[c].dtype) != 'category']
        if not cols or not fs.n:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        a, b = fs.twin[c].iloc[self.src.draw(fs.n)], fs.twin[c].iloc[self.src.draw(fs.n)]
        if null(a) or null(b):
            return self.o_mask(fs)
        return f'.replace({{{c}: {{{a!r}: {b!r}}}}})', lambda d, x: d.replace({c: {a: b}}), 'cells', False, True

    def o_edit_key(self, fs):
        """assign() of new keys: a new frame with other keys."""
        cols = [c for c in self.keycols(fs) if fs.twin.columns.tolist().count(c) == 1]
        if not cols or not fs.n:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        perm = self.src.shuffle(range(fs.n))

        def fn(d, x):
            return d.assign(**{c: pd.Series(pd.DataFrame(d)[c].iloc[perm].tolist(), index=d.index).values})
        return f'.assign({c}=permuted {perm})', fn, 'stale', False, True

    def o_clip(self, fs):
        cols = self.valcols(fs, 'i')
        if not cols:
            return self.o_mask(fs)
        return '[i].clip', lambda d, x: d.assign(i=pd.DataFrame(d)['i'].clip(lower=2)), 'pos', True, True

    def o_pickle(self, fs):
        return 'pickle', lambda d, x: pickle.loads(pickle.dumps(d)), 'pos', False, True

    def o_astype(self, fs):
        cols = [c for c in fs.twin.columns if fs.twin.columns.tolist().count(c) == 1 and fs.twin[c].dtype.kind in 'iu' and c != 'i']
        if not cols:
            return self.o_mask(fs)
        c = self.src.pick(cols)
        dt = self.src.pick(['f8', object, 'category'])
        return f'.astype({{{c}: {dt}}})', lambda d, x: d.astype({c: dt}), 'cells', False, True

    def o_truncate(self, fs):
        idx = fs.twin.index
        if idx.nlevels > 1 or not fs.n or idx.dtype == object or not idx.is_unique or isinstance(idx, pd.CategoricalIndex) or idx.isna().any():
            return self.o_iloc_slice(fs)
        a, b = sorted((idx[self.src.draw(fs.n)], idx[self.src.draw(fs.n)]))
        return f'.sort_index().truncate({a}, {b})', lambda d, x: d.sort_index().truncate(a, b), 'rows', False, True

    def o_isin(self, fs):
        cols = self.valcols(fs, 's')
        if not cols:
            return self.o_mask(fs)
        return ".loc[s.isin(x, yy)]", lambda d, x: d.loc[d['s'].isin(['x', 'yy'])], 'rows', True, True

    def o_shift(self, fs):
        return '.isna()/shift', lambda d, x: d.assign(**{q: range(len(d)) for q in x}).loc[::-1], 'rows', False, True

    def o_nothing(self, fs):
        how = self.src.pick(['infer_objects', 'squeeze', 'dropcols'])
        fn = {'infer_objects': lambda d, x: d.infer_objects(),
              'squeeze': lambda d, x: d.drop(columns=[]), 'dropcols': lambda d, x: d.reindex(columns=list(d.columns))}[how]
        return how, fn, 'pos', False, True

    def o_join(self, fs):
        """Merges give frames whose rows pandas makes up."""
        if not fs.twin.index.is_unique or fs.twin.index.nlevels > 1:
            return self.o_mask(fs)
        new = self.fresh('j')
        other = pd.DataFrame({new: self.rs.randint(0, 9, fs.n)}, index=fs.twin.index).iloc[self.src.shuffle(range(fs.n))]
        return f'.join({new})', lambda d, x: d.join(other), 'rows', False, True

    # ----------------------------------------------------------------------------------------------- in-place changes

    INPLACE = ['sort', 'sort_index', 'drop', 'dropna', 'dedup', 'query', 'reset', 'set_index', 'rename', 'new', 'insert', 'del', 'pop',
               'eval', 'columns', 'fillna', 'replace', 'key', 'key', 'delkey', 'index']

    def aliased(self, fs):
        """Whether the data of the frame is shared with any other frame of the run."""
        mine = [b.values for b in fs.df._mgr.blocks]
        others = [t.df for t in self.tables if t.df is not fs.df] + [t.base_frame for t in self.tables if t.ldf and fs.table is t]
        others += [o.df for o in self.live if o is not fs]
        for k in range(fs.twin.index.nlevels):
            v = fs.df.index.get_level_values(k).values
            if isinstance(v, np.ndarray) and any(isinstance(a, np.ndarray) and np.shares_memory(a, v) for a in mine):
                return True
        for d in others:
            for b in d._mgr.blocks:
                for a in mine:
                    if isinstance(a, np.ndarray) and isinstance(b.values, np.ndarray):
                        if np.shares_memory(a, b.values):
                            return True
                    elif a is b.values or getattr(a, '_ndarray', 0) is getattr(b.values, '_ndarray', 1):
                        return True
        return False

    def inplace(self, fs, name=None):
        """Modifies a frame in-place; other frames keep their rows."""
        src = self.src
        if fs.table is not None and fs.table.name in self.targets:
            return False
        name = name or src.pick(self.INPLACE)
        op = getattr(self, 'i_' + name)(fs)
        if op is None:
            return False
        label, fn, kind, idx_kept, refresh = op
        if kind == 'cells' and self.aliased(fs):
            self.R.probe('in-place change skipped (shared data)')
            return False
        tw = fs.twin.copy()
        tw[E] = np.arange(len(tw))
        try:
            tw = fn(tw, [E])
        except Exception:
            self.R.probe('operation not possible in pandas')
            return False
        self.R.log(fs.name, 'in-place', label)
        old = FS(fs.name, fs.df, fs.twin, dict(fs.links))
        old.keys, old.must, old.relabelled, old.deferred = dict(fs.keys), set(fs.must), set(fs.relabelled), set(fs.deferred)
        r = fn(fs.df, [])
        assert r is fs.df
        fs.keys, fs.must, fs.relabelled = {}, set(), set()
        fs.twin = tw.drop(columns=E)
        self.transfer(old, fs, tw[E].tolist(), kind, True, idx_kept, fs.twin)
        if refresh:
            self.refresh(fs, old)
        self.R.probe('in-place changes')
        if fs.table is not None and kind != 'none':
            fs.table.plain = fs.twin.copy(deep=True)
            fs.table.n = len(fs.twin)
        # only what pandas does not make an alias of the changed data is judged further
        for o in list(self.live):
            if o is not fs:
                try:
                    self.check_data(o)
                except Violation:
                    if not self.aliased(o):
                        raise
                    self.live.remove(o)
                    self.R.log('alias', o.name)
        self.check_data(fs)
        for lk in sorted(fs.must):
            if not self.present(fs, lk):
                raise Violation('links lost', f'{fs.name} lost the link {lk} by {label}')
        return True

    def view(self, fs):
        """What is known of a frame now, unaffected by later changes of its links."""
        v = FS(fs.name, fs.df, fs.twin, {})
        for lk, link in fs.links.items():
            v.links[lk] = copy.copy(link)
        v.keys, v.must, v.relabelled = dict(fs.keys), set(fs.must), set(fs.relabelled)
        return v

    def check_either(self, fs, old):
        """Between the keys before and the keys after an edit: each link follows the one or the other as a whole."""
        for lk in list(fs.keys):
            link = fs.links[lk]
            if lk in fs.relabelled or lk not in old.keys or not self.has_keys(link, fs.twin):
                continue
            if link.unclear(fs.keys[lk]) or old.links[lk].unclear(old.keys[lk]) or not self.present(fs, lk):
                continue
            col = self.src.pick(['i', 'f', 's'])
            t = link.other
            vals = t.plain[col].tolist()
            exps = []
            for v in (old, fs):
                rows = self.groups(v.keys[lk], v.links[lk])
                if not link.many:
                    exps.append([vals[g[0]] if g else self.fill(t, col) for g in rows])
                else:
                    exps.append([len([x for x in (vals[k] for k in g) if not null(x)]) if g else -1 for g in rows])
            try:
                got = fs.df[lk].count(col) if link.many else fs.df[lk][col]
            except Exception as e:
                if lk in fs.must:
                    raise Violation('lookup refused', f'{fs.name}: {lk} after a failed refresh: {e!r}')
                continue
            self.R.probe('lookups between a failed refresh and its retry')
            if not same_list(got.tolist(), exps[0]) and not same_list(got.tolist(), exps[1]):
                raise Violation('torn refresh', f'{fs.name}: {lk}.{col} gave {got.tolist()}, neither {exps[0]} (old keys) nor {exps[1]} (new keys)')

    def refresh(self, fs, old=None):
        from cheval.ldf import LinkageSpecificationError
        try:
            self.attempt('refresh', fs.df.compute_indexers, (lambda: self.check_either(fs, old)) if old else None)
        except LinkageSpecificationError:
            if all(lk in fs.must for lk in link_names(fs.df)):
                raise Violation('refresh refused', fs.name)
            # the order in which links were refreshed is not specified
            for lk in list(fs.links):
                fs.forget(lk)
        self.R.log(fs.name, 'refresh')
        for lk in list(fs.keys):
            link = fs.links[lk]
            if lk in fs.relabelled:
                fs.forget(lk)
            elif self.has_keys(link, fs.twin):
                try:
                    fs.keys[lk] = keys_of(fs.twin, link.self_spec)
                except Exception:
                    pass
        if fs.table is not None:
            for lk, link in fs.table.links.items():
                if lk in fs.keys:
                    link.self_keys = list(fs.keys[lk])

    def i_sort(self, fs):
        op = self.o_sort_values(fs)
        if not op[0].startswith('.sort_values'):
            return None
        cols = self.valcols(fs, 'fi')
        if not cols:
            return None
        c = self.src.pick(cols)
        asc = self.src.chance(1, 2)

        def fn(d, x):
            d.sort_values(c, ascending=asc, inplace=True)
            return d
        return f'sort_values({c}, {asc})', fn, 'rows', True, False

    def i_sort_index(self, fs):
        def fn(d, x):
            d.sort_index(inplace=True)
            return d
        return 'sort_index()', fn, 'rows', True, False

    def i_drop(self, fs):
        idx = fs.twin.index
        if not idx.is_unique or not fs.n or any(k is None for k in keys_of(fs.twin, ('index', None))):
            return None
        labels = [idx[k] for k in self.src.subset(range(fs.n), 1, 3)]

        def fn(d, x):
            d.drop(labels, inplace=True)
            return d
        return f'drop({labels})', fn, 'rows', True, False

    def i_dropna(self, fs):
        cols = self.valcols(fs, 'f')
        if not cols:
            return None

        def fn(d, x):
            d.dropna(subset=cols, inplace=True)
            return d
        return f'dropna({cols})', fn, 'rows', True, False

    def i_dedup(self, fs):
        cols = self.valcols(fs, 'bs')
        if not cols:
            return None

        def fn(d, x):
            d.drop_duplicates(cols, inplace=True)
            return d
        return f'drop_duplicates({cols})', fn, 'rows', True, False

    def i_query(self, fs):
        cols = self.valcols(fs, 'i')
        if not cols:
            return None
        v = fs.twin['i'].median() if fs.n else 0

        def fn(d, x):
            d.query(f'i > {v}', inplace=True)
            return d
        return f'query(i > {v})', fn, 'rows', True, False

    def i_reset(self, fs):
        drop = self.src.chance(1, 2)

        def fn(d, x):
            d.reset_index(drop=drop, inplace=True)
            return d
        return f'reset_index(drop={drop})', fn, 'pos', False, False

    def i_set_index(self, fs):
        cols = self.valcols(fs, 'is') + self.keycols(fs)
        cols = [c for c in cols if list(fs.twin.columns).count(c) == 1]
        if not cols:
            return None
        c = self.src.pick(cols)
        drop = self.src.chance(1, 2)

        def fn(d, x):
            d.set_index(c, drop=drop, inplace=True)
            return d
        return f'set_index({c}, drop={drop})', fn, 'pos', False, False

    def i_rename(self, fs):
        cols = list(fs.twin.columns)
        if not cols:
            return None
        m = {self.src.pick(cols): self.fresh('r')}

        def fn(d, x):
            d.rename(columns=m, inplace=True)
            return d
        return f'rename({m})', fn, 'pos', True, False

    def i_columns(self, fs):
        cols = [c if c in self.keycols(fs) or not self.src.chance(1, 3) else self.fresh('r') for c in fs.twin.columns]

        def fn(d, x):
            d.columns = cols + x
            return d
        return f'columns = {cols}', fn, 'pos', True, False

    def i_new(self, fs):
        new = self.fresh('new')
        v = self.rs.randint(0, 9, fs.n)

        def fn(d, x):
            d[new] = v
            return d
        return f'[{new}] = ...', fn, 'pos', True, False

    def i_insert(self, fs):
        new = self.fresh('new')
        v = self.rs.randint(0, 9, fs.n)

        def fn(d, x):
            d.insert(0, new, v)
            return d
        return f'insert({new})', fn, 'pos', True, False

    def i_del(self, fs):
        cols = [c for c in fs.twin.columns if c not in self.keycols(fs) and list(fs.twin.columns).count(c) == 1]
        if not cols:
            return None
        c = self.src.pick(cols)

        def fn(d, x):
            del d[c]
            return d
        return f'del {c}', fn, 'pos', True, False

    def i_pop(self, fs):
        cols = [c for c in fs.twin.columns if c not in self.keycols(fs) and list(fs.twin.columns).count(c) == 1]
        if not cols:
            return None
        c = self.src.pick(cols)

        def fn(d, x):
            d.pop(c)
            return d
        return f'pop({c})', fn, 'pos', True, False

    def i_delkey(self, fs):
        cols = self.keycols(fs)
        if not cols:
            return None
        c = self.src.pick(cols)
        how = self.src.draw(3)

        def fn(d, x):
            if how == 0:
                del d[c]
            elif how == 1:
                d.pop(c)
            else:
                d.drop(columns=c, inplace=True)
            return d
        return f'delete {c} ({how})', fn, 'pos', True, False

    def i_eval(self, fs):
        if 'i' not in self.valcols(fs):
            return None
        new = self.fresh('new')

        def fn(d, x):
            d.eval(f'{new} = i * 3', inplace=True)
            return d
        return f'eval({new} = i * 3)', fn, 'pos', True, False

    def i_fillna(self, fs):
        cols = [c for c in self.valcols(fs, 'f')]
        if not cols:
            return None

        def fn(d, x):
            d.fillna({'f': 1.5}, inplace=True)
            return d
        return 'fillna(f)', fn, 'cells', True, True

    def i_replace(self, fs):
        op = self.o_replace(fs)
        if not op[0].startswith('.replace'):
            return None
        cols = [c for c in self.keycols(fs) if str(fs.twin[c].dtype) != 'category']
        c = self.src.pick(cols)
        a, b = fs.twin[c].iloc[0], fs.twin[c].iloc[-1]
        if null(a) or null(b):
            return None

        def fn(d, x):
            d.replace({c: {a: b}}, inplace=True)
            return d
        if any(l.other is fs.table for t in self.tables for l in t.links.values()):
            return None
        return f'replace({c}: {a} -> {b})', fn, 'cells', True, True

    def i_key(self, fs):
        """Keys are edited and the links explicitly refreshed."""
        cols = [c for c in self.keycols(fs) if list(fs.twin.columns).count(c) == 1]
        if not cols or not fs.n:
            return None
        c = self.src.pick(cols)
        perm = self.src.shuffle(range(fs.n)) if self.src.chance(2, 3) else [self.src.draw(fs.n) for _ in range(fs.n)]
        how = self.src.draw(3)

        def fn(d, x):
            vals = pd.DataFrame(d)[c].iloc[perm].array.copy()
            if how == 0:
                d[c] = vals
            elif how == 1:
                d.loc[:, c] = vals
            else:
                d[c] = pd.Series(vals, index=d.index).values
            return d
        return f'[{c}] = permuted {perm} ({how})', fn, 'cells', True, True

    def i_index(self, fs):
        new = pd.Index([f'n{k}' for k in range(fs.n)], name='fresh')

        def fn(d, x):
            d.index = new
            return d
        return 'index = ...', fn, 'pos', False, False

    # --------------------------------------------------------------------------------------------------- other steps

    def recompute(self, fs):
        """compute_indexers() without any change."""
        if self.src.chance(1, 2):
            self.refresh(fs, fs)
        else:
            from cheval.ldf import LinkageSpecificationError
            try:
                self.attempt('compute', lambda: fs.df.compute_indexers(refresh=False), lambda: self.check_some(fs, 1))
            except LinkageSpecificationError:
                if all(lk in fs.must for lk in link_names(fs.df)):
                    raise Violation('refresh refused', fs.name)
            self.R.log(fs.name, 'compute_indexers(refresh=False)')

    def relink(self, fs):
        """A further link (or the same again) from a derived frame, by its present keys."""
        src = self.src
        if not fs.keys:
            return
        lk = src.pick(sorted(fs.keys))
        link = fs.links[lk]
        if lk in fs.relabelled or not self.has_keys(link, fs.twin):
            return
        try:
            own = keys_of(fs.twin, link.self_spec)
        except Exception:
            return
        if link.many and len(set(own)) < len(own) or (link.many and None in own):
            return
        name = lk if src.chance(1, 2) else self.fresh('again')
        if fs.table is not None and fs.table.name in self.targets:
            return
        other = link.other
        if fs.table is other:
            return
        new = self.link_up(fs.df, FSName(fs.name), other, name, link.self_spec, link.other_spec, plain=fs.twin)
        fs.links = {**fs.links, name: new}
        fs.keys[name] = own
        fs.must.add(name)
        (fs.deferred.discard if new.pre else fs.deferred.add)(name)
        if fs.table is not None:
            fs.table.links[name] = new

    @staticmethod
    def repeats(plain, c):
        return list(plain.columns).count(c) == 1 and len(set(plain[c])) < len(plain)

    def refuse(self, fs, only=None):
        """An operation on a frame which must be refused and change nothing."""
        src = self.src
        df = fs.df
        cols, names = [c for c in fs.twin.columns if list(fs.twin.columns).count(c) == 1], list(fs.twin.index.names)
        other = src.pick([t for t in self.tables])
        have = link_names(df)
        if only == 'many':
            others = [t for t in self.tables if any(c in cols and self.repeats(fs.twin, c) and self.repeats(t.plain, c) for c in 'bcs')]
            if not others:
                return False
            other = src.pick(others)
        name = src.pick(have + [self.fresh('refused'), self.fresh('refused ')] if have else [self.fresh('refused')])
        pre = {'precompute': False} if src.chance(1, 2) else {}
        col = src.pick(cols) if cols else 'i'
        o = other.df
        two = [c for c in ALLCOLS if c in o.columns]
        if len(two) < 2:
            return False
        two = src.sample(two, 2)
        kind = only or src.pick(['both', 'both self', 'both other', 'no column', 'no column', 'no level', 'no level', 'number', 'number', 'many', 'many',
                         'multi', 'name', 'target', 'fill column', 'fill type', 'temporary', 'no link', 'expression', 'column', 'aggregation'])
        fn = None
        if kind == 'both':
            fn = lambda: df.link_to(o, name, on=col, levels=0, **pre)
        elif kind == 'both self':
            fn = lambda: df.link_to(o, name, on_self=col, self_levels=0, on_other=two[0], **pre)
        elif kind == 'both other':
            fn = lambda: df.link_to(o, name, on_self=col, on_other=two[0], other_levels=0, **pre)
        elif kind == 'no column':
            fn = src.pick([lambda: df.link_to(o, name, on_self='nocol', on_other=two[0], **pre), lambda: df.link_to(o, name, on='nocol', **pre),
                           lambda: df.link_to(o, name, on_self=col, on_other='nocol', **pre),
                           lambda: df.link_to(o, name, on_self=[col, 'nocol'], on_other=two, **pre)])
        elif kind == 'no level':
            fn = src.pick([lambda: df.link_to(o, name, self_levels='nolevel', other_levels=0, **pre), lambda: df.link_to(o, name, levels=7, **pre),
                           lambda: df.link_to(o, name, self_levels=0, other_levels='nolevel', **pre),
                           lambda: df.link_to(o, name, self_levels=[0] * 5, on_other=(two * 3)[:5], **pre)])
        elif kind == 'number':
            if len(names) == 1:
                fn = src.pick([lambda: df.link_to(o, name, on_other=two, **pre), lambda: df.link_to(o, name, on_self=col, on_other=two, **pre)])
            else:
                fn = lambda: df.link_to(o, name, on_other=two[0], **pre)
        elif kind == 'many':
            c = src.pick([c for c in 'bcs' if only is None or c in cols and self.repeats(fs.twin, c) and self.repeats(other.plain, c)])
            if c in cols and self.repeats(fs.twin, c) and self.repeats(other.plain, c):
                fn = lambda: df.link_to(o, name, on=c, **pre)
        elif kind == 'multi':
            wide = pd.DataFrame([[1, 2]], columns=pd.MultiIndex.from_tuples([('a', 'x'), ('a', 'y')]))
            fn = lambda: df.link_to(wide, name, **pre)
        elif kind == 'name':
            if other.n and fs.n and 'i' in other.plain.columns and len(set(other.plain['i'])) == len(other.plain) and 'i' in cols:
                fn = lambda: df.link_to(o, src.pick([5, None, ('a', 'b')]), on='i', **pre)
        elif kind == 'target':
            fn = lambda: df.link_to(src.pick([None, 3, 'table', [1, 2]]), name, **pre)
        elif kind == 'fill column':
            newcol = self.fresh('i_new')
            fn = lambda: df.set_column_fill(newcol, 5)
        elif kind in ('fill type', 'temporary'):
            kw = [('FLOAT_NAME', -7.5), ('INT_NAME', 77), ('NOPE', 1), ('TEXT_NAME', 'refused')]
            kw = dict(src.shuffle(kw))

            def fn():
                if kind == 'fill type':
                    df.set_fill_defaults(**kw)
                else:
                    with df.temporary_fill_defaults(**kw):
                        pass
        elif kind == 'no link':
            fn = src.pick([lambda: df.get_link_target('nolink'), lambda: df['nolink'], lambda: df.nolink])
        elif kind == 'expression':
            text = src.pick(['i + nocol', 'nolink.i', 'i +', 'i[0]', 'nolink.sum(i)', 'foo(i)', '[i]', '{a: i}', 'i if f else 2'])
            fn = lambda: df.evaluate(text)
        elif have:
            path = [p for p in self.paths(fs, have) if p[0][0] in fs.must]
            if path:
                path = src.pick(path)
                if kind == 'column' and not path[-1][1].many:
                    fn = src.pick([lambda: self.walk(fs, path)['nocol'], lambda: self.walk(fs, path).nocol])
                elif kind == 'aggregation' and path[-1][1].many:
                    fn = src.pick([lambda: self.walk(fs, path).total('i'), lambda: self.walk(fs, path).sum('s'), lambda: self.walk(fs, path).sum('nocol'),
                                   lambda: self.walk(fs, path).mean('i +'), lambda: self.walk(fs, path).max('t')])
        if fn is None:
            return False
        before, listed = have, public(df)
        self.R.log(fs.name, 'to be refused', kind, name)
        try:
            fn()
        except Exception as e:
            self.R.log('refused with', type(e).__name__)
        else:
            raise Violation('not refused', f'{fs.name}: {kind} ({name})')
        self.R.fault(f'refused on a frame: {kind}')
        if link_names(df) != before or public(df) != listed:
            raise Violation('trace', f'{fs.name}: links {link_names(df)} instead of {before} after a refused operation ({kind}); '
                            f'listed: {sorted(set(public(df)) ^ set(listed))}')
        if kind == 'fill column' and fs.table is not None and src.chance(2, 3):
            # the column appears afterwards
            t = fs.table
            values = np.arange(len(t.plain)) + 3
            df[newcol] = values
            for v in [t.plain] + [f.twin for f in self.live + [fs] if f.table is t]:
                v[newcol] = values
            for f in self.live:
                for path in self.paths(f):
                    if path[-1][1].other is t and not path[-1][1].many:
                        self.check_lookup(f, path, newcol)
        return True

    def edit_values(self):
        """Values of a target are exchanged between its rows: no key changes, so that nothing needs to be refreshed."""
        src = self.src
        cands = [t for t in self.tables if t.name in self.targets and t.n > 1 and not any(f.table is t for f in self.live)]
        if not cands:
            return
        t = src.pick(cands)
        cols = src.sample(['f', 'i', 'b', 's', 'c'], src.rint(1, 3)) if src.chance(1, 2) else ['f', 'i', 'b', 's', 'c']
        perm = src.shuffle(range(t.n))
        for d in (t.df, t.plain):
            for c in cols:
                d[c] = pd.DataFrame(d)[c].iloc[perm].array.copy()
        self.R.log('values of', t.name, cols, 'permuted', perm)
        self.R.probe('values of targets edited')

    def edit_target(self):
        """Keys of a target are edited, and every link to it is refreshed."""
        src = self.src
        cands = []
        for t in self.tables:
            if t.name in self.targets and not any(f.table is t for f in self.live):
                specs = {tuple(l.other_spec[1]) for q in self.tables for l in q.links.values()
                         if l.other is t and l.other_spec[0] == 'cols'}
                if specs and t.n > 1:
                    cands.append((t, sorted(specs)))
        if not cands:
            return
        t, specs = src.pick(cands)
        cols = list(src.pick(specs))
        # keys and rows are exchanged: what was unique stays unique
        perm = src.shuffle(range(t.n))
        for d in (t.df, t.plain):
            for c in cols:
                d[c] = pd.DataFrame(d)[c].iloc[perm].array.copy()
        self.R.log('target', t.name, cols, 'permuted', perm)
        before = {fs.name: self.view(fs) for fs in self.live}
        for q in self.tables:
            for l in q.links.values():
                if l.other is t or l.owner is t:
                    l.set_other(l.other.plain)
                    if l.owner is t:
                        l.self_keys = keys_of(t.plain, l.self_spec)
        tops = [f for f in self.live if f.table is not None]
        if t.ldf:
            self.attempt('refresh', t.df.compute_indexers)
        for q in self.tables:
            if q.ldf and any(l.other is t for l in q.links.values()) and not any(f.table is q for f in tops):
                self.attempt('refresh', q.df.compute_indexers)
        for fs in list(self.live):
            for lk, l in list(fs.links.items()):
                if l.other is t:
                    l.set_other(t.plain)
            hit = [lk for lk in fs.keys if fs.links[lk].other is t]
            if hit:
                for lk in hit:
                    if lk in fs.relabelled or not self.has_keys(fs.links[lk], fs.twin):
                        fs.forget(lk)     # nothing to refresh it with
                self.refresh(fs, before[fs.name])
        self.R.fault('keys of a target edited and links refreshed')


class FSName:
    def __init__(self, name):
        self.name = name

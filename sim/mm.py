"""Model machines: the real ChoiceModel driven by drawn operations next to the executable reference."""
import numpy as np
import pandas as pd

from . import logit, world
from .engine import Violation
from .refmodel import TEXTS, BadUtilities, Gen, Gray, NotReady, RefModel, RefTable, Unsure

GROUPS = ['g1', 'g2', 0]
KINDS = {'k1': 'number', 'k2': 'number', 'v1': 'vector', 'v2': 'vector', 'w1': 'vector', 'm1': 'matrix', 'm2': 'matrix',
         'hh': 'table', 'pt': 'table', 'pt1': 'table'}
ORIENT = {'k1': 0, 'k2': 0, 'v1': 0, 'v2': 0, 'w1': 1, 'm1': 0, 'm2': 1, 'hh': 0, 'pt': 0, 'pt1': 1}

MANDATORY = {'pt1': [{'cost'}, {'cost', 'q'}], 'pt': [{'x'}, {'x', 's'}, ['y']], 'hh': [{'age'}, {'age', 'n'}, ('kind',)]}


def dy(rs, shape, lo=-8, hi=9):
    return rs.randint(lo, hi, shape) * 0.25


class Universe:
    """Data drawn for one run: what tables look like, and how values are generated."""

    def __init__(self, R, links=True):
        src = R.src
        self.R, self.src = R, src
        self.linked = links and src.chance(2, 3)
        self.zone_ldf = src.chance(1, 2)
        self.region = self.zone_ldf and src.chance(1, 2)
        self.firms = self.zone_ldf and src.chance(1, 2)
        self.persons = src.chance(1, 2)
        self.f4 = src.chance(1, 3)      # single-precision data; exp() of it would be rounded too coarsely
        self.misses = src.chance(1, 10)
        self.nulls = src.chance(1, 6)       # some numbers are missing from nullable columns
        self.made = []          # every object handed to the code under test: (description, object, fingerprint)

    def schema(self):
        hh = [('col', ('age',), 'f'), ('col', ('n',), 'i'), ('col', ('kind',), 's'), ('col', ('own',), 'b')]
        if self.linked:
            hh += [('col', ('zone', 'area'), 'f'), ('col', ('zone', 'q'), 'i'), ('col', ('zone', 'label'), 's')]
            if self.region:
                hh += [('col', ('zone', 'region', 'tax'), 'f'), ('col', ('zone', 'region', 'free'), 'b')]
            if self.firms:
                hh += [('agg', ('zone', 'firms'), 'emp')]
            if self.persons:
                hh += [('agg', ('persons',), 'inc'), ('agg', ('persons',), 'n')]
        return {'hh': hh, 'pt': [('col', ('x',), 'f'), ('col', ('y',), 'i'), ('col', ('s',), 's'), ('col', ('on',), 'b')],
                'pt1': [('col', ('cost',), 'f'), ('col', ('q',), 'i')]}

    def note(self, what, obj):
        self.made.append((what, obj))
        return obj

    # ---------------------------------------------------------------- data for symbols

    def number(self):
        v = self.src.num(-2, 2, 0.25)
        return v, v

    def vector(self, index, orient):
        src = self.src
        rs = np.random.RandomState(src.seed32())
        dt = src.pick(['f8', 'i8', 'f4' if self.f4 else 'f8', 'i4'])
        vals = dy(rs, len(index)).astype(dt) if dt[0] == 'f' else rs.randint(-2, 3, len(index)).astype(dt)
        data = pd.Series(vals.copy(), index=index) if src.chance(1, 2) else vals.copy()
        return data, vals

    def matrix(self, index, cols, orient, fill, reindex_rows, reindex_cols):
        """Returns (frame to assign, aligned values)."""
        src = self.src
        rs = np.random.RandomState(src.seed32())
        n, m = len(index), len(cols)
        rows, cs = list(range(n)), list(range(m))
        if reindex_rows and src.chance(1, 3) and index.is_unique:
            rows = src.shuffle(rows)[:src.rint(1, n)] if n < 40 else rows[::-1]
        if reindex_cols and src.chance(1, 3):
            cs = src.shuffle(cs)[:src.rint(1, m)]
        dt = src.pick(['f8', 'f4' if self.f4 else 'f8']) if src.chance(4, 5) else 'i8'
        vals = dy(rs, (len(rows), len(cs))).astype(dt) if dt[0] == 'f' else rs.randint(-2, 3, (len(rows), len(cs)))
        full = np.full((n, m), fill, dtype=vals.dtype)
        full[np.ix_(rows, cs)] = vals
        frame = pd.DataFrame(vals.copy(), index=index.take(rows), columns=cols.take(cs))
        if orient == 1:
            frame = pd.DataFrame(vals.T.copy(), index=cols.take(cs), columns=index.take(rows))
        return frame, full

    def ints(self, ref, col, index):
        """A column of whole numbers, of some type"""
        vals = ref.cols[col]
        kind = self.src.weighted([(6, 'i8'), (1, 'i2'), (1, 'Int64'), (1, 'Int8'), (1, 'category'), (1, 'i1')])
        s = pd.Series(vals.copy(), index=index).astype(kind)
        if kind[0] == 'I' and self.nulls and len(vals):
            k = self.src.draw(len(vals))
            s.iloc[k] = pd.NA
            ref.cols[col] = vals.astype('f8')
            ref.cols[col][k] = np.nan
        return s

    def flags(self, rs, n):
        return rs.randint(0, 2, n).astype(bool)

    def text(self, rs, n):
        return np.array([TEXTS[k] for k in rs.randint(0, 3, n)], dtype=object)

    def text_series(self, vals, index):
        if self.src.chance(1, 2):
            return pd.Series(pd.Categorical(list(vals), categories=TEXTS), index=index)
        return pd.Series(list(vals), index=index, dtype=object)

    def table(self, name, index, links=True):
        from cheval import LinkedDataFrame
        src = self.src
        n = len(index)
        rs = np.random.RandomState(src.seed32())
        ref = RefTable(n)
        if name == 'pt1':
            ref.cols = {'cost': dy(rs, n), 'q': rs.randint(-2, 3, n)}
            return pd.DataFrame({'cost': ref.cols['cost'].copy(), 'q': self.ints(ref, 'q', index)}, index=index), ref
        if name == 'pt':
            ref.cols = {'x': dy(rs, n), 'y': rs.randint(-2, 3, n), 's': self.text(rs, n), 'on': self.flags(rs, n)}
            frame = pd.DataFrame({'x': ref.cols['x'].copy(), 'y': self.ints(ref, 'y', index),
                                  'on': ref.cols['on'].copy()}, index=index)
            frame['s'] = self.text_series(ref.cols['s'], index)
            if src.chance(1, 2) and links:
                frame = LinkedDataFrame(frame)
            return frame, ref
        # hh, with links
        ref.cols = {'age': dy(rs, n), 'n': rs.randint(-2, 3, n), 'kind': self.text(rs, n), 'own': self.flags(rs, n)}
        frame = LinkedDataFrame({'age': ref.cols['age'].copy(), 'n': self.ints(ref, 'n', index),
                                 'own': ref.cols['own'].copy()}, index=index)
        frame['kind'] = self.text_series(ref.cols['kind'], index)
        if not self.linked:
            return frame, ref
        nz = src.rint(1, 5)
        zkeys = [10 + k for k in src.shuffle(list(range(nz)))]
        zid = np.array([zkeys[k] for k in rs.randint(0, nz, n)])
        if self.misses and n > 1:
            zid[rs.randint(0, n)] = 99
        frame['zid'] = zid
        zones = RefTable(nz)
        zones.cols = {'area': dy(rs, nz), 'q': rs.randint(-2, 3, nz), 'label': self.text(rs, nz)}
        zf = {'area': zones.cols['area'].copy(), 'q': zones.cols['q'].copy(), 'label': list(zones.cols['label'])}
        by_index = src.chance(1, 2)
        if by_index:
            zf = pd.DataFrame(zf, index=pd.Index(zkeys, name='zid'))
        else:
            zf = pd.DataFrame({**zf, 'zid': zkeys}, index=[f'z{k}' for k in range(nz)])
        if self.zone_ldf:
            zf = LinkedDataFrame(zf)
        pre = not src.chance(1, 3)
        if self.region:
            rk = [7, 8, 9]
            rid = rs.randint(0, 3, nz)
            zf['rid'] = [rk[k] for k in rid]
            reg = RefTable(3)
            reg.cols = {'tax': dy(rs, 3), 'free': self.flags(rs, 3)}
            rf = pd.DataFrame({'tax': reg.cols['tax'].copy(), 'free': reg.cols['free'].copy()}, index=pd.Index(rk, name='rid'))
            zf.link_to(rf, 'region', on_self='rid', precompute=pre)
            zones.links['region'] = ('one', reg, list(rid))
            self.note('regions', rf)
        if self.firms:
            k = src.rint(1, 8)
            own = rs.randint(0, nz, k)
            fr = RefTable(k)
            fr.cols = {'emp': dy(rs, k)}
            ff = pd.DataFrame({'emp': fr.cols['emp'].copy(), 'zk': [zkeys[j] for j in own]})
            if k == len(set(own)):     # keys would be unique: make it one-to-many
                ff = pd.concat([ff, ff.iloc[[0]]], ignore_index=True)
                own = np.append(own, own[0])
                fr.n = k + 1
                fr.cols = {'emp': np.append(fr.cols['emp'], fr.cols['emp'][0])}
            if by_index:
                zf.link_to(ff, 'firms', on_other='zk', precompute=pre)
            else:
                zf.link_to(ff, 'firms', on_self='zid', on_other='zk', precompute=pre)
            zones.links['firms'] = ('many', fr, [np.nonzero(own == j)[0] for j in range(nz)])
            self.note('firms', ff)
        if by_index:
            frame.link_to(zf, 'zone', on_self='zid', precompute=pre)
        else:
            frame.link_to(zf, 'zone', on='zid', precompute=pre)
        ref.links['zone'] = ('one', zones, [zkeys.index(z) if z in zkeys else -1 for z in zid])
        self.note('zones', zf)
        if self.persons:
            k = max(2, src.rint(1, 2 * n if n < 40 else n))
            own = rs.randint(0, n, k)
            if len(set(own)) == len(own):
                own[0] = own[1]
            frame['hid'] = np.arange(n) + 100
            pr = RefTable(k)
            pr.cols = {'inc': dy(rs, k), 'n': rs.randint(-2, 3, k)}
            pf = pd.DataFrame({'inc': pr.cols['inc'].copy(), 'n': pr.cols['n'].copy(), 'hid': own + 100})
            if src.chance(1, 2):
                pf = LinkedDataFrame(pf)
            frame.link_to(pf, 'persons', on='hid', precompute=not src.chance(1, 3))
            ref.links['persons'] = ('many', pr, [np.nonzero(own == j)[0] for j in range(n)])
            self.note('persons', pf)
        return frame, ref


def fingerprint(obj):
    """Everything of a caller-owned object that a user can see."""
    if isinstance(obj, pd.DataFrame):
        cols = tuple((repr(c), str(obj.dtypes.iloc[k]), tuple(map(repr, obj.iloc[:, k].tolist())))
                     for k, c in enumerate(obj.columns))
        links = tuple(obj._link_names()) if hasattr(obj, '_link_names') else ()
        return ('frame', type(obj).__name__, tuple(map(repr, obj.index)), tuple(map(repr, obj.index.names)), cols, links)
    if isinstance(obj, pd.Series):
        return ('series', tuple(map(repr, obj.index)), str(obj.dtype), repr(obj.name), tuple(map(repr, obj.tolist())))
    if isinstance(obj, np.ndarray):
        return ('array', obj.shape, str(obj.dtype), obj.tobytes())
    if isinstance(obj, pd.Index):
        return ('index', tuple(map(repr, obj)), tuple(map(repr, obj.names)))
    return ('value', repr(obj))


def threaded():
    from . import sched
    return sched._active is not None


class ListLogger:
    def __init__(self):
        self.lines = []

    def debug(self, msg, *a, **k):
        self.lines.append(str(msg) % a if a else str(msg))

    info = warning = error = log = debug


class Pair:
    """A real model with its reference."""

    def __init__(self, name, model, ref, nodes):
        self.name, self.model, self.ref, self.nodes = name, model, ref, nodes


class Machine:
    def __init__(self, R, *, links=True, precision=None, tree=None, n=None, nested=None, max_depth=3):
        from cheval.model import ChoiceModel
        self.R, self.src = R, R.src
        src = R.src
        self.uni = Universe(R, links)
        world.divide_evaluations(R)
        precision = precision or src.weighted([(3, 8), (1, 4)])
        self.n = n
        self.kept = []
        self.bias = src.pick([None, None, None, 'dict', 'chain', 'agg', 'where', 'sym'])     # what expressions are mostly made of
        t = tree or logit.gen_tree(src, max_depth=max_depth, nested=nested, max_top=4)
        model, ref = ChoiceModel(precision=precision), RefModel(precision)
        p = Pair('M', model, ref, {})
        self.pairs = [p]
        self.grow_tree(p, t)
        R.log('model', 'precision', precision, 'tree', t)

    def grow_tree(self, p, t):
        src = self.src
        if t.depth == 1 and src.chance(1, 2):
            made = p.model.add_choices([n.name for n in t.nodes])
            for n in t.nodes:
                p.ref.add_choice(n.name, 1.0)
                p.nodes[(n.name,)] = made[n.name]
            return
        for n in t.nodes:
            if n.parent is None:
                p.nodes[n.path] = p.model.add_choice(n.name, logsum_scale=n.scale)
            else:
                p.nodes[n.path] = p.nodes[n.parent.path].add_choice(n.name, logsum_scale=n.scale)
            p.ref.add_choice(n.name, n.scale, n.parent.path if n.parent else None)

    # ------------------------------------------------------------------------------------------- operations

    def gen(self, p):
        return Gen(self.src, p.ref.tree, self.uni.schema(), exp=not self.uni.f4, bias=self.bias)

    def op_units(self, p):
        src = self.src
        if p.ref.units is not None and src.chance(1, 6):
            idx = p.ref.units.copy()
        else:
            n = self.n or src.weighted([(4, src.rint(1, 4)), (3, src.rint(5, 9)), (0 if self.R.tier == 'quick' else 1, 40)])
            idx = logit.gen_units(src, n)
        how = src.draw(2) if not isinstance(idx, pd.MultiIndex) else 0
        p.model.decision_units = idx if how == 0 else list(idx)
        p.ref.set_units(idx if how == 0 else pd.Index(list(idx)))
        self.R.log(p.name, 'units', list(idx)[:8], len(idx))

    def declare(self, p, name):
        from .refmodel import Sym
        src = self.src
        kind, orient = KINDS[name], ORIENT[name]
        m = p.model
        params = {}
        if kind == 'number':
            m.declare_number(name)
        elif kind == 'vector':
            m.declare_vector(name, orient)
        elif kind == 'table':
            mand = src.pick(MANDATORY[name]) if src.chance(1, 4) else None
            params = {'mand': mand, 'links': name == 'hh' or not src.chance(1, 4)}
            kw = {}
            if mand or src.chance(1, 8):
                kw['mandatory_attributes'] = mand
            if not params['links'] or src.chance(1, 8):
                kw['allow_links'] = params['links']
            m.declare_table(name, orient, **kw)
        else:
            params = {'fill': src.pick([0, 1, -0.5]), 'rows': not src.chance(1, 5), 'cols': not src.chance(1, 5)}
            if params == {'fill': 0, 'rows': True, 'cols': True} and src.chance(1, 2):
                m.declare_matrix(name, orient)
            else:
                m.declare_matrix(name, orientation=orient, reindex_cols=params['cols'], reindex_rows=params['rows'],
                                 fill_value=params['fill'])
        p.ref.scope[name] = Sym(kind, orient, params)
        self.R.log(p.name, 'declare', name)

    def op_declare(self, p):
        name = self.src.pick(list(KINDS))
        self.declare(p, name)

    def draw_data(self, p, name, index=None, cols=None):
        sym = p.ref.scope[name]
        units = p.ref.units if index is None else index
        labels = p.model.choices if cols is None else cols
        if sym.kind == 'number':
            return self.uni.number()
        if sym.kind == 'vector':
            return self.uni.vector(units if sym.orient == 0 else labels, sym.orient)
        if sym.kind == 'table':
            return self.uni.table(name, units if sym.orient == 0 else labels, sym.params['links'])
        fill = sym.params['fill']
        frame, full = self.uni.matrix(units, labels, sym.orient, fill, sym.params['rows'], sym.params['cols'])
        return frame, full

    def assign(self, p, name):
        data, ref = self.draw_data(p, name)
        self.uni.note(name, data)
        p.model[name].assign(data)
        s = p.ref.scope[name]
        s.status, s.data = 'filled', ref
        self.R.log(p.name, 'assign', name, type(data).__name__,
                   getattr(data, 'dtype', '') if not isinstance(data, pd.DataFrame) else data.shape)

    def assignable(self, p):
        return [x for x, s in p.ref.scope.items() if not s.gone if p.ref.units is not None or s.kind == 'number'] \
            if p.ref.tree_ready() else []

    def op_assign(self, p):
        names = self.assignable(p)
        if names:
            self.assign(p, self.src.pick(names))

    def op_renew(self, p):
        """Much of what the expressions use is assigned again."""
        used = set()
        for e, _, _ in p.ref.exprs():
            used |= e.simple() | e.chained()
        names = [x for x in self.assignable(p) if x in used and p.ref.scope[x].status == 'filled']
        for name in names:
            if self.src.chance(2, 3):
                self.assign(p, name)

    def op_expr(self, p, group='draw'):
        src = self.src
        e = self.gen(p).expression()
        if group == 'draw':
            group = None if not src.chance(1, 3) else src.pick(GROUPS)
        if group is None:
            p.model.expressions.append(e[2])
            p.ref.ungrouped.append(e)
        else:
            p.model.expressions.append(e[2], group=group)
            p.ref.groups.setdefault(group, []).append(e)
        self.R.log(p.name, 'expression', repr(e[2]), 'group', group)

    def op_expr_batch(self, p):
        es = [self.gen(p).expression() for _ in range(1 + self.src.draw(3))]
        p.model.expressions = [e[2] for e in es]
        p.ref.ungrouped.extend(es)
        self.R.log(p.name, 'expressions =', [e[2] for e in es])

    def op_expr_clear(self, p):
        p.model.expressions.clear()
        p.ref.ungrouped, p.ref.groups = [], {}
        self.R.log(p.name, 'expressions.clear()')

    def op_drop_group(self, p):
        if p.ref.groups:
            g = self.src.pick(list(p.ref.groups))
            p.model.expressions.drop_group(g)
            del p.ref.groups[g]
            self.R.log(p.name, 'drop group', g)

    def listed(self, group, ungrouped, groups, what):
        """The expressions of an expression group are these."""
        want = [e[2] for e in ungrouped], {g: [e[2] for e in es] for g, es in groups.items()}
        try:
            got = group.tolist(), {g: [e.raw for e in group.get_group(g)] for g in groups}
            n = len(list(group))
        except KeyError as e:
            raise Violation('expressions', f'{what} have lost the group {e}')
        if got != want or n != len(want[0]) + sum(map(len, want[1].values())):
            raise Violation('expressions', f'{what} are {got} ({n} in all), not {want}')

    def op_groups(self, p):
        """Sums and copies of groups of expressions belong to whoever made them."""
        src = self.src
        q = src.pick(self.pairs)
        copied = src.chance(1, 3)
        g = p.model.expressions.copy() if copied else p.model.expressions + q.model.expressions
        self.R.log('g =', f'{p.name}.expressions.copy()' if copied else f'{p.name}.expressions + {q.name}.expressions')
        ungrouped, groups = list(p.ref.ungrouped), {k: list(v) for k, v in p.ref.groups.items()}
        if not copied:
            ungrouped += q.ref.ungrouped
            for k, v in q.ref.groups.items():
                groups.setdefault(k, []).extend(v)
        self.listed(g, ungrouped, groups, 'the expressions of a copy' if copied else 'the expressions of a sum')
        self.R.probe('groups of expressions copied or added up')
        for _ in range(src.draw(4)):
            kind = src.weighted([(4, 'append'), (1, 'drop'), (1, 'clear')])
            if kind == 'append':
                e = self.gen(src.pick([p, q])).expression()
                k = src.pick([None] + list(groups) + GROUPS[:1])
                try:
                    g.append(e[2], group=k)
                except SyntaxError:      # a name means different things in the two models
                    continue
                (ungrouped if k is None else groups.setdefault(k, [])).append(e)
                self.R.log('g.append', repr(e[2]), k)
            elif kind == 'drop' and groups:
                k = src.pick(list(groups))
                g.drop_group(k)
                del groups[k]
                self.R.log('g.drop_group', k)
            elif kind == 'clear':
                g.clear()
                ungrouped, groups = [], {}
                self.R.log('g.clear()')
        self.listed(g, ungrouped, groups, 'the expressions of a copy or sum')
        for t in (p, q):
            self.listed(t.model.expressions, t.ref.ungrouped, t.ref.groups, f'the expressions of model {t.name}')

    def op_clear_scope(self, p):
        p.model.clear_scope()
        p.ref.scope.clear()
        self.R.log(p.name, 'clear_scope()')

    def op_precision(self, p):
        v = self.src.pick([4, 8])
        p.model.precision = v
        p.ref.loose = p.ref.loose or v == 4
        p.ref.precision = v
        self.R.log(p.name, 'precision', v)

    def op_scale(self, p):
        nests = [n for n in p.ref.tree.nodes if n.children]
        if nests and len(self.pairs) == 1:
            n = self.src.pick(nests)
            v = self.src.pick([1.0, 0.5, 0.25, 0.8])
            p.nodes[n.path].logsum_scale = v
            n.scale = v
            self.R.log(p.name, 'scale', '.'.join(n.path), v)

    def op_tree(self, p):
        """Adds or replaces choices (a nest always gets at least two children at once)."""
        src = self.src
        if len(self.pairs) > 1:
            return
        t = p.ref.tree
        kind = src.weighted([(3, 'top'), (2, 'nested'), (1, 'replace'), (2, 'nest')])
        sc = src.pick([1.0, 0.5, 0.75])

        def add(name, parent=None, scale=1.0):
            if parent is None:
                p.nodes[(name,)] = p.model.add_choice(name, logsum_scale=scale)
            else:
                p.nodes[parent + (name,)] = p.nodes[parent].add_choice(name, logsum_scale=scale)
            p.ref.add_choice(name, scale, parent)
            self.R.log(p.name, 'add choice', '.'.join((parent or ()) + (name,)), scale)

        if len(t.nodes) > 9 and kind != 'replace':
            kind = 'replace'
        if kind == 'top':
            free = [x for x in logit.NAMES if (x,) not in [n.path for n in t.nodes]]
            if free:
                add(src.pick(free), None, sc)
        elif kind == 'replace':
            n = src.pick(t.nodes)
            parent = n.parent.path if n.parent else None
            for path in [x for x in p.nodes if x[:len(n.path)] == n.path]:
                del p.nodes[path]
            add(n.name, parent, sc)
        elif kind == 'nest':
            leaves = [n for n in t.nodes if not n.children and len(n.path) < 3]
            if leaves:
                n = src.pick(leaves)
                path = n.path
                for nm in src.sample(logit.NAMES, 2):
                    add(nm, path, sc)
        else:
            nests = [n for n in t.nodes if n.children]
            if nests:
                path = src.pick(nests).path
                have = [c.name for c in next(n for n in t.nodes if n.path == path).children]
                free = [x for x in logit.NAMES if x not in have]
                add(src.pick(free), path, sc)

    def op_partial(self, p):
        src = self.src
        ref = p.ref
        if ref.units is None or not ref.tree_ready():
            return
        n, m = len(ref.units), len(ref.tree.nodes)
        rows, cols = list(range(n)), list(range(m))
        if src.chance(1, 2):
            rows = src.shuffle(rows)[:src.rint(1, n)] if n < 40 else rows[::-1]
        if src.chance(1, 2):
            cols = src.shuffle(cols)[:src.rint(1, m)]
        vals = dy(np.random.RandomState(src.seed32()), (len(rows), len(cols)), -4, 5)
        vals = vals.astype('f4' if ref.precision == 4 else 'f8')
        table = pd.DataFrame(vals, index=ref.units.take(rows), columns=p.model.choices.take(cols))
        self.uni.note('partial utilities', table)
        p.model.add_partial_utilities(table, reindex_rows=True, reindex_columns=True)
        if ref.partial is None:
            ref.partial, ref.partial_units = np.zeros((n, m)), ref.units
        ref.partial[np.ix_(rows, cols)] += vals
        self.R.log(p.name, 'add_partial_utilities', rows[:8], cols)

    def make_ready(self, p, group=None):
        """Declares and assigns whatever the current expressions need."""
        ref = p.ref
        if not ref.tree_ready():
            return
        if ref.units is None:
            self.op_units(p)
        for e, _, _ in ref.exprs(group if group in ref.groups else None):
            for name in sorted(e.simple() | e.chained()):
                s = ref.scope.get(name)
                if s is None or s.gone:
                    self.declare(p, name)
                if ref.scope[name].status != 'filled':
                    self.assign(p, name)

    # ------------------------------------------------------------------------------- copies and pre-evaluation

    def op_copy(self, p):
        src = self.src
        if len(self.pairs) >= 4:
            return
        opts = {}
        for o in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities'):
            if src.chance(1, 4):
                opts[o] = False
        model = p.model.copy(**opts)
        self.same_settings(p.model, model)
        q = Pair('MNOPQRSTUVW'[len(self.pairs)], model, p.ref.partial_copy(**opts), p.nodes)
        self.pairs.append(q)
        self.R.log(q.name, '= copy of', p.name, opts)
        return q

    def same_settings(self, model, derived):
        if derived.precision != model.precision:
            raise Violation('copy', f'a copy of a model of precision {model.precision} has precision {derived.precision}')

    def op_subset(self, p):
        src = self.src
        if len(self.pairs) >= 4 or p.ref.units is None or len(p.ref.units) < 1:
            return
        n = len(p.ref.units)
        if any(s.status == 'maybe' for s in p.ref.scope.values()):
            return
        mask = np.array([src.chance(1, 2) for _ in range(n)]) if n < 40 else np.arange(n) % 3 == src.draw(3)
        if not mask.any():
            mask[src.draw(n)] = True
        m = pd.Series(mask, index=p.ref.units)
        model = p.model.copy_subset(self.uni.note('mask', m))
        self.same_settings(p.model, model)
        q = Pair('MNOPQRSTUVW'[len(self.pairs)], model, p.ref.subset(mask), p.nodes)
        self.pairs.append(q)
        self.R.log(q.name, '= subset of', p.name, mask.astype(int).tolist()[:40])
        return q

    def preval_outcome(self, ref, group, kw):
        """(expected exceptions or None, reference afterwards)"""
        from cheval.core import UtilityBoundsError
        from cheval.exceptions import ModelNotReadyError
        after = ref.copy()
        if group not in ref.groups:
            return (KeyError, ModelNotReadyError), None
        try:
            after.preval(group, kw.get('drop_group', True), kw.get('cleanup_scope', True))
        except NotReady:
            return (ModelNotReadyError,), None
        except Unsure:
            return 'unsure', None
        except Gray:
            return 'unsure', None
        except (KeyError, ValueError):
            return (KeyError, AssertionError, ValueError, TypeError, ModelNotReadyError), None
        except BadUtilities:
            return (UtilityBoundsError,), None
        return None, after

    def preval_kwargs(self):
        src = self.src
        kw = {}
        for o in ('drop_group', 'cleanup_scope'):
            if src.chance(1, 3):
                kw[o] = False
        if src.chance(1, 2):
            kw['n_threads'] = src.rint(1, 8)
        return kw

    def op_preval(self, p):
        src = self.src
        group = src.pick(list(p.ref.groups) + GROUPS[:1])
        kw = self.preval_kwargs()
        errs, after = self.preval_outcome(p.ref, group, kw)
        if errs == 'unsure':
            return
        self.R.log(p.name, 'preval', group, kw, '->', 'value' if errs is None else 'error')
        got = self.call(lambda: p.model.preval(group, **kw), 'preval')
        if errs is None:
            if got[0] == 'raised':
                raise Violation('preval fails', f'preval({group!r}) raised {got[1]!r}') from got[1]
            p.ref = after
            self.R.probe('groups pre-evaluated')
        elif got[0] != 'raised':
            raise Violation('no error', f'preval({group!r}) went through; expected {[x.__name__ for x in errs]}')
        elif not isinstance(got[1], errs):
            raise Violation('wrong error', f'preval({group!r}) raised {got[1]!r}') from got[1]

    # -------------------------------------------------------------------------------------------- refused edits

    def op_refused(self, p, kind=None):
        """An edit that must be refused. Returns False if it does not apply here."""
        src = self.src
        m, ref = p.model, p.ref
        kind = kind or src.pick(['syntax', 'mixed', 'group', 'batch', 'name', 'scale', 'reserved', 'orientation', 'precision',
                                 'assign', 'units', 'partial', 'mask', 'nogroup', 'logsum', 'names', 'assign', 'mixed', 'partial',
                                 'name', 'scale'])
        used_simple, used_chained = set(), set()
        for e, _, _ in ref.exprs():
            used_simple |= e.simple()
            used_chained |= e.chained()
        fn = None
        if kind in ('syntax', 'group', 'batch'):
            nm = src.pick(['k1', 'v1', 'm1', 'newname'])
            tb = src.pick(['hh.age', 'pt.x', 'pt1.cost', 'other.col'])
            odd = src.pick(['pt', 'hh', 'pt1', 'zzz'])    # a table name used as a simple one, and the reverse
            odd2 = src.pick(['k1.age', 'v2.x', 'm2.y.z'])
            text = src.pick([f'{nm} + nofunc(2)', f'{tb} + nofunc({nm})', f'{nm}[0]', f'[{nm}]', f'{nm} @ a @ b', f'{odd} + {tb} + foo(1)',
                             f'{nm} +', f'{nm} if {tb} else 2', f'{tb} + {odd2} + foo(1)', f'{{a: {nm}}}', f'{nm} + {{a: "t"}}',
                             f'{odd} * 2 + foo({odd2})', f'{odd2} + {nm}[1]', 'hh.persons.sumx(inc)', f'{odd} + {odd}.z',
                             f'{nm} + hh.persons.sum(inc, axis=1)', 'hh.persons.sum()', f'{nm} + foo({tb}).bar',
                             f'{nm} + {{1: 2}}', f'{tb} + {odd}.sum(x) + {nm}.y + {nm}', f'~{nm}', f'+{nm} + {tb}',
                             f'[{nm} for {nm} in {odd}]', f'{nm} + {{a.b(): 1}}', f'{tb} + lookup.a.b[1].count({nm})', '',
                             f'{nm} + ({tb}', f'{odd}.y + {nm} @ A @ B', f'{{a: 1, b: {tb}}} + {nm}', f'{nm} = 2'])
            if kind == 'syntax':
                fn = lambda: m.expressions.append(text)
            elif kind == 'group':
                g = src.pick(GROUPS + ['fresh'])
                fn = lambda: m.expressions.append(text, group=g)
            else:
                good = self.gen(p).expression()[2]

                def fn():
                    m.expressions = [text, good]
            what = text
        elif kind == 'mixed':
            cands = [f'{t} + newname' for t in sorted(used_chained)] + [f'{s}.col + newname' for s in sorted(used_simple)] +                     [f'other.col + {t}' for t in sorted(used_chained)]
            if not cands:
                return False
            text = what = src.pick(cands)
            g = src.pick([None] + GROUPS)
            fn = lambda: m.expressions.append(text, group=g)
        elif kind in ('name', 'scale'):
            have = [n.path for n in ref.tree.nodes]
            at = src.pick([None] + [x for x in have if len(x) < 3])
            if len(self.pairs) > 1:
                return False
            if kind == 'name':
                name, sc = src.pick(['_', 'a.b', 'x.']), 1.0
            else:
                existing = [x[-1] for x in have if (x[:-1] or None) == at]
                name = src.pick(existing + ['fresh'])
                sc = src.pick([0, 1.5, -1, 0.0, 2])
            what = (at, name, sc)
            if at is None:
                fn = lambda: m.add_choice(name, logsum_scale=sc)
            else:
                fn = lambda: p.nodes[at].add_choice(name, logsum_scale=sc)
        elif kind == 'names':
            bad = src.pick(['_', 'p.q'])
            what = bad
            fn = (lambda: m.add_choices([bad, 'fresh'])) if src.chance(1, 2) else (lambda: m.add_choices(['fresh'], [0]))
        elif kind == 'logsum':
            nd = src.pick(ref.tree.nodes)
            v = src.pick([0, 1.01, -0.5])
            what = (nd.path, v)

            def fn():
                p.nodes[nd.path].logsum_scale = v
        elif kind == 'reserved':
            nm = src.pick(['NAN', 'OUT', 'NEG_INF'])
            what = nm
            fn = src.pick([lambda: m.declare_number(nm), lambda: m.declare_vector(nm, 0), lambda: m.declare_table(nm, 0),
                           lambda: m.declare_matrix(nm)])
        elif kind == 'orientation':
            nm = src.pick(['v1', 'hh', 'm1', 'w1'])
            o = src.pick([2, -1, 5])
            what = (nm, o)
            fn = src.pick([lambda: m.declare_vector(nm, o), lambda: m.declare_table(nm, o), lambda: m.declare_matrix(nm, o)])
        elif kind == 'precision':
            v = src.pick([5, 0, 16, 2, -8])
            what = v

            def fn():
                m.precision = v
        elif kind == 'units':
            v = src.pick([5, 2.5])
            what = v

            def fn():
                m.decision_units = v
        elif kind == 'nogroup':
            what = ''
            fn = src.pick([lambda: m.expressions.drop_group('nogroup'), lambda: m.preval('nogroup'),
                           lambda: m.run_stochastic(group='nogroup'), lambda: m.expressions.get_group('nogroup'),
                           lambda: m['nosymbol'].assign(1)])
        elif kind == 'mask':
            if ref.units is None:
                return False
            n = len(ref.units)
            bad = pd.Series([True] * (n + 1), index=range(1000, 1001 + n))
            what = ''
            fn = lambda: m.copy_subset(bad)
        elif kind == 'partial':
            if ref.units is None or not ref.tree_ready():
                return False
            n, k = len(ref.units), len(ref.tree.nodes)
            units, labels = ref.units, m.choices
            dt = 'f4' if ref.precision == 4 else 'f8'
            which = src.pick(['rows', 'cols', 'subset'])
            what = which
            if which == 'rows':
                t = pd.DataFrame(np.ones((1, k), dtype=dt), index=['no such unit'], columns=labels)
                fn = lambda: m.add_partial_utilities(t, reindex_rows=True)
            elif which == 'cols':
                t = pd.DataFrame(np.ones((n, 2), dtype=dt), index=units, columns=['no such', 'choice'])
                fn = lambda: m.add_partial_utilities(t)
            else:
                t = pd.DataFrame(np.ones((n, k - 1), dtype=dt), index=units, columns=labels[1:])
                fn = lambda: m.add_partial_utilities(t, reindex_columns=False)
        elif kind == 'assign':
            names = self.assignable(p)
            if not names or ref.units is None:
                return False
            name = src.pick(names)
            bad, what = self.bad_data(p, name)
            if bad is None:
                return False
            what = (name, what)
            fn = lambda: m[name].assign(bad)
        got = self.call(fn, kind)
        self.R.log(p.name, 'refused edit', kind, what, '->', got[0])
        if got[0] != 'raised':
            raise Violation('accepted', f'{kind} {what!r} was accepted')
        self.R.fault('refused edit: ' + kind)
        return True

    def bad_data(self, p, name):
        """(data that does not fit, description) or (None, None)"""
        src = self.src
        ref = p.ref
        s = ref.scope[name]
        units, labels = ref.units, p.model.choices
        n, k = len(units), len(labels)
        if s.kind == 'number':
            return src.pick([('abc', 'text'), (None, 'nothing'), ([1, 2], 'a list')])
        axis = units if s.orient == 0 else labels
        size = len(axis)
        other = pd.Index([f'q{j}' for j in range(size)])
        kinds = ['length', 'index', 'type', 'shape'] + (['order'] if size > 1 else [])
        kind = src.pick(kinds)
        vals = np.ones(size + 1)
        if s.kind == 'vector':
            if kind == 'length':
                return src.pick([(vals, 'too long'), (vals[:size - 1], 'too short')])
            if kind == 'index':
                return pd.Series(vals[:size], index=other), 'other labels'
            if kind == 'order':
                return pd.Series(vals[:size], index=axis[::-1]), 'other order'
            if kind == 'shape':
                return np.ones((size, 1)) if size != 1 or True else None, 'two dimensions'
            return src.pick([(list(vals[:size]), 'a list'), (pd.DataFrame(index=axis), 'a frame'), (3.0, 'a number'),
                             (pd.Series(pd.to_datetime(['2020-01-01'] * size), index=axis), 'dates')])
        if s.kind == 'table':
            cols = {c: 1.0 for c in ('age', 'n', 'kind', 'x', 'y', 's', 'cost', 'q')}
            if kind in ('length', 'index'):
                return pd.DataFrame(cols, index=other), 'other labels'
            if kind == 'order':
                return pd.DataFrame(cols, index=axis[::-1]), 'other order'
            if s.params['mand'] and src.chance(1, 2):
                gone = src.pick(sorted(s.params['mand']))
                return pd.DataFrame({c: v for c, v in cols.items() if c != gone}, index=axis), f'no {gone}'
            if not s.params['links'] and src.chance(2, 3):
                from cheval import LinkedDataFrame
                return LinkedDataFrame(cols, index=axis), 'a linked frame'
            return src.pick([(vals, 'an array'), (pd.Series(vals[:size], index=axis), 'a series'), ({'a': 1}, 'a dict')])
        if s.kind == 'matrix':
            if kind in ('length', 'index'):
                f = pd.DataFrame(np.ones((n, k)), index=pd.Index([f'q{j}' for j in range(n)]), columns=labels)
                d = 'unknown units'
            elif kind == 'order':
                f = pd.DataFrame(np.ones((n, 2)), index=units, columns=['no such', 'choice'])
                d = 'unknown choices'
            elif kind == 'shape' and not s.params['cols'] and k > 2:
                f, d = pd.DataFrame(np.ones((n, k - 1)), index=units, columns=labels[1:]), 'fewer choices than allowed'
            elif kind == 'shape' and not s.params['rows'] and n > 1:
                f, d = pd.DataFrame(np.ones((n - 1, k)), index=units[1:], columns=labels), 'fewer units than allowed'
            else:
                return src.pick([(np.ones((n, k)), 'an array')] + ([] if s.orient else [('text', 'text')]))
            return (f.T if s.orient == 1 else f), d
        return None, None

    # ------------------------------------------------------------------------------------------------ running

    def expectation(self, p, group=None, check=True, scale=True):
        """('value', util) | ('error', exceptions) | ('either', util, exceptions) | ('any',)"""
        from cheval.core import UtilityBoundsError
        from cheval.exceptions import ModelNotReadyError
        ref = p.ref
        if group is not None and group not in ref.groups:
            # the tree and units are checked as well; either report is right
            return ('error', (KeyError, ModelNotReadyError))
        exprs = ref.exprs(group)
        unsure = False
        try:
            ref.check_ready(exprs)
        except NotReady:
            return ('error', (ModelNotReadyError,))
        except Unsure:
            unsure = True
        if unsure and any(s.status == 'maybe' and s.data is None for s in ref.scope.values()):
            return ('error', (ModelNotReadyError,))
        try:
            util = ref.utilities(exprs)
        except Gray:
            return ('any',)
        except (KeyError, ValueError):
            return ('error', (KeyError, AssertionError, ModelNotReadyError, ValueError, TypeError))
        errs = None
        if np.isnan(util).any() or (util == np.inf).any():
            errs = True
        else:
            probs, top, terms = logit.reference(ref.tree, util, scale)
            big = 1e32 if ref.precision == 4 else 1e280
            tiny = 1e-32 if ref.precision == 4 else 1e-280
            if (top == np.inf).any() or (terms == np.inf).any() or np.isnan(top).any():
                errs = True
            elif (top > big).any() or (terms > big).any() or ((top < tiny) & (top > 0)).any():
                return ('any',)
            elif self.underflows(ref, util, scale):
                return ('any',)
            elif (top == 0).any():
                errs = True if check else None
        if errs:
            return ('error', (UtilityBoundsError,) + ((ModelNotReadyError,) if unsure else ()))
        if unsure:
            return ('either', util, (ModelNotReadyError,))
        return ('value', util)

    def underflows(self, ref, util, scale):
        """True if some nest underflows although it has feasible children: not a matter of this property."""
        fin = np.isfinite(util)
        lim = 80 if ref.precision == 4 else 650
        low = fin & (util < -lim * min([n.scale for n in ref.tree.nodes] + [1.0]))
        return bool(low.any())

    def run_kwargs(self, p):
        src = self.src
        kw = {}
        if src.chance(1, 2):
            kw['clear_scope'] = src.chance(1, 2)
        if src.chance(1, 2):
            kw['n_threads'] = src.rint(1, 8)
        if src.chance(1, 4):
            kw['scale_utilities'] = False
        return kw

    def call(self, fn, where):
        try:
            return ('value', fn())
        except Exception as e:
            return ('raised', e)

    def op_run(self, p, group='draw', kw=None, kind=None):
        src = self.src
        kw = dict(self.run_kwargs(p) if kw is None else kw)
        kind = kind or src.weighted([(3, 'stochastic'), (1, 'discrete')])
        if group == 'draw':
            group = src.pick(GROUPS) if kind == 'stochastic' and src.chance(1, 4) else None
        check = True
        if kind == 'stochastic':
            if group is not None:
                kw['group'] = group
            if src.chance(1, 3):
                kw['check_infeasible'] = check = False
        else:
            kw['n_draws'] = src.weighted([(3, 1), (1, 3)])
            kw['random_seed'] = src.draw(1000)
            kw['astype'] = src.pick(['category', 'index', 'object'])
        used = dict(kw)
        if kind == 'discrete' and src.chance(1, 3):     # the documented defaults
            for name, value in (('n_draws', 1), ('astype', 'category')):
                if used[name] == value:
                    del used[name]
        exp = self.expectation(p, group, check, kw.get('scale_utilities', True))
        model = p.model
        self.R.log(p.name, 'run', kind, {k: v for k, v in kw.items() if k != 'logger'}, '->', exp[0])
        calls = world.SEAMS.ne_calls
        got = self.call(lambda: (model.run_stochastic if kind == 'stochastic' else model.run_discrete)(**used), kind)
        from cheval.exceptions import ModelNotReadyError
        if exp[0] == 'error' and exp[1] == (ModelNotReadyError,) and world.SEAMS.ne_calls != calls and not threaded():
            raise Violation('computed before refusing', 'expressions were evaluated although the model was not ready')
        self.judge(p, kind, exp, got, kw)
        return exp, got

    def judge(self, p, kind, exp, got, kw):
        ref = p.ref
        R = self.R
        R.step()
        cleared = kw.get('clear_scope', True)
        if got[0] == 'raised':
            e = got[1]
            if exp[0] == 'value':
                raise Violation('run fails', f'{kind} run failed with {e!r} although everything it needs is there') from e
            if exp[0] in ('error', 'either') and not isinstance(e, exp[-1]):
                raise Violation('wrong error', f'{kind} run raised {e!r}; expected {[x.__name__ for x in exp[-1]]}') from e
            R.probe('runs refused')
            from cheval.exceptions import ModelNotReadyError
            if cleared and not isinstance(e, (ModelNotReadyError, KeyError)):
                p.model.clear_scope()      # the failed run may or may not have released the data
                ref.scope.clear()
            return
        if exp[0] == 'error':
            raise Violation('no error', f'{kind} run returned a result; expected {[x.__name__ for x in exp[1]]}')
        if exp[0] in ('value', 'either'):
            R.probe('runs compared')
            if kind == 'stochastic':
                self.compare_stochastic(p, got[1], exp[1], kw.get('scale_utilities', True))
            else:
                self.compare_discrete(p, got[1], exp[1], kw)
        if cleared:
            ref.scope.clear()
        self.keep_result(p, kind, got[1])

    def keep_result(self, p, kind, res):
        """What was returned before stays as it was."""
        if threaded():
            return
        for name, k, obj, shot in self.kept:
            if [fingerprint(x) for x in obj] != shot:
                raise Violation('earlier result', f'the result of an earlier {k} run of {name} has changed')
        if sum(x.size for x in res) < 2000:
            self.kept = self.kept[-2:] + [(p.name, kind, res, [fingerprint(x) for x in res])]

    def compare_stochastic(self, p, res, util, scale):
        ref = p.ref
        compare_stochastic(res, ref.tree, ref.units, util, 4 if ref.loose else 8, scale)

    def compare_discrete(self, p, res, util, kw):
        ref = p.ref
        tree = ref.tree
        draws, ls = res
        probs, top, _ = logit.reference(tree, util, kw.get('scale_utilities', True))
        if not draws.index.equals(ref.units) or not ls.index.equals(ref.units):
            raise Violation('labels', 'the discrete result is not indexed by the decision units')
        rtol = 4e-4 if ref.loose else 1e-9
        if not np.allclose(ls.to_numpy(), top, rtol=rtol, atol=0):
            raise Violation('logsum', f'{ls.to_numpy()} instead of {top}')
        arr = np.asarray(draws.astype(object) if kw['astype'] != 'index' else draws).reshape(len(ref.units), -1)
        if arr.shape[1] != kw['n_draws']:
            raise Violation('shape', f'{arr.shape[1]} draws instead of {kw["n_draws"]}')
        single = kw['n_draws'] == 1
        r = None
        if single:
            r = np.random.RandomState(kw['random_seed']).uniform(np.finfo('f8').tiny, 1, len(arr))
        cum = np.cumsum(probs, axis=1)
        names = [n.name for n in tree.nodes]
        tol = 1e-4 if ref.loose else 1e-9
        for k in range(len(arr)):
            for x in arr[k]:
                cand = [int(x)] if kw['astype'] == 'index' else [j for j, nm in enumerate(names) if nm == x]
                if not cand or any(not 0 <= j < len(names) for j in cand):
                    raise Violation('unknown alternative', repr(x))
                if max(probs[k, j] for j in cand) <= 0:
                    raise Violation('impossible draw', f'unit {ref.units[k]!r} drew {x!r} with probability 0')
                if r is not None and not any((cum[k, j - 1] if j else 0) - tol <= r[k] <= cum[k, j] + tol for j in cand):
                    raise Violation('draw', f'unit {ref.units[k]!r} drew {x!r} for the uniform number {r[k]!r}; '
                                    f'cumulative probabilities {cum[k].tolist()}')


def compare_stochastic(res, tree, units, util, precision, scale):
    probs, top, terms = res
    ref_p, ref_top, ref_terms = logit.reference(tree, util, scale)
    el, labels = tree.elemental(), tree.labels()
    if not probs.index.equals(units) or not top.index.equals(units) or not terms.index.equals(units):
        raise Violation('labels', 'the result is not indexed by the decision units')
    if list(probs.columns) != [labels[k] for k in el] or list(terms.columns) != labels:
        raise Violation('labels', f'columns {list(probs.columns)} / {list(terms.columns)} for {labels}')
    rtol, atol = (4e-4, 1e-5) if precision == 4 else (1e-8, 1e-11)
    for what, got, want in (('logsum terms', terms.to_numpy(), ref_terms), ('top logsum', top.to_numpy(), ref_top),
                            ('probabilities', probs.to_numpy(), ref_p[:, el])):
        bad = ~np.isclose(got, want, rtol=rtol, atol=atol if what == 'probabilities' else 0)
        if what != 'probabilities':
            tiny = 1e-30 if precision == 4 else 1e-280
            bad &= ~((np.abs(got) < tiny) & (np.abs(want) < tiny))
        if bad.any():
            where = tuple(int(x) for x in np.argwhere(bad)[0])
            lab = labels[where[1]] if len(where) == 2 and what == 'logsum terms' else ''
            raise Violation('results', f'{what} of unit {units[where[0]]!r} {lab}: {got[where]!r}, the reference gives '
                            f'{want[where]!r}')


def same_results(a, b):
    """Bit-equality of two results of runs."""
    for x, y in zip(a, b):
        if isinstance(x, pd.DataFrame) != isinstance(y, pd.DataFrame):
            return False
        if not x.index.equals(y.index):
            return False
        if isinstance(x, pd.DataFrame) and list(x.columns) != list(y.columns):
            return False
        if list(map(repr, np.asarray(x.astype(object)).ravel())) != list(map(repr, np.asarray(y.astype(object)).ravel())):
            return False
    return True

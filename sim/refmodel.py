"""An executable reference of the choice model's utility side: what the documentation says, in plain numpy."""
import copy

import numpy as np

from . import logit

SIMPLE_POOL = ['k1', 'k2', 'v1', 'v2', 'w1', 'm1', 'm2']
TEXTS = ['x', 'x y', 'xy']
TABLE_POOL = ['hh', 'pt', 'pt1']


# ------------------------------------------------------------------------------------------------------ expressions

class E:
    """Expression node: text and plain-numpy evaluation."""

    __slots__ = ('op', 'args', 'text')

    def __init__(self, op, args, text):
        self.op, self.args, self.text = op, args, text

    def simple(self):
        s = {self.args[0]} if self.op == 'sym' else set()
        for a in self.args:
            if isinstance(a, E):
                s |= a.simple()
            elif isinstance(a, list):
                for b in a:
                    if isinstance(b, E):
                        s |= b.simple()
        return s

    def chained(self):
        s = {self.args[0]} if self.op in ('chain', 'agg') else set()
        for a in self.args:
            if isinstance(a, E):
                s |= a.chained()
            elif isinstance(a, list):
                for b in a:
                    if isinstance(b, E):
                        s |= b.chained()
        return s


_BIN = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide}
_CMP = {'>': np.greater, '<': np.less, '>=': np.greater_equal, '<=': np.less_equal, '==': np.equal, '!=': np.not_equal}
_FN = {'abs': np.abs, 'exp': np.exp, 'sqrt': np.sqrt, 'floor': np.floor,
       'ceil': np.ceil, 'tanh': np.tanh, 'cos': np.cos}


def evaluate(e, env):
    """env: values(name) -> array broadcastable to (n, m); chain(name, parts), agg(...), literal(dict)."""
    op, a = e.op, e.args
    if op == 'num':
        return np.float64(a[0])
    if op == 'neginf':
        return -np.inf
    if op == 'nan':
        return np.nan
    if op == 'sym':
        return env.symbol(a[0])
    if op == 'chain':
        return env.chain(a[0], a[1])
    if op == 'agg':
        return env.agg(*a)
    if op == 'dict':
        return env.literal(a[0])
    if op == 'bin':
        return _BIN[a[0]](num(evaluate(a[1], env)), num(evaluate(a[2], env)))
    if op == 'sq':
        x = num(evaluate(a[0], env))
        return x * x
    if op == 'neg':
        return -num(evaluate(a[0], env))
    if op == 'fn':
        return _FN[a[0]](num(evaluate(a[1], env)))
    if op == 'where':
        return np.where(evaluate(a[0], env), num(evaluate(a[1], env)), num(evaluate(a[2], env)))
    if op == 'cmp':
        vals = [num(evaluate(x, env)) for x in a[1]]
        r = True
        for o, l, h in zip(a[0], vals, vals[1:]):
            r = np.logical_and(r, _CMP[o](l, h))
        return r
    if op == 'streq':
        v = evaluate(a[1], env)
        return (v == a[2]) if a[0] == '==' else (v != a[2])
    if op == 'and':
        r = True
        for x in a[0]:
            r = np.logical_and(r, evaluate(x, env))
        return r
    if op == 'or':
        r = False
        for x in a[0]:
            r = np.logical_or(r, evaluate(x, env))
        return r
    if op == 'not':
        return np.logical_not(evaluate(a[0], env))
    if op == 'bool':
        return np.asarray(evaluate(a[0], env)).astype(float)
    raise AssertionError(op)


def num(x):
    x = np.asarray(x)
    return x.astype('f8') if x.dtype == bool or x.dtype.kind in 'iu' else x


# ----------------------------------------------------------------------------------------------------------- data

class RefTable:
    """A plain table with links: columns as arrays, link positions by brute force."""

    def __init__(self, n):
        self.n = n
        self.cols = {}
        self.links = {}      # name -> (kind 'one'|'many', RefTable, positions/list of positions)

    def take(self, idx):
        t = RefTable(len(idx))
        t.cols = {c: v[idx] for c, v in self.cols.items()}
        for name, (kind, other, pos) in self.links.items():
            t.links[name] = (kind, other, [pos[i] for i in idx])
        return t

    def lookup(self, parts):
        """parts: ['zone', 'region', 'area'] -> array"""
        if len(parts) == 1:
            return self.cols[parts[0]]
        kind, other, pos = self.links[parts[0]]
        assert kind == 'one'
        vals = other.lookup(parts[1:])
        fill = np.nan if vals.dtype.kind == 'f' else 0 if vals.dtype.kind in 'iu' else False if vals.dtype.kind == 'b' else ''
        out = [vals[p] if p >= 0 else fill for p in pos]
        return np.array(out, dtype=vals.dtype if vals.dtype.kind != 'O' else object)

    def aggregate(self, parts, func, col):
        """(values, fill value of rows without any match)"""
        vals, fill = self._aggregate(parts, func, col)
        return vals

    def _aggregate(self, parts, func, col):
        kind, other, pos = self.links[parts[0]]
        if len(parts) > 1:
            vals, fill = other._aggregate(parts[1:], func, col)
            return np.array([vals[p] if p >= 0 else fill for p in pos], dtype=vals.dtype), fill
        assert kind == 'many'
        vals = other.cols[col] if col in other.cols else eval(col, {}, dict(other.cols))
        f = {'sum': np.sum, 'min': np.min, 'max': np.max, 'mean': np.mean, 'count': len, 'median': np.median, 'prod': np.prod,
             'first': lambda x: x[0], 'last': lambda x: x[-1]}[func]
        isint = (vals.dtype.kind in 'iu' and func not in ('mean', 'median')) or func == 'count'
        fill = -1 if (isint or vals.dtype.kind in 'iu') else np.nan
        out = [f(vals[p]) if len(p) else fill for p in pos]
        return np.array(out, dtype='i8' if isint else 'f8'), fill


class Sym:
    __slots__ = ('kind', 'orient', 'status', 'data', 'params', 'gone')

    def __init__(self, kind, orient, params=None):
        self.kind, self.orient = kind, orient
        self.status = 'empty'          # 'filled', 'empty' or 'maybe' (may have been released; right if still there)
        self.data = None               # number: float; vector: 1-d array; matrix: (n, m); table: RefTable
        self.params = params or {}
        self.gone = False              # may even be undeclared

    def copy(self):
        s = Sym(self.kind, self.orient, dict(self.params))
        s.status, s.data, s.gone = self.status, self.data, self.gone
        return s


class NotReady(Exception):
    pass


class BadUtilities(Exception):
    pass


class Unsure(Exception):
    """The reference admits refusal as well as the right result."""


class Gray(Exception):
    """The documentation does not say what this means."""


class Env:
    def __init__(self, ref):
        self.ref = ref
        self.n, self.m = len(ref.units), len(ref.tree.nodes)

    def _sym(self, name):
        return self.ref.scope[name]

    def _orient(self, arr, orient):
        return arr.reshape(-1, 1) if orient == 0 else arr.reshape(1, -1)

    def symbol(self, name):
        s = self._sym(name)
        if s.kind == 'number':
            return np.float64(s.data)
        if s.kind == 'vector':
            return self._orient(s.data, s.orient)
        return s.data

    def chain(self, name, parts):
        s = self._sym(name)
        return self._orient(s.data.lookup(parts), s.orient)

    def agg(self, name, parts, func, col):
        s = self._sym(name)
        return self._orient(s.data.aggregate(parts, func, col), s.orient)

    def literal(self, d):
        tree = self.ref.tree
        out = np.zeros((1, self.m))
        for path, v in d:
            if path[-1] == '_':
                if tree.depth == 1:
                    raise KeyError(path)
                par = t_find(tree, path[:-1])
                if not par.children or any(c.children for c in par.children):
                    raise Gray()
                for nd in tree.nodes:
                    if nd.path[:len(path) - 1] == path[:-1] and len(nd.path) > len(path) - 1:
                        out[0, nd.pos] = v
            else:
                pos = [nd.pos for nd in tree.nodes if nd.path == path]
                if not pos:
                    raise KeyError(path)
                out[0, pos[0]] = v
        return out


class RefModel:
    def __init__(self, precision=8):
        self.tree = logit.Tree()
        self.units = None
        self.scope = {}
        self.ungrouped = []            # (expr, filter path or None, text)
        self.groups = {}
        self.partial = None
        self.partial_units = None
        self.precision = precision
        self.debug_id = None
        self.loose = precision == 4    # single precision took part

    def copy(self):
        new = RefModel(self.precision)
        new.tree = copy.deepcopy(self.tree)
        new.units = self.units
        new.scope = {k: s.copy() for k, s in self.scope.items()}
        new.ungrouped = list(self.ungrouped)
        new.groups = {g: list(v) for g, v in self.groups.items()}
        new.partial = None if self.partial is None else self.partial.copy()
        new.partial_units = self.partial_units
        new.loose = self.loose
        new.debug_id = self.debug_id
        return new

    def subset(self, mask):
        new = self.copy()
        idx = np.nonzero(mask)[0]
        new.units = self.units[idx]
        for s in new.scope.values():
            if s.data is None:
                continue
            if s.kind == 'matrix':
                s.data = s.data[idx]
            elif s.orient == 0 and s.kind == 'vector':
                s.data = s.data[idx]
            elif s.orient == 0 and s.kind == 'table':
                s.data = s.data.take(idx)
        if self.partial is not None:
            new.partial = self.partial[idx]
            new.partial_units = new.units
        if self.debug_id is not None and self.debug_id not in new.units:
            new.debug_id = None
        return new

    # ------------------------------------------------------------------ tree

    def tree_changed(self):
        self.partial = None
        for s in self.scope.values():
            if s.kind == 'matrix' or (s.kind in ('vector', 'table') and s.orient == 1):
                s.status, s.data = 'empty', None

    def add_choice(self, name, scale=1.0, parent_path=None):
        """Adds (or replaces, together with what is nested below) a choice."""
        t = self.tree
        parent = t_find(t, parent_path) if parent_path else None
        path = (parent_path or ()) + (name,)
        t.nodes = [n for n in t.nodes if n.path[:len(path)] != path]
        if parent is not None:
            parent.children = [c for c in parent.children if c.name != name]
        node = logit.Node(name, scale, parent, 0)
        t.nodes.append(node)
        if parent is not None:
            parent.children.append(node)
        for k, n in enumerate(t.nodes):
            n.pos = k
        self.tree_changed()
        return node

    def set_units(self, index):
        same = self.units is not None and self.units.equals(index)
        for s in self.scope.values():
            if s.kind == 'number':
                continue
            if s.status == 'empty':
                continue
            if same or (s.kind in ('vector', 'table') and s.orient == 1):
                s.status = 'maybe'
            else:
                s.status, s.data = 'empty', None
        if self.partial is not None and not self.partial_units.equals(index):
            self.partial = None
        self.units = index

    def partial_copy(self, decision_units=True, scope_declared=True, scope_assigned=True, expressions=True, utilities=True):
        new = self.copy()
        if not decision_units and not scope_assigned:
            new.units = None
        if not scope_assigned:
            if scope_declared:
                for s in new.scope.values():
                    s.status, s.data = 'empty', None
            else:
                new.scope = {}
        if not expressions:
            new.ungrouped, new.groups = [], {}
        if not utilities:
            new.partial = None
        return new

    def preval(self, group, drop=True, cleanup=True):
        """Raises as a run does; otherwise stores the utilities of the group with the partial utilities."""
        exprs = self.exprs(group)
        self.check_ready(exprs)
        util = self.utilities(exprs)
        if np.isnan(util).any():
            raise BadUtilities()
        self.partial, self.partial_units = util, self.units
        rest = [e for g, es in self.groups.items() if g != group for e in es] + self.ungrouped
        if cleanup:
            needed = set()
            for e, _, _ in rest:
                needed |= e.simple() | e.chained()
            for e, _, _ in exprs:
                for name in e.simple() | e.chained():
                    if name not in needed and name in self.scope:
                        self.scope[name].status = 'maybe'
                        self.scope[name].gone = True
        if drop:
            del self.groups[group]

    # -------------------------------------------------------------- running

    def tree_ready(self):
        if len(self.tree.tops) < 2:
            return False
        return all(len(n.children) != 1 for n in self.tree.nodes)

    def exprs(self, group=None):
        if group is not None:
            return list(self.groups[group])
        return list(self.ungrouped) + [e for g in self.groups.values() for e in g]

    def check_ready(self, exprs):
        """Raises NotReady, or Unsure."""
        if not self.tree_ready():
            raise NotReady('tree')
        if self.units is None:
            raise NotReady('units')
        unsure = False
        for e, _, _ in exprs:
            for name in e.simple() | e.chained():
                s = self.scope.get(name)
                if s is None or s.status == 'empty':
                    raise NotReady(name)
                if s.status == 'maybe':
                    unsure = True
        if unsure:
            raise Unsure()

    def steps(self, exprs):
        """The utility table after each expression (list), starting with the partial utilities."""
        n, m = len(self.units), len(self.tree.nodes)
        dt = np.float32 if self.precision == 4 else np.float64
        u = (np.zeros((n, m)) if self.partial is None else self.partial.copy()).astype(dt)
        out = [u]
        env = Env(self)
        with np.errstate(all='ignore'):
            for e, filt, _ in exprs:
                val = np.broadcast_to(num(evaluate(e, env)), (n, m))
                u = u.astype('f8')
                if filt is None:
                    u = u + val
                else:
                    pos = [nd.pos for nd in self.tree.nodes if nd.path == filt]
                    if not pos:
                        raise KeyError(filt)
                    u = u.copy()
                    u[:, pos[0]] = u[:, pos[0]] + val[:, pos[0]]
                u = u.astype(dt)
                out.append(u)
        return out

    def utilities(self, exprs):
        return self.steps(exprs)[-1].astype('f8')


def t_find(tree, path):
    for n in tree.nodes:
        if n.path == tuple(path):
            return n
    raise KeyError(path)


# -------------------------------------------------------------------------------------------------- generation

class Gen:
    """Draws expressions over what a universe can offer (names keep their kind of use, so that mixing them is legal)."""

    def __init__(self, src, tree, tables, simple=SIMPLE_POOL, rich=True, exp=True, bias=None):
        self.bias = bias
        self.src, self.tree, self.tables, self.simple, self.rich, self.exp = src, tree, tables, simple, rich, exp

    def sym(self):
        nm = self.src.pick(self.simple)
        return E('sym', (nm,), nm)

    def named(self, name, parts):
        return name + '.' + '.'.join(parts)

    def const(self):
        v = self.src.pick([0.5, 1, 2, 0.25, -1, 1.5, 3])
        return E('num', (v,), repr(v) if v >= 0 else f'({v!r})')

    def chain(self, kinds='if'):
        """A column lookup, possibly through links."""
        src = self.src
        name = src.pick([t for t in self.tables] or ['hh'])
        schema = self.tables[name]
        opts = [o for o in schema if o[0] == 'col' and o[2] in kinds]
        if not opts:
            return self.sym()
        _, parts, _ = src.pick(opts)
        return E('chain', (name, list(parts)), self.named(name, parts))

    def agg(self):
        src = self.src
        cands = [(t, o) for t, sch in self.tables.items() for o in sch if o[0] == 'agg']
        if not cands:
            return self.chain()
        name, (_, parts, col) = src.pick(cands)
        func = src.pick(['sum', 'count', 'max', 'min', 'mean', 'first', 'last', 'sum', 'count', 'median', 'prod'])
        if src.chance(1, 3):
            col = src.pick([f'{col} * 2', f'{col} + 1', f'-{col}', f'({col} > 0) * {col}' if func != 'count' else f'{col} - 1'])
        return E('agg', (name, list(parts), func, col), f'{self.named(name, parts)}.{func}({col})')

    def leaf(self, exact=False):
        src = self.src
        k = src.draw(8)
        if self.bias in ('sym', 'chain', 'agg') and src.chance(1, 2):
            k = {'sym': 0, 'chain': 4, 'agg': 7}[self.bias]
        if k <= 3 or (not self.tables and k < 6):
            return self.sym()
        if k <= 5 and self.tables:
            return self.chain()
        if k == 6:
            return self.sym() if exact else self.const()
        if not self.tables or exact:
            return self.sym()
        return self.agg()

    def cond(self, depth=0):
        src = self.src
        k = src.weighted([(5, 'cmp'), (1, 'chain'), (2, 'str'), (2, 'and'), (1, 'or'), (1, 'not'),
                          (1, 'flag')]) if depth < 2 else 'cmp'
        if k == 'flag':
            cands = [(t, o) for t, sch in self.tables.items() for o in sch if o[0] == 'col' and o[2] == 'b']
            if cands:
                name, (_, parts, _) = src.pick(cands)
                return E('chain', (name, list(parts)), self.named(name, parts))
            k = 'cmp'
        if k == 'str':
            cands = [(t, o) for t, sch in self.tables.items() for o in sch if o[0] == 'col' and o[2] == 's']
            if not cands:
                k = 'cmp'
            else:
                name, (_, parts, _) = src.pick(cands)
                op = src.pick(['==', '!='])
                txt = src.pick(TEXTS)
                c = E('chain', (name, list(parts)), self.named(name, parts))
                return E('streq', (op, c, txt), f"({c.text} {op} '{txt}')")
        if k == 'cmp':
            a, b = self.leaf(True), (self.leaf(True) if src.chance(1, 2) else self.const())
            if src.chance(1, 4):
                c = self.leaf(True)
                a = E('bin', ('+', a, c), f'({a.text} + {c.text})')
            op = src.pick(list(_CMP))
            return E('cmp', ([op], [a, b]), f'({a.text} {op} {b.text})')
        if k == 'chain':
            xs = [self.leaf(True) for _ in range(3 + src.draw(2))]
            ops = [src.pick(['<', '<=', '>', '>=', '!=', '==']) for _ in xs[1:]]
            return E('cmp', (ops, xs), '(' + xs[0].text + ''.join(f' {o} {x.text}' for o, x in zip(ops, xs[1:])) + ')')
        if k == 'not':
            x = self.cond(depth + 1)
            return E('not', (x,), f'(not {x.text})')
        xs = [self.cond(depth + 1) for _ in range(2 + src.draw(2))]
        return E(k, (xs,), '(' + f' {k} '.join(x.text for x in xs) + ')')

    def literal(self):
        src = self.src
        t = self.tree
        depth = t.depth
        items, seen = [], set()
        for _ in range(1 + src.draw(3)):
            nd = src.pick(t.nodes)
            path = nd.path
            if depth > 1 and nd.children and all(not c.children for c in nd.children) and src.chance(1, 2):
                path = path + ('_',)
            if path in seen:
                continue
            seen.add(path)
            items.append((path, src.num(-2, 2, 0.5) if src.chance(2, 3) else src.num(-2, 2, 0.1)))
        # Children named one by one must come after the ones named together, as later entries prevail
        text = ', '.join((f"'{p[0]}'" if len(p) == 1 and src.chance(1, 2) else '.'.join(p)) + f': {v!r}' for p, v in items)
        return E('dict', (items,), '{' + text + '}')

    def value(self, depth=0):
        src = self.src
        more = 12 if self.bias == 'dict' else 0, 8 if self.bias == 'where' else 0
        k = src.weighted([(6, 'leaf'), (5, 'bin'), (2 + more[1], 'where'), (1, 'neg'), (1, 'fn'), (2 + more[0], 'dict'), (1, 'sq'),
                          (1, 'bool')]) if depth < 2 else 'leaf'
        if k == 'leaf' and self.bias == 'dict' and src.chance(1, 2):
            k = 'dict'
        if not self.rich and k in ('fn', 'sq', 'bool'):
            k = 'leaf'
        if k == 'leaf':
            return self.leaf()
        if k == 'dict':
            return self.literal()
        if k == 'bin':
            op = src.pick(['+', '*', '-', '+', '*', '/'])
            a = self.value(depth + 1)
            if op == '/':
                b = src.pick([2, 4, 0.5])
                b = E('num', (b,), repr(b))
            else:
                b = self.value(depth + 1)
            return E('bin', (op, a, b), f'({a.text} {op} {b.text})')
        if k == 'where':
            c, a = self.cond(), self.value(depth + 1)
            b = self.value(depth + 1) if not src.chance(1, 4) else E('neginf', (), 'NEG_INF')
            if b.op == 'neginf' and not src.chance(1, 2):
                b = E('nan', (), src.pick(['nan', 'NaN', 'NAN', 'None'])) if src.chance(1, 6) else self.const()
            return E('where', (c, a, b), f'where({c.text}, {a.text}, {b.text})')
        if k == 'neg':
            a = self.value(depth + 1)
            return E('neg', (a,), f'(-{a.text})')
        if k == 'sq':
            a = self.leaf(True)
            return E('sq', (a,), f'({a.text} ** 2)')
        if k == 'bool':
            c = self.cond()
            b = self.const()
            z = E('bool', (c,), c.text)
            return E('bin', ('*', z, b), f'({c.text} * {b.text})')
        fn = src.pick(['abs', 'exp', 'floor', 'tanh', 'ceil', 'cos'] if self.exp else ['abs', 'floor', 'ceil'])
        a = self.leaf(True)
        return E('fn', (fn, a), f'{fn}({a.text})')

    def wide(self):
        """A sum of many lookups (of tables with similar names)"""
        src = self.src
        one, two = src.shuffle(['pt', 'pt1'])
        names = [one] * (10 + src.draw(4)) + [two] * (1 + src.draw(3))
        e = None
        for name in (src.shuffle(names) if src.chance(1, 2) else names):
            opts = [o for o in self.tables[name] if o[0] == 'col' and o[2] in 'fi']
            _, parts, _ = src.pick(opts)
            c = E('chain', (name, list(parts)), self.named(name, parts))
            op = src.pick('+-')
            e = c if e is None else E('bin', (op, e, c), f'{e.text} {op} {c.text}')
        return E('bin', ('/', e, E('num', (8,), '8')), f'({e.text}) / 8')

    def expression(self):
        """(expr, filter path, text)"""
        src = self.src
        e = self.wide() if self.rich and 'pt' in self.tables and src.chance(1, 25) else self.value()
        text = e.text
        if text.startswith('(') and text.endswith(')') and balanced(text[1:-1]) and src.chance(1, 2):
            text = text[1:-1]
        filt = None
        if src.chance(1, 4):
            nd = src.pick(self.tree.nodes)
            filt = nd.path
            text = text + src.pick([' @ ', '@', '  @']) + '.'.join(filt)
        return e, filt, text


def balanced(t):
    d = 0
    for ch in t:
        d += (ch == '(') - (ch == ')')
        if d < 0:
            return False
    return d == 0

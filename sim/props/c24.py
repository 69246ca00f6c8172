"""C24: expressions over linked frames give every row the value of its own operands."""
import numpy as np
import pandas as pd

from .. import mm, world
from ..engine import Violation
from ..refmodel import E, Gen, evaluate, num
from .c08 import schedule
from .faults import interrupted

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 14000}, 'thorough': {'nojit': 250000}}
RULE = ('Each run draws linked tables and a history of derivations, edits of values, refreshes, failing, interrupted and refused '
        'evaluations; every evaluation (in drawn blocks and order) is compared with plain arithmetic per row.')
REAL = 'cheval.ldf, cheval.parsing, pandas, numpy, numexpr kernels'
STUBS = 'numexpr division into blocks and its thread pool; numba compilation (the linked frames do not use it)'
STATE_MEASURE = ('distinct (kinds of operands in the expression, derivation of the frame, rows bucket, divided evaluation?, outcome of '
                 'the previous evaluation)')
ASSUMPTIONS = ['local values have names of their own', 'row operations of pandas are trusted']

LOCALS = ['loc1', 'loc2', 'arr1', 'ser1']


class FrameEnv:
    def __init__(self, ref, local):
        self.ref, self.local = ref, local

    def symbol(self, name):
        return self.local[name]

    def chain(self, name, parts):
        return self.ref.lookup(parts)

    def agg(self, name, parts, func, col):
        return self.ref.aggregate(parts, func, col)


class FrameGen(Gen):
    """Expressions which begin at the frame itself."""

    def __init__(self, src, schema, local, bias=None):
        super().__init__(src, None, {'self': schema}, simple=local, bias=bias)

    def sym(self):
        return super().sym() if self.simple else self.chain()

    def named(self, name, parts):
        return '.'.join(parts)

    def literal(self):
        return self.leaf()


class Frame:
    def __init__(self, name, df, ref, schema, how):
        self.name, self.df, self.ref, self.schema, self.how, self.last = name, df, ref, schema, how, None


def kinds_of(e, out):
    out.add(e.op)
    for a in e.args:
        for b in a if isinstance(a, list) else [a]:
            if isinstance(b, E):
                kinds_of(b, out)
    return out


def has_rows(e):
    if e.op in ('chain', 'agg') or (e.op == 'sym' and e.args[0] in ('arr1', 'ser1')):
        return True
    return any(has_rows(b) for a in e.args for b in (a if isinstance(a, list) else [a]) if isinstance(b, E))


class Machine:
    def __init__(self, R):
        src = R.src
        self.R, self.src = R, src
        self.uni = mm.Universe(R)
        world.divide_evaluations(R)
        n = src.rint(1, 7) if not src.chance(1, 30) else src.rint(300, 900)
        labels = src.pick(['int', 'text', 'two'])
        rows = src.shuffle(list(range(n))) if n < 50 else list(range(n))
        index = {'int': lambda: pd.Index([100 + 3 * k for k in rows], name=src.pick([None, 'hhid'])),
                 'text': lambda: pd.Index([f'h{k}' for k in rows], name='hhid'),
                 'two': lambda: pd.MultiIndex.from_arrays([[k // 2 for k in rows], [f'p{k}' for k in rows]], names=['a', 'b'])}[labels]()
        df, ref = self.uni.table('hh', index)
        schema = self.uni.schema()['hh']
        self.frames = [Frame('H', df, ref, schema, 'made')]
        if self.uni.linked and self.uni.zone_ldf and src.chance(1, 2):
            zs = [(k, tuple(p[1:]), x) for k, p, x in schema if p[0] == 'zone' and len(p) > 1]
            zref = ref.links['zone'][1]
            self.frames.append(Frame('Z', df.get_link_target('zone'), zref, zs, 'made'))
        self.rs = np.random.RandomState(src.seed32())
        self.kept = []
        self.bias = src.pick([None, None, 'chain', 'agg', 'where'])
        R.log('frame', (n,), labels, [f'{k}:{".".join(p)}:{x}' for k, p, x in schema])

    # ---------------------------------------------------------------- operands

    def locals(self, fr):
        src, n = self.src, fr.ref.n
        names = [x for x in LOCALS if src.chance(1, 3)]
        real, plain = {}, {}
        for x in names:
            if x.startswith('loc'):
                real[x] = plain[x] = src.num(-2, 2, 0.25)
                if src.chance(1, 3):
                    real[x] = np.float64(plain[x])
            else:
                plain[x] = mm.dy(self.rs, n)
                real[x] = plain[x].copy() if x == 'arr1' else pd.Series(plain[x].copy(), index=fr.df.index)
        return real, plain

    def expression(self, fr, plain):
        g = FrameGen(self.src, fr.schema, list(plain), self.bias)
        e = g.value() if not self.src.chance(1, 6) else g.cond()
        return e

    # --------------------------------------------------------------------- ops

    def op_evaluate(self, fr):
        src, R = self.src, self.R
        real, plain = self.locals(fr)
        e = self.expression(fr, plain)
        if not has_rows(e):
            R.skipped = True
            return
        text = e.text
        if src.chance(1, 3):
            text = src.pick([' ', '']) + text + src.pick(['  ', ''])
            text = text.strip()
        with np.errstate(all='ignore'):
            want = np.broadcast_to(num(evaluate(e, FrameEnv(fr.ref, plain))), (fr.ref.n,)).astype('f8')
        kw = {}
        if real or src.chance(1, 3):
            kw['local_dict'] = real
        out = None
        if src.chance(1, 5):
            out = kw['out'] = pd.Series(np.full(fr.ref.n, 9.5), index=fr.df.index)
        before = set(real)
        fault = src.chance(1, 6)
        R.log(fr.name, 'evaluate', repr(text), 'local' if real else '', 'out' if out is not None else '')
        R.step()
        R.state(tuple(sorted(kinds_of(e, set()))), fr.how, min(fr.ref.n, 3), fr.last)
        if fault:
            failed, got = interrupted(R, 'an evaluation', lambda: fr.df.evaluate(text, **kw), engine=True)
            fr.last = 'failed'
            if failed:
                if src.chance(1, 2):
                    return
                R.log('again')
                got = fr.df.evaluate(text, **kw)
        else:
            got = fr.df.evaluate(text, **kw)
        fr.last = 'value'
        self.judge(fr, text, got, want)
        if out is not None:
            if not np.array_equal(out.to_numpy(), got.to_numpy('f8'), equal_nan=True):
                raise Violation('out', f'{text}: {out.tolist()} in the given series, {got.tolist()} returned')
        if set(real) != before:
            raise Violation('local values', f'{text} left {set(real) - before} among the given local values')
        for name, t, obj, vals in self.kept:
            if not np.array_equal(obj.to_numpy('f8'), vals, equal_nan=True):
                raise Violation('earlier result', f'the result of {t} over {name} has changed to {obj.tolist()}')
        if out is None:
            self.kept = self.kept[-3:] + [(fr.name, text, got, got.to_numpy('f8', copy=True))]
        R.probe('evaluations compared')
        R.nontrivial = True

    def judge(self, fr, text, got, want):
        if not isinstance(got, pd.Series) or not got.index.equals(fr.df.index) or list(got.index.names) != list(fr.df.index.names):
            raise Violation('labels', f'{text} is not labelled like the frame')
        vals = got.to_numpy('f8')
        if not np.allclose(vals, want, rtol=1e-8, atol=1e-10, equal_nan=True):
            k = int(np.nonzero(~np.isclose(vals, want, rtol=1e-8, atol=1e-10, equal_nan=True))[0][0])
            raise Violation('value', f'{fr.name} ({fr.how}), {text}: {vals[k]!r} for row {fr.df.index[k]!r}; it should be {want[k]!r}')

    def op_refused(self, fr):
        src = self.src
        text = src.pick(['nothing + 1', 'where(nothing > 0, 1, 2)', 'nolink.x', 'n +', 'n @ a @ b', '{a: 1}', 'nofunc(n)', 'n[0]',
                         'age.sum(n)', 'persons.sum(nothing)', 'zone.nothing + 1', 'zone.area + nothing'])
        if fr.name[0] == 'Z':
            text = src.pick(['nothing + q', 'area.sum(q)', 'firms.sum(nothing)', 'region.nothing'])
        self.R.log(fr.name, 'refused', text)
        self.R.fault('refused evaluation')
        try:
            fr.df.evaluate(text)
        except Exception:
            fr.last = 'refused'
            return
        raise Violation('no error', f'{text} was evaluated')

    def op_derive(self, fr):
        src, df, n = self.src, fr.df, fr.ref.n
        if len(self.frames) > 5:
            self.frames.pop(1 + src.draw(len(self.frames) - 1))
        mask = self.rs.randint(0, 2, n).astype(bool)
        some = self.rs.randint(0, n, src.rint(1, 2 * n if n < 50 else n)) if n else np.array([], dtype=int)
        a, b = sorted((src.draw(n + 1), src.draw(n + 1)))
        how = src.pick(['mask', 'loc mask', 'iloc', 'slice', 'head', 'tail', 'sample', 'sort_values', 'sort_index', 'copy', 'take', 'assign', 'loc',
                        'reset_index', 'drop', 'query', 'groupby', 'rename', 'concat', 'astype'])
        col = 'age' if fr.name[0] != 'Z' else 'area'
        work, rid = df.copy(), np.arange(n)
        r2, idx = None, None
        if how == 'mask':
            new, idx = df[mask], rid[mask]
        elif how == 'loc mask':
            new, idx = df.loc[pd.Series(mask, index=df.index)] if df.index.is_unique else df.loc[mask], rid[mask]
        elif how == 'iloc':
            new, idx = df.iloc[some], some
        elif how == 'take':
            new, idx = df.take(some), some
        elif how == 'slice':
            step = src.pick([1, 1, -1, 2])
            sl = slice(a, b) if step == 1 else slice(None, None, step)
            new, idx = df.iloc[sl] if src.chance(1, 2) else df[sl], rid[sl]
        elif how == 'head':
            new, idx = df.head(a), rid[:a]
        elif how == 'tail':
            new, idx = df.tail(a), rid[n - a:]
        elif how == 'loc':
            if not df.index.is_unique or df.index.nlevels > 1 or not n:
                return
            new, idx = df.loc[[df.index[k] for k in some]], some
        elif how == 'copy':
            new, idx = df.copy(src.chance(1, 2)), rid
        else:
            if list(df.index.names) == ['zid'] and how in ('reset_index',):
                return
            work['hidden'] = rid
            if how == 'sample':
                new = work.sample(frac=1.0, random_state=src.draw(100))
            elif how == 'sort_values':
                new = work.sort_values(col, ascending=src.chance(1, 2))
            elif how == 'sort_index':
                new = work.sort_index()
            elif how == 'assign':
                new = work.assign(extra=1.0)
            elif how == 'reset_index':
                new = work.reset_index(drop=True)
            elif how == 'drop':
                if not df.index.is_unique or not n:
                    return
                new = work.drop(index=[df.index[k] for k in set(some.tolist()[:2])])
            elif how == 'query':
                new = work.query(f'{col} > {src.num(-1, 1, 0.25)}')
            elif how == 'groupby':
                groups = [g for _, g in work.groupby(pd.Series(mask, index=work.index).to_numpy())]
                if not groups:
                    return
                new = src.pick(groups)
            elif how == 'rename':
                new = work.rename(columns={'hidden': 'hidden2'})
                new = new.rename(columns={'hidden2': 'hidden'})
            elif how == 'astype':
                new = work.astype({col: 'f8'})
            else:
                if not self.uni.linked or fr.name[0] == 'Z':
                    return
                new = pd.concat([work, work.iloc[:a]])
            idx = new['hidden'].to_numpy()
        if len(idx) and (not hasattr(new, '_has_link') or not all(new._has_link(x) for x in fr.ref.links)):
            return              # what derived frames keep is the subject of C12
        if not len(idx):
            return
        nf = Frame(fr.name[0] + str(len(self.frames)), new, fr.ref.take(idx), fr.schema, how)
        self.frames.append(nf)
        self.R.log(nf.name, '=', fr.name, how, len(idx))

    def op_values(self, fr):
        """Whole columns of the frame or of the zones are replaced."""
        src = self.src
        c = src.pick(['age', 'own', 'n', 'kind']) if fr.name[0] != 'Z' else None
        if c is None or src.chance(1, 2):
            if 'zone' not in self.frames[0].ref.links:
                return
            zref = self.frames[0].ref.links['zone'][1]
            target = self.frames[0].df.get_link_target('zone')
            c = src.pick(['area', 'q'])
            v = mm.dy(self.rs, zref.n) if c == 'area' else self.rs.randint(-2, 3, zref.n)
            if fr.name[0] == 'Z' and fr.df is not target:
                return
            if any(f.name[0] == 'Z' and f.df is not target for f in self.frames):
                return              # frames derived from the zones keep the old values
            target[c] = v.copy()
            zref.cols[c] = v
            self.R.log('zones', c, 'replaced')
            return
        n = fr.ref.n
        v = {'age': lambda: mm.dy(self.rs, n), 'own': lambda: self.uni.flags(self.rs, n), 'n': lambda: self.rs.randint(-2, 3, n),
             'kind': lambda: self.uni.text(self.rs, n)}[c]()
        fr.df[c] = v.copy()
        fr.ref.cols[c] = v
        self.R.log(fr.name, c, 'replaced')

    def op_refresh(self, fr):
        fr.df.compute_indexers(refresh=self.src.chance(1, 2))
        self.R.log(fr.name, 'refresh')


OPS = [(10, 'evaluate'), (3, 'derive'), (2, 'values'), (1, 'refresh'), (2, 'refused')]


def run(R):
    mc = Machine(R)
    src = R.src
    for k in range(src.rint(2, 10)):
        getattr(mc, 'op_' + src.weighted(OPS))(src.pick(mc.frames))
    if src.chance(1, 5):
        # several caller threads evaluate expressions over the same frames
        def body():
            for _ in range(src.rint(1, 4)):
                fr = src.pick(mc.frames)
                if src.chance(1, 5):
                    mc.op_refused(fr)
                else:
                    mc.op_evaluate(fr)
        n = src.rint(2, 3)
        R.probe('histories with threads')
        R.log('threads', n)
        schedule(R, [body] * n)
    for fr in mc.frames:
        mc.op_evaluate(fr)

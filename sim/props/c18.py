"""C18: reading and writing tables through faulty streams is all-or-error."""
import gc
import io

import numpy as np
import pandas as pd

from .. import lm, streams
from ..engine import Violation
from ..sched import Interrupter
from . import linkcommon
from .c15 import fingerprint, index_print, values_print

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 9500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run reads drawn texts (well-formed, malformed, truncated) through drawn streams into linked frames, or writes linked '
        'frames (as built, derived, changed in place, with links of all kinds) through them, with errors at drawn calls, full '
        'disks, torn writes and interrupts, and compares with pandas on the plain data; frames are used and written again '
        'after every failure.')
REAL = 'cheval.ldf, pandas readers and writers, numpy, Python text and buffer layers'
STUBS = 'raw streams, text streams, the disk (the `open` of pandas.io.common) and the clipboard'
STATE_MEASURE = 'distinct (reader or writer, stream kind, engine or options, fault kind, fault fired?)'
ASSUMPTIONS = ['pandas on the plain data is trusted: what it reads from the same stream is what is to be read',
               'iterators (chunksize), squeeze and several tables per file are not tables and are not judged']
WORDS = ['a', 'b c', '', 'NA', 'x,y', 'q"uo"te', "it's", 'line\nbreak', 'ünï', '12', '1.5', 'True', '2020-01-01', ' pad ', '#', 'tab\t']


# ------------------------------------------------------------------------------------------------------------- tables

def draw_table(R, n=None):
    src = R.src
    n = src.weighted([(6, src.rint(1, 6)), (1, 0), (1, 40), (1, 120), (1, 3000)]) if n is None else n
    if n == 3000 and not src.chance(1, 4):
        n = 300
    rs = np.random.RandomState(src.seed32())
    data = {}
    names = src.sample(['a', 'b', 'c d', 'e', 'id', 'ü', 'index', 'lk'], src.rint(1, 5))
    for nm in names:
        kind = src.pick(['int', 'float', 'text', 'bool', 'date', 'cat', 'mixed', 'mixed' if n > 20 else 'int'])
        if kind == 'int':
            v = rs.randint(-9, 99, n)
        elif kind == 'float':
            v = rs.randint(-9, 99, n) / 4.0
            v[rs.randint(0, 4, n) == 0] = np.nan
        elif kind == 'text':
            v = [WORDS[k] for k in rs.randint(0, len(WORDS), n)]
        elif kind == 'bool':
            v = rs.randint(0, 2, n).astype(bool)
        elif kind == 'date':
            v = pd.to_datetime('2020-01-01') + pd.to_timedelta(rs.randint(0, 99, n), 'D')
        elif kind == 'cat':
            v = pd.Categorical([('u', 'v', None)[k] for k in rs.randint(0, 3, n)], categories=['v', 'u'])
        else:
            last = 'last' if src.chance(1, 2) else 2.5
            v = [k if j < n - 1 else last for j, k in enumerate(rs.randint(0, 9, n).tolist())]
        data[nm] = pd.Series(v)
    df = pd.DataFrame(data)
    how = src.draw(4)
    if how == 1 and n:
        df.index = pd.Index(rs.permutation(n) * 2, name='key')
    elif how == 2 and n:
        df.index = pd.MultiIndex.from_arrays([[f'k{k}' for k in rs.permutation(n)], rs.randint(0, 3, n)], names=['p', 'q'])
    return df


def draw_plan(R, what):
    src = R.src
    pieces = [src.pick([1, 2, 3, 7, 10, 64, 1000]) for _ in range(src.rint(1, 4))] if src.chance(3, 4) else None
    if src.chance(1, 3):
        return streams.Plan(pieces)
    name, error = streams.draw_error(src)
    if what == 'read':
        at, limit, on = src.pick([1, 2, 3, 4, 8, 30, 100]), None, None
        if src.chance(1, 12):
            at, on = None, src.pick(['open', 'close'])
    else:
        at, limit, on = None, None, None
        how = src.draw(5)
        if how in (0, 1):
            at = src.pick([1, 2, 3, 5, 9, 20])
        elif how in (2, 3):
            limit = src.pick([0, 1, 5, 20, 60, 200, 9000])
        else:
            on = src.pick(['flush', 'close', 'open'])
    return streams.Plan(pieces, at, limit, on, error, name, torn=src.pick([0, 0, 1, 3, 40]))


class OpenSeam:
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        import pandas.io.common as c
        c.open = self.disk.open

    def __exit__(self, *a):
        import pandas.io.common as c
        del c.open


# ------------------------------------------------------------------------------------------------------------ readers

def draw_text(R):
    """(reader name, text, keyword arguments)"""
    src = R.src
    df = draw_table(R)
    reader = src.weighted([(5, 'csv'), (2, 'table'), (2, 'fwf'), (1, 'json')])
    kw = {}
    if reader == 'json':
        return reader, df.reset_index(drop=True).to_json(orient=src.pick(['columns', 'records'])), {}
    if reader == 'fwf':
        flat = df.select_dtypes(exclude=['object', 'category', 'datetime'])
        if not len(flat.columns):
            flat['w'] = np.arange(len(df))
        flat.columns = [c.replace(' ', '_') for c in flat.columns]
        text = flat.to_string(index=False) + '\n'
        if src.chance(1, 3):
            kw['widths'] = [src.rint(2, 9) for _ in flat.columns]
        if src.chance(1, 3):
            kw['skiprows'] = 1
    else:
        sep = ',' if reader == 'csv' else '\t'
        out = {}
        if src.chance(1, 4):
            sep = src.pick([';', '|', ','])
            out['sep'] = kw['sep'] = sep
        else:
            out['sep'] = sep
        if src.chance(1, 6):
            out['decimal'] = kw['decimal'] = ','
            if sep == ',':
                out['sep'] = kw['sep'] = ';'
        if src.chance(1, 6):
            out['header'] = False
            kw['header'] = None
        named = df.index.names != [None]
        out['index'] = named or src.chance(1, 3)
        text = df.to_csv(**out)
        if out['index'] and src.chance(2, 3):
            kw['index_col'] = list(range(df.index.nlevels)) if df.index.nlevels > 1 else 0
        for k, v in (('nrows', src.rint(0, 4)), ('skiprows', 1), ('comment', '#'), ('na_values', ['a', '1.5']), ('keep_default_na', False),
                     ('dtype', str), ('usecols', [0]), ('true_values', ['u']), ('engine', 'python'), ('skip_blank_lines', False),
                     ('on_bad_lines', 'skip'), ('low_memory', False), ('names', ['n1', 'n2']), ('skipinitialspace', True), ('engine', 'python'), ('engine', 'c'),
                     ('thousands', ' '), ('index_col', False), ('skipfooter', 1), ('prefix', 'X'), ('encoding', 'utf-8'), ('delim_whitespace', True),
                     ('header', [0, 1]), ('cache_dates', False), ('quoting', 3), ('dtype', 'category'), ('na_filter', False), ('verbose', False),
                     ('parse_dates', True), ('dtype', {'a': 'f4'}), ('float_precision', 'round_trip')):
            if src.chance(1, 24):
                kw[k] = v
    if src.chance(1, 4) and text:
        text = text[:src.draw(len(text) + 1)]
        R.fault('truncated input')
    if src.chance(1, 8):
        p = src.draw(len(text) + 1)
        text = text[:p] + src.pick([',,,,,', '"', '\n\n', '\x00', '\t', ';', 'é']) + text[p:]
        R.fault('malformed input')
    return reader, text, kw


def table_print(df):
    cols = tuple(values_print(df.iloc[:, k].values) for k in range(df.shape[1]))
    return (index_print(df.index), index_print(df.columns), cols, repr(df.attrs))


def attempt(fn):
    """('returned', value) or ('raised', exception)"""
    try:
        return 'returned', fn()
    except (Violation, streams.Custom) as e:
        if isinstance(e, Violation):
            raise
        return 'raised', e
    except BaseException as e:
        return 'raised', e


def text_of(e):
    return type(e).__name__, str(e)[:200]


def read_source(kind, text, plan, kw):
    """(what to hand over, object with the state, extra keyword arguments)"""
    if kind == 'text':
        s = streams.TextSource(text, plan)
        return s, s, {}
    data = text.encode('utf-8')
    extra = {}
    if kind.startswith('gzip'):
        import gzip
        data = gzip.compress(data, mtime=1)
        if kind == 'gzip cut':
            data = data[:max(1, len(data) - 9)]
        extra = {'compression': 'gzip'}
    if kind == 'latin':
        data = text.encode('latin-1', 'replace')
    raw = streams.RawSource(data, plan)
    if kind in ('buffered', 'latin') or kind.startswith('gzip'):
        return io.BufferedReader(raw), raw, extra
    if kind == 'wrapped':
        return io.TextIOWrapper(io.BufferedReader(raw), encoding='utf-8', newline=''), raw, {}
    return raw, raw, extra


def do_read(R):
    from cheval import LinkedDataFrame
    src = R.src
    reader, text, kw = draw_text(R)
    plan = draw_plan(R, 'read')
    kinds = ['text', 'text', 'raw', 'buffered', 'wrapped', 'latin', 'path', 'gzip', 'gzip cut', 'clipboard']
    kind = src.pick(kinds)
    if reader == 'json':
        kind = src.pick(['text', 'buffered', 'raw'])
    if kind == 'clipboard':
        kw.pop('engine', None)
    via = src.chance(1, 3) or reader == 'json'
    R.log('read', reader, kind, f'{len(text)} characters', sorted(kw.items(), key=lambda x: x[0]), 'pieces', plan.pieces,
          'error', plan.name, plan.at, plan.on)
    R.step()
    before = fingerprint(kw)

    def go(linked, plan):
        if kind == 'clipboard':
            import pandas.io.clipboard as cb
            st = streams.State(plan)

            def get():
                st.tick()
                return text
            real, cb.clipboard_get = cb.clipboard_get, get
            try:
                fn = LinkedDataFrame.read_clipboard if linked else pd.read_clipboard
                return attempt(lambda: fn(**kw)), st.fired
            finally:
                cb.clipboard_get = real
        if linked:
            fn = (lambda *a, **k: LinkedDataFrame.read_(reader, *a, **k)) if via else getattr(LinkedDataFrame, 'read_' + reader)
        else:
            fn = getattr(pd, 'read_' + reader)
        if kind == 'path':
            disk = streams.Disk(plan)
            disk.files['in.txt'] = text.encode()
            with OpenSeam(disk):
                r = attempt(lambda: fn('in.txt', **kw))
                return r, disk.has_fired
        s, st, extra = read_source(kind, text, plan, kw)
        r = attempt(lambda: fn(s, **kw, **extra))
        st.state.dead = True
        return r, st.state.fired
    exp, _ = go(False, plan)
    got, fired = go(True, plan)
    if plan.pieces and not fired:
        R.fault('pieces')
    label = f'read_{reader} from {kind}'
    R.state('read', reader, kind, plan.name, fired is not None, exp[0], tuple(sorted(kw)))
    if fingerprint(kw) != before:
        raise Violation('arguments altered', label)
    if fired is not None:
        R.fault(f'read error ({plan.name})')
        if got[0] == 'returned' and exp[0] == 'raised':
            raise Violation('error swallowed', f'{label}: {fired!r} did not reach the caller, who got {len(got[1])} rows')
    if got[0] != exp[0]:
        raise Violation('reading differs', f'{label}: {got[0]} {got[1]!r:.200}, but pandas {exp[0]} {exp[1]!r:.200}')
    if got[0] == 'raised':
        if type(got[1]) is not type(exp[1]) or (fired is None and str(got[1]) != str(exp[1])):
            raise Violation('other error', f'{label}: {text_of(got[1])}, but pandas raised {text_of(exp[1])}')
        R.probe('errors which reached the caller')
        R.log('raised', type(got[1]).__name__)
        return
    exp, got = exp[1], got[1]
    if not isinstance(got, LinkedDataFrame):
        raise Violation('not a linked frame', f'{label}: {type(got).__name__}')
    if not isinstance(exp, pd.DataFrame):
        return
    if table_print(got) != table_print(exp):
        raise Violation('other table', f'{label}: {pd.DataFrame(got).to_dict()!s:.300} instead of {exp.to_dict()!s:.300}')
    if lm.link_names(got):
        raise Violation('links appeared', label)
    R.probe('tables read')
    if len(got) > 50:
        R.probe('tables of more than 50 rows read')
    usable(R, got, label)


def usable(R, df, label):
    """The frame can be linked and looked up like any other."""
    n = len(df)
    if not n or df.index.nlevels > 1 or not df.index.is_unique or df.index.hasnans or 'fresh' in df.columns:
        return
    try:
        df.index.get_indexer(df.index)
    except Exception:
        return
    other = pd.DataFrame({'v': np.arange(n) * 3}, index=df.index)
    df.link_to(other, 'fresh')
    if df.fresh.v.tolist() != (np.arange(n) * 3).tolist():
        raise Violation('read frame does not link', f'{label}: {df.fresh.v.tolist()}')
    R.probe('read frames linked')


# ------------------------------------------------------------------------------------------------------------ writers

WRITERS = [(10, 'to_csv'), (1, 'to_json'), (1, 'to_string'), (1, 'to_html')]


def draw_options(R, fs):
    src = R.src
    kw = {}
    cols = list(fs.twin.columns)
    for k, v in (('sep', ';'), ('na_rep', 'none'), ('float_format', '%.3f'), ('header', False), ('index', False), ('index_label', 'idx'),
                 ('chunksize', src.rint(1, 4)), ('date_format', '%Y'), ('quoting', 1), ('decimal', ','), ('line_terminator', '\r\n'),
                 ('columns', src.sample(cols, src.rint(1, len(cols))) if cols else []), ('header', [f'h{k}' for k in range(len(cols))]),
                 ('encoding', 'utf-16'), ('quotechar', "'"), ('escapechar', '\\'), ('doublequote', False), ('errors', 'replace')):
        if src.chance(1, 10):
            kw[k] = v
    if isinstance(kw.get('header'), list) and 'columns' in kw:
        kw['header'] = kw['header'][:len(kw['columns'])]
    return kw


def write(frame, name, kind, plan, kw):
    """((outcome, value), fired, content)"""
    fn = getattr(frame, name)
    if kind == 'string':
        return attempt(lambda: fn(**kw)), None, None
    if kind in ('path', 'append', 'exclusive'):
        disk = streams.Disk(plan)
        if kind == 'append':
            disk.files['out.csv'] = b'before\n'
            kw = dict(kw, mode='a')
        with OpenSeam(disk):
            r = attempt(lambda: fn('out.csv', **kw))
            fired = disk.has_fired
            for h in disk.handles:
                h.state.dead = True
                if not h.closed and fired is None:
                    raise Violation('left open', 'the file is not closed')
            if r[0] == 'raised':
                r[1].__traceback__ = None
        content = disk.handles[-1].content() if disk.handles else None
        return r, fired, content
    if kind == 'text':
        s = st = streams.TextSink(plan)
    else:
        st = streams.RawSink(plan)
        s = io.BufferedWriter(st, buffer_size=kw.pop('_buffer', 8192))
        if kind == 'wrapped':
            s = io.TextIOWrapper(s, encoding='utf-8', newline='')
        elif kind == 'gzip':
            kw = dict(kw, compression={'method': 'gzip', 'mtime': 1})
        if kind == 'bytes':
            kw = dict(kw, mode='wb')
    def both():
        r = fn(s, **kw)
        if kind in ('bytes', 'wrapped', 'gzip'):
            s.flush()             # what the caller does with a stream of his own
        return r
    r = attempt(both)
    fired = st.state.fired
    st.state.dead = True
    if r[0] == 'raised':
        r[1].__traceback__ = None
    return r, fired, st.content()


def show(c):
    return repr(c)[:240]


def do_write(R, mc, fs):
    src = R.src
    name = src.weighted(WRITERS)
    if name in ('to_string', 'to_html') and not fs.twin.size:
        name = 'to_csv'           # these print the name of the class of an empty frame
    plan = draw_plan(R, 'write')
    if name == 'to_csv':
        kw = draw_options(R, fs)
        kind = src.pick(['text', 'text', 'bytes', 'wrapped', 'path', 'path', 'append', 'gzip', 'string'])
    else:
        kw = {}
        kind = src.pick(['text', 'string'])
    if kind == 'wrapped' and 'encoding' in kw:
        del kw['encoding']
    if kind in ('bytes', 'wrapped', 'gzip') and src.chance(1, 2):
        kw['_buffer'] = src.pick([1, 16, 100])
    keep = dict(kw)
    before = fingerprint(fs.df), fingerprint(kw)
    plain = fs.twin
    clean = plan.without_error()
    exp, _, full = write(plain, name, kind, clean, dict(kw))
    label = f'{fs.name}.{name}({kind}, {keep})'
    R.log(label, 'pieces', plan.pieces, 'error', plan.name, plan.at, plan.limit, plan.on)
    R.step()
    it = None
    if src.chance(1, 8):
        it = Interrupter(1 + src.draw(1 << src.draw(6)), KeyboardInterrupt('injected'))
        with it:
            got, fired, content = write(fs.df, name, kind, plan, dict(kw))
        if it.where is not None:
            R.fault('interrupt of the writer')
            R.log('interrupted at', it.where)
            if fired is None:
                fired = it.exc
    else:
        got, fired, content = write(fs.df, name, kind, plan, dict(kw))
    R.state('write', name, kind, plan.name, fired is not None, exp[0], tuple(sorted(keep)))
    if (fingerprint(fs.df), fingerprint(kw)) != before:
        raise Violation('frame altered by writing', label)
    if fired is not None:
        R.fault(f'write error ({plan.name}{", full disk" if plan.limit is not None else ", " + plan.on if plan.on else ""})'
                if it is None or it.where is None else 'interrupted write')
        again = None
        if got[0] == 'returned' and isinstance(fired, InterruptedError):
            again = write(plain, name, kind, plan, dict(kw))         # Python's own buffers try again
        if again is not None and again[0][0] == 'returned':
            compare(label, again[0], again[2], got, content)
        elif again is not None and content is not None:
            compare(label + ' after an interrupted call', exp, full, got, content)
            R.probe('interrupted calls repeated by Python')
        elif got[0] == 'returned':
            # closing errors of the caller's own stream are the caller's
            raise Violation('error swallowed', f'{label}: {fired!r} did not reach the caller')
        if got[0] == 'raised' and type(got[1]) is not type(fired):
            pl, pf, _ = write(plain, name, kind, plan, dict(kw))
            if not (pl[0] == 'raised' and type(pl[1]) is type(got[1])):
                raise Violation('other error', f'{label}: {text_of(got[1])} instead of {fired!r}')
        if kind != 'gzip' and exp[0] == 'returned' and content is not None and full is not None and not full.startswith(content):
            raise Violation('other bytes', f'{label}: before the failure {show(content)} was written, of {show(full)}')
        R.probe('errors which reached the caller')
    else:
        compare(label, exp, full, got, content)
        R.probe('tables written')
    # the frame and its links are as before, and can be written again
    mc.check_data(fs)
    mc.check_some(fs, 1)
    if fired is not None or src.chance(1, 4):
        got, _, content = write(fs.df, name, kind, clean, dict(kw))
        compare(label + ' again', exp, full, got, content)
        R.probe('written again')


def compare(label, exp, full, got, content):
    if got[0] != exp[0]:
        raise Violation('writing differs', f'{label}: {got[0]} {got[1]!r:.200}, but pandas {exp[0]} {exp[1]!r:.200}')
    if got[0] == 'raised':
        if text_of(got[1]) != text_of(exp[1]):
            raise Violation('other error', f'{label}: {text_of(got[1])}, but pandas raised {text_of(exp[1])}')
    elif got[1] != exp[1]:
        raise Violation('other text', f'{label}: {show(got[1])} instead of {show(exp[1])}')
    if content != full:
        raise Violation('other bytes', f'{label}: {show(content)} instead of {show(full)}')


def rich(R):
    """A linked frame of varied content, with links of both kinds."""
    from cheval import LinkedDataFrame
    src = R.src
    plain = draw_table(R)
    df = LinkedDataFrame(plain.copy(deep=True))
    fs = lm.FS('rich', df, plain, {})
    link = 'fresh'
    if len(plain) and plain.index.is_unique and src.chance(3, 4):
        other = LinkedDataFrame({'v': np.arange(len(plain))}, index=plain.index[::-1])
        named = [c for c in plain.columns if c.isidentifier() and c != 'index']
        if named and src.chance(1, 3):
            link = src.pick(named)        # a link named like a column: both are kept, and only the column is written
            R.probe('links named like columns')
        df.link_to(other, link, precompute=src.chance(1, 2))
    return fs, link


class Rich:
    """Checks of a rich frame after an operation."""

    def __init__(self, fs, link):
        self.fs, self.link = fs, link

    def check_data(self, fs):
        if table_print(fs.df) != table_print(fs.twin):
            raise Violation('frame altered', fs.name)

    def check_some(self, fs, k):
        if self.link in lm.link_names(fs.df):
            n = len(fs.twin)
            got = getattr(fs.df, self.link).v.tolist()
            if got != list(range(n))[::-1]:
                raise Violation('lookup', f'{got}')


def run(R):
    src = R.src
    what = src.weighted([(4, 'read'), (3, 'rich'), (4, 'linked')])
    if what == 'read':
        for _ in range(src.rint(1, 3)):
            do_read(R)
    elif what == 'rich':
        fs, link = rich(R)
        for _ in range(src.rint(1, 3)):
            do_write(R, Rich(fs, link), fs)
    else:
        mc = lm.LinkMachine(R, max_rows=src.pick([5, 9]))
        for _ in range(src.rint(1, 4)):
            if not mc.live:
                break
            fs = src.pick(mc.live)
            op = src.weighted([(4, 'write'), (2, 'derive'), (1, 'inplace'), (1, 'look')])
            if op == 'write':
                do_write(R, mc, fs)
            elif op == 'derive':
                ns = mc.derive(fs)
                if ns is not None:
                    mc.live.append(ns)
            elif op == 'inplace':
                mc.inplace(fs)
            else:
                mc.check_some(fs, 1)
        for fs in mc.live:
            do_write(R, mc, fs)
            mc.check_all(fs)
    R.nontrivial = True

"""C28: models that are stored and restored go on as if nothing had happened."""
import copy
import gc
import io
import pickle

from .. import mm
from ..engine import Violation
from .c07 import keep_debug
from .c25 import Report
from .faults import interrupted
from .modelcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 6000}, 'thorough': {'nojit': 200000}}
RULE = ('Each run draws a history of models (with copies, subsets, failing and interrupted operations) in which models are stored (pickled '
        'into simulated files that may fail or be cut short, or deep-copied) at any point, the process dies (only what was stored '
        'survives) or goes on next to what it restored; every model has its own reference.')
ASSUMPTIONS = _A + ['tables with links are not stored: pickled linked frames come back without their links, as known from C12',
                    'a stored file that was damaged other than by being cut short is not read']
OPS = [(3, 'assign'), (2, 'expr'), (1, 'expr_batch'), (1, 'declare'), (1, 'units'), (2, 'partial'), (1, 'drop_group'), (2, 'tree'),
       (1, 'scale'), (1, 'clear_scope'), (1, 'expr_clear'), (1, 'precision'), (4, 'run'), (1, 'copy'), (1, 'subset'), (1, 'preval'),
       (1, 'refused'), (1, 'groups'), (1, 'broken'), (5, 'store'), (3, 'crash'), (4, 'branch'), (2, 'ready'), (2, 'debug')]


class Full(OSError):
    pass


class File(io.RawIOBase):
    """A file of which only the first bytes fit on the simulated disk."""

    def __init__(self, room):
        self.room, self.data = room, bytearray()

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        left = self.room - len(self.data)
        self.data += b[:left]
        if len(b) > left:
            raise Full(28, 'No space left on device')
        return len(b)


class Store:
    """What is on the disk: the last complete file, with the references as they were."""

    def __init__(self, R, mc):
        self.R, self.src, self.mc = R, R.src, mc
        self.kept = None

    def group(self, p):
        """Models which share their choices are stored together."""
        return [q for q in self.mc.pairs if q.nodes is p.nodes]

    def save(self, p):
        R, src = self.R, self.src
        pairs = self.group(p) if src.chance(3, 4) else [p]
        what = [(q.model, q.nodes) for q in pairs]
        refs = [q.ref.copy() for q in pairs]
        how = src.weighted([(5, 'pickle'), (2, 'file'), (2, 'deepcopy'), (2, 'full'), (1, 'cut')])
        protocol = src.draw(pickle.HIGHEST_PROTOCOL + 1)
        R.log(p.name, 'stored by', how, protocol)
        R.probe('models stored', len(pairs))
        note_state(R, p)
        if how == 'deepcopy':
            kept = copy.deepcopy(what)
            self.kept = (lambda: copy.deepcopy(kept)), refs
            return
        data = pickle.dumps(what, protocol)
        if how == 'pickle':
            self.kept = (lambda: pickle.loads(data)), refs
            return
        if how == 'file':
            f = File(1 << 30)
            pickle.dump(what, f, protocol)
            text = bytes(f.data)
            self.kept = (lambda: pickle.load(io.BytesIO(text))), refs
            return
        room = src.draw(len(data))
        f = File(room)
        try:
            pickle.dump(what, f, protocol)
            raise Violation('stored', 'a file was written to a full disk without an error')
        except Full:
            R.fault('full disk while storing')
        if how == 'cut':
            f.data = bytearray(data[:room])
            R.fault('file cut short')
        try:
            pickle.loads(bytes(f.data))
        except Exception:
            return                      # the previous file is still there
        raise Violation('stored', 'a part of a file was read as a whole one')

    def load(self, names):
        make, refs = self.kept
        out = []
        for (model, nodes), ref, name in zip(make(), refs, names):
            q = mm.Pair(name, model, ref.copy(), nodes)
            out.append(q)
        self.R.probe('models restored', len(out))
        return out


def compare(R, mc, p, q):
    """A model and what was restored from it just now."""
    if mc.expectation(p)[0] != 'value':
        return
    kw = {'clear_scope': False}
    kind = R.src.pick(['stochastic', 'discrete'])
    got = [(x.model.run_stochastic(**kw) if kind == 'stochastic' else x.model.run_discrete(random_seed=7, n_draws=2, **kw)) for x in (p, q)]
    R.probe('results of stored and restored models compared')
    if q.model.debug_id != p.ref.debug_id:
        raise Violation('restored', f'{q.name} traces the unit {q.model.debug_id}, {p.name} traced {p.ref.debug_id}')
    if p.ref.debug_id is not None and not p.model.debug_results.equals(q.model.debug_results):
        raise Violation('restored', f'the trace of {q.name} differs from that of {p.name}')
    if not mm.same_results(*got):
        raise Violation('restored', f'the {kind} results of {q.name}, restored from {p.name}, differ from its own')


def broken(R, mc, p):
    mc.make_ready(p)
    if mc.expectation(p)[0] == 'value':
        interrupted(R, 'run', lambda: p.model.run_stochastic(clear_scope=False), engine=True)


def run(R):
    src = R.src
    mc = mm.Machine(R, links=False)
    st = Store(R, mc)
    p = mc.pairs[0]
    if src.chance(7, 8):
        mc.op_units(p)
    for _ in range(src.draw(4)):
        mc.op_expr(p)
    if src.chance(1, 2):
        mc.make_ready(p)
    st.save(p)
    for k in range(src.rint(3, 14)):
        p = src.pick(mc.pairs)
        op = src.weighted(OPS)
        for q in mc.pairs:
            keep_debug(q)
        if op == 'run':
            mc.op_run(p, kw=None if src.chance(1, 2) else {'clear_scope': False})
        elif op == 'ready':
            mc.make_ready(p)
        elif op == 'debug':
            if p.ref.units is not None and len(p.ref.units):
                p.model.debug_id = p.ref.debug_id = src.pick([None] + list(p.ref.units[:4]))
                R.log(p.name, 'debug_id', p.ref.debug_id)
        elif op == 'broken':
            broken(R, mc, p)
        elif op == 'store':
            if src.chance(1, 2):
                mc.make_ready(p)
            st.save(p)
        elif op == 'crash':
            if st.kept is None:
                continue
            R.fault('process died')
            R.log('process died')
            mc.pairs[:] = []
            p = None
            gc.collect()
            mc.pairs[:] = st.load('MNOPQRST')
            for p in mc.pairs:
                Report(R, mc, p).ask()
        elif op == 'branch':
            family = st.group(p)
            if len(mc.pairs) + len(family) > 5:
                continue
            before = st.kept
            st.kept = None
            if src.chance(1, 2):
                mc.make_ready(p)
            st.save(p)
            if st.kept is None:         # full
                st.kept = before
                continue
            new = st.load('UVWXYZ'[len(mc.pairs):])
            mc.pairs.extend(new)
            R.log('restored next to it:', [q.name for q in new])
            q = new[family.index(p)] if len(new) == len(family) else new[0]
            compare(R, mc, p, q)
        elif op in ('tree', 'scale'):
            everyone = mc.pairs
            if () not in p.nodes:       # a restored model has choices of its own, unless it was copied or is a copy
                mc.pairs = [p]
                try:
                    getattr(mc, 'op_' + op)(p)
                finally:
                    mc.pairs = everyone
        elif op == 'refused':
            mc.op_refused(p)
        else:
            if op in ('copy', 'subset'):
                p.nodes[()] = None
            getattr(mc, 'op_' + op)(p)
        if src.chance(1, 3):
            Report(R, mc, src.pick(mc.pairs)).ask()
    for p in mc.pairs:
        keep_debug(p)
        Report(R, mc, p).all()
        mc.make_ready(p)
        mc.op_run(p, group=None, kw={'clear_scope': False})
    R.nontrivial = True

"""C25: what a model tells about itself is what its history made it."""
from .. import mm, sched
from ..engine import Violation
from ..sched import Scheduler
from .faults import interrupted
from .modelcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 18000}, 'thorough': {'nojit': 250000}}
RULE = ('Each run draws a history of construction, declarations, assignments, expressions, copies, subsets, pre-evaluations, refused edits, '
        'interrupted runs and interrupted reports; choices, units, settings, nodes, symbols, expressions and the verdicts of every kind of '
        'validation are compared with the reference model at drawn points, some of them by several simulated threads at once.')
ASSUMPTIONS = _A + ['nodes that were replaced, and nodes of copies after tree edits, are not asked',
                    'the order of the groups within all expressions and of the children within a nest is not judged']
OPS = [(4, 'assign'), (4, 'expr'), (1, 'expr_batch'), (2, 'declare'), (2, 'units'), (2, 'partial'), (3, 'tree'), (1, 'scale'),
       (1, 'drop_group'), (1, 'clear_scope'), (1, 'expr_clear'), (1, 'precision'), (2, 'run'), (2, 'copy'), (2, 'subset'),
       (1, 'preval'), (3, 'refused'), (2, 'half_nest'), (2, 'broken'), (2, 'ready'), (1, 'groups'), (1, 'debug')]


def expect(what, got, want):
    if got != want:
        raise Violation(what.split(' of ')[0], f'{what}: {got!r} instead of {want!r}')


def outcome(fn, *kinds):
    try:
        return fn()
    except kinds as e:
        return type(e)


class Report:
    """Everything that a model tells, next to what it should tell."""

    def __init__(self, R, mc, p):
        self.R, self.src, self.mc, self.p = R, R.src, mc, p

    def ask(self):
        parts = ['choices', 'units', 'nodes', 'symbols', 'expressions', 'validation', 'validation', 'settings']
        for part in self.src.sample(parts, self.src.rint(1, 4)):
            self.R.step()
            getattr(self, part)()

    def all(self):
        for part in ('choices', 'units', 'nodes', 'symbols', 'expressions', 'validation', 'settings'):
            getattr(self, part)()

    def choices(self):
        from cheval.exceptions import ModelNotReadyError
        p = self.p
        m, t = p.model, p.ref.tree
        expect(f'depth of {p.name}', m.depth, t.depth)
        if not p.ref.tree_ready():
            expect(f'choices of unfinished {p.name}', outcome(lambda: m.choices, ModelNotReadyError), ModelNotReadyError)
            return
        labels = t.labels()
        expect(f'choices of {p.name}', list(m.choices), labels)
        expect(f'elemental choices of {p.name}', list(m.elemental_choices), [labels[k] for k in t.elemental()])
        self.R.probe('choices compared')

    def units(self):
        from cheval.exceptions import ModelNotReadyError
        p = self.p
        if p.ref.units is None:
            expect(f'decision units of {p.name}', outcome(lambda: p.model.decision_units, ModelNotReadyError), ModelNotReadyError)
            return
        got = p.model.decision_units
        expect(f'decision units of {p.name}', (list(got), list(got.names)), (list(p.ref.units), list(p.ref.units.names)))

    def settings(self):
        p = self.p
        expect(f'precision of {p.name}', p.model.precision, p.ref.precision)

    def nodes(self):
        p = self.p
        if p is not self.mc.pairs[0]:
            return
        for n in p.ref.tree.nodes:
            node = p.nodes[n.path]
            what = 'of ' + '.'.join(n.path)
            expect('name ' + what, (node.name, str(node), node.full_name), (n.name, n.name, '.'.join(n.path)))
            expect('level ' + what, (node.level, node.max_level()), (len(n.path), self.deepest(n)))
            expect('scale ' + what, node.logsum_scale, n.scale)
            expect('children ' + what, sorted(c.name for c in node.children()), sorted(c.name for c in n.children))
            expect('children ' + what, (node.n_children, node.is_parent), (len(n.children), bool(n.children)))
            for c in node.children():
                if c is not p.nodes[n.path + (c.name,)] or c.parent is not node:
                    raise Violation('children', f'the child {c.name} {what} is not the node that was added')
            if n.parent is None:
                expect('parent ' + what, node.parent, None)
        self.R.probe('nodes compared', len(p.ref.tree.nodes))

    def deepest(self, n):
        return max([len(n.path)] + [self.deepest(c) for c in n.children])

    def symbols(self):
        p = self.p
        for name in list(mm.KINDS) + ['newname']:
            s = p.ref.scope.get(name)
            got = outcome(lambda: p.model[name].filled, KeyError)
            if s is None:
                expect(f'undeclared symbol of {p.name} {name}', got, KeyError)
            elif s.status == 'maybe' or s.gone:
                if got is KeyError and not s.gone:
                    raise Violation('symbol', f'{p.name} has lost {name}')
            else:
                expect(f'filled of {p.name} {name}', got, s.status == 'filled')

    def expressions(self):
        p = self.p
        g, ref = p.model.expressions, p.ref
        self.mc.listed(g, ref.ungrouped, ref.groups, f'the expressions of {p.name}')
        for what, es, got in ([('all', ref.exprs(), g), ('ungrouped', None, g)] +
                              [(k, ref.exprs(k), g.get_group(k)) for k in ref.groups]):
            kw = {}
            if what == 'ungrouped':
                es, kw = ref.ungrouped, {'groups': False}
            simple, chained = set(), set()
            for e in es:
                simple |= e[0].simple() if isinstance(e, tuple) else e.simple()
                chained |= e[0].chained() if isinstance(e, tuple) else e.chained()
            expect(f'names used by expressions of {p.name} ({what})', (set(got.itersimple(**kw)) - WORDS, set(got.iterchained(**kw))),
                   (simple, chained))
        self.R.probe('groups of expressions compared', len(ref.groups) + 1)

    def validation(self):
        from cheval.exceptions import ModelNotReadyError
        p, src, ref = self.p, self.src, self.p.ref
        for _ in range(src.rint(1, 4)):
            kw = {k: False for k in ('tree', 'decision_units', 'expressions', 'assignment') if src.chance(2, 5)}
            if src.chance(1, 3):
                kw['group'] = src.pick(mm.GROUPS)
            group = kw.get('group')
            wrong = []
            if kw.get('tree', True) and not ref.tree_ready():
                wrong.append('tree')
            if kw.get('decision_units', True) and ref.units is None:
                wrong.append('units')
            unsure = False
            errors = (ModelNotReadyError,)
            if 'expressions' in kw and 'assignment' in kw:
                pass
            elif group is not None and group not in ref.groups:
                wrong.append('group')
                errors += (KeyError,)
            else:
                for e, _, _ in ref.exprs(group):
                    for name in sorted(e.simple() | e.chained()):
                        s = ref.scope.get(name)
                        if s is None:
                            if 'expressions' in kw:
                                unsure = True     # only asked whether declared symbols are assigned
                            else:
                                wrong.append(f'{name} is not declared')
                        elif s.gone or s.status == 'maybe':
                            unsure = unsure or s.gone or 'assignment' not in kw
                        elif 'assignment' not in kw and s.status != 'filled':
                            wrong.append(f'{name} is empty')
            got = outcome(lambda: p.model.validate(**kw), *errors)
            self.R.log(p.name, 'validate', kw, '->', wrong[:3], unsure)
            if wrong and got is None:
                raise Violation('validation', f'{p.name} was found valid ({kw}) although {wrong}')
            if got is not None and not wrong and not unsure:
                raise Violation('validation', f'{p.name} was found not to be ready ({kw}) although everything is there')
            self.R.probe('refusals of validation expected' if wrong else 'validations expected to pass')


WORDS = {'NAN', 'OUT', 'NEG_INF'}


def in_threads(R, mc):
    """Several threads ask the same models."""
    src = R.src
    s = Scheduler(R, points=True, hot=sched.draw_hot(R))
    for k in range(src.rint(2, 3)):
        def body():
            for _ in range(1 + src.draw(2)):
                Report(R, mc, src.pick(mc.pairs)).ask()
        s.spawn(f'thread {k}', body)
    tasks = s.go()
    R.fault('thread preempted', max(0, s.switches - len(tasks)))
    for t in tasks:
        if t.error is not None:
            raise t.error


def broken(R, mc, p):
    """A run or pre-evaluation which is interrupted, or fails in the engine."""
    src = R.src
    keep = {'clear_scope': False}
    if src.chance(1, 2):
        mc.make_ready(p)
    if mc.expectation(p)[0] != 'value':
        return
    kind = src.pick(['stochastic', 'discrete', 'grouped'])
    fn = {'stochastic': lambda: p.model.run_stochastic(**keep), 'discrete': lambda: p.model.run_discrete(random_seed=3, **keep),
          'grouped': lambda: p.model.run_stochastic(group=src.pick(list(p.ref.groups)), check_infeasible=False, **keep)}[kind]
    if kind == 'grouped' and not p.ref.groups:
        return
    try:
        interrupted(R, 'run', fn, engine=True)
    except ValueError:      # utilities out of bounds in a group of its own
        pass


def half_nest(R, mc, p):
    src = R.src
    if len(mc.pairs) > 1:
        return
    leaves = [n for n in p.ref.tree.nodes if not n.children and len(n.path) < 3]
    if not leaves:
        return
    path = src.pick(leaves).path
    for k, nm in enumerate(src.sample(['a', 'b', 'bus'], 2)):
        p.nodes[path + (nm,)] = p.nodes[path].add_choice(nm)
        p.ref.add_choice(nm, 1.0, path)
        R.log(p.name, 'add choice', '.'.join(path + (nm,)))
        if k == 0:
            Report(R, mc, p).all()
            R.fault('reports of an unfinished tree')


class One:
    def __init__(self, p):
        self.pairs = [p]


def growing(R):
    """A model built choice by choice, most of it not ready, with choices replaced."""
    from cheval.model import ChoiceModel
    src = R.src
    p = mm.Pair('M', ChoiceModel(precision=src.pick([4, 8])), None, {})
    p.ref = mm.RefModel(p.model.precision)
    mc = One(p)
    for _ in range(src.rint(1, 9)):
        at = src.pick([()] * 2 + [n.path for n in p.ref.tree.nodes if len(n.path) < 4])
        names = src.sample(['a', 'b', 'car_2', 'd'], src.pick([1, 1, 2]))
        scales = [src.pick([1.0, 0.5, 0.1]) for _ in names]
        R.log('add', '.'.join(at), names, scales)
        if not at and src.chance(1, 2):
            if src.chance(2, 3):
                made = p.model.add_choices(iter(names), iter(scales))
            else:
                made = p.model.add_choices(names)
                scales = [1.0 for _ in names]
            if list(made) != names:
                raise Violation('nodes', f'add_choices({names}) returned {list(made)}')
        else:
            made = {}
            for name, scale in zip(names, scales):
                made[name] = (p.model if not at else p.nodes[at]).add_choice(name, scale)
        for name, scale in zip(names, scales):
            path = at + (name,)
            for old in [x for x in p.nodes if x[:len(path)] == path]:
                del p.nodes[old]
            p.nodes[path] = made[name]
            p.ref.add_choice(name, scale, at or None)
        if src.chance(1, 6):
            p.model.decision_units = [1, 2]
            p.ref.set_units(mm.pd.Index([1, 2]))
        rep = Report(R, mc, p)
        for part in ('choices', 'nodes', 'validation', 'units'):
            if src.chance(1, 4):
                interrupted(R, 'report', getattr(rep, part))
            getattr(rep, part)()
        if src.chance(1, 4):
            q = mm.Pair('N', p.model.copy(), p.ref, p.nodes)
            Report(R, mc, q).choices()
            Report(R, mc, q).validation()
        R.probe('choices of growing models added', len(names))
    R.nontrivial = True


def run(R):
    src = R.src
    if src.chance(1, 5):
        return growing(R)
    mc = mm.Machine(R)
    p = mc.pairs[0]
    if src.chance(3, 4):
        mc.op_units(p)
    for _ in range(src.draw(4)):
        mc.op_expr(p)
    if src.chance(1, 2):
        mc.make_ready(p)
    for k in range(src.rint(3, 16)):
        p = src.pick(mc.pairs)
        op = src.weighted(OPS)
        note_state(R, p)
        if op == 'run':
            mc.op_run(p)
        elif op == 'ready':
            mc.make_ready(p)
        elif op == 'half_nest':
            half_nest(R, mc, p)
        elif op == 'broken':
            broken(R, mc, p)
        elif op == 'refused':
            mc.op_refused(p)
        elif op == 'debug':
            if p.ref.units is not None and len(p.ref.units):
                p.model.debug_id = src.pick([None] + list(p.ref.units[:4]))
        else:
            getattr(mc, 'op_' + op)(p)
            if p.model.debug_id is not None:
                p.model.debug_id = None
        if src.chance(1, 2):
            rep = Report(R, mc, src.pick(mc.pairs))
            if src.chance(1, 4):
                interrupted(R, 'report', rep.ask)
            rep.ask()
        if src.chance(1, 20):
            in_threads(R, mc)
    for p in mc.pairs:
        Report(R, mc, p).all()
    R.nontrivial = True

"""Level B: the parallel loops of cheval/core.py as simulated threads.

The importer below compiles every module of the package from its current source (never from a stale .pyc), registers its
code objects for scheduling/interrupts, and rewrites `for i in prange(...)` of core.py so that each loop body becomes a
task handed to `par_for`, which divides the iterations into chunks and interleaves them on virtual worker threads.
Names assigned in a body are private to an iteration, as they are in numba.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import sched
from .engine import Violation

PAR = None          # current ParPolicy; None -> plain sequential loop
RANDOM = None       # replaces `np.random` of core.py (random source chosen by the simulator)
STATS = {'loops': 0, 'preempted_loops': 0, 'sequential_only': 0, 'switches': 0}
TRANSFORMED = {}    # function name -> list of loop kinds, for the evidence
_par_codes = []


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.stored, self.loaded, self.aug = set(), set(), set()

    def visit_Name(self, n):
        (self.stored if isinstance(n.ctx, (ast.Store, ast.Del)) else self.loaded).add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
        self.generic_visit(n)


def _names(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v


def _is_prange(node):
    return (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)
            and ((isinstance(node.iter.func, ast.Name) and node.iter.func.id == 'prange')
                 or (isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == 'prange')))


class _Continue(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_For


class _Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.fn = None
        self.count = 0
        self.report = {}

    def visit_FunctionDef(self, node):
        if self.fn is not None:
            return self.generic_visit(node)
        self.fn = node
        self.generic_visit(node)
        self.fn = None
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not _is_prange(node) or self.fn is None or node.orelse or not isinstance(node.target, ast.Name):
            return node
        body = _names(node.body)
        inside = set(map(id, ast.walk(node)))
        others = [n for n in ast.walk(self.fn) if id(n) not in inside]
        outer_stored = {n.id for n in others if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        outer_stored |= {a.arg for a in self.fn.args.args}
        elsewhere = set()
        for n in others:
            if _is_prange(n) or (isinstance(n, ast.FunctionDef) and n.name.startswith('__task_')):
                elsewhere |= set(map(id, ast.walk(n)))
        read_after = {n.id for n in others if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                      and id(n) not in elsewhere and getattr(n, 'lineno', 0) > node.lineno}
        assigned = body.stored - {node.target.id}
        # Reductions and values read after the loop get numba's own treatment, which is not modelled: run in order
        # (a name that every such loop assigns before use is private to each of them)
        read_first = self._read_before_store(node.body)
        sequential = bool(assigned & ((outer_stored & read_first) | read_after))
        self.count += 1
        self.report.setdefault(self.fn.name, []).append('in-order' if sequential else 'preemptible')
        name = f'__task_{self.count}'
        if sequential:
            shared = sorted(assigned & (outer_stored | read_after))
        else:
            shared = []
        new_body = [_Continue().visit(n) for n in node.body]
        if shared:
            new_body = [ast.Nonlocal(names=shared)] + new_body
        fn = ast.FunctionDef(
            name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id)], kwonlyargs=[],
                                          kw_defaults=[], defaults=[]), body=new_body, decorator_list=[], returns=None,
            type_params=[])
        call = ast.Expr(ast.Call(func=ast.Name('__sim_par_for__', ast.Load()),
                                 args=[ast.Call(func=ast.Name('range', ast.Load()), args=node.iter.args, keywords=[]),
                                       ast.Name(name, ast.Load()), ast.Constant(sequential)], keywords=[]))
        out = [ast.copy_location(fn, node), ast.copy_location(call, node)]
        for nm in shared:
            if nm not in outer_stored:
                out.insert(0, ast.copy_location(ast.Assign(targets=[ast.Name(nm, ast.Store())],
                                                           value=ast.Constant(None)), node))
        for o in out:
            ast.fix_missing_locations(o)
        return out

    @staticmethod
    def _read_before_store(body):
        """Names possibly read in the body before the body assigns them (linear approximation)."""
        seen, read = set(), set()
        for stmt in body:
            v = _names([stmt])
            read |= (v.loaded | v.aug) - seen
            if isinstance(stmt, ast.Assign) or isinstance(stmt, ast.AnnAssign):
                seen |= v.stored
            else:
                seen |= v.stored  # for-targets etc. are assigned before use inside the statement
        return read


def par_for(rng, task, sequential):
    STATS['loops'] += 1
    policy = PAR
    if policy is None or sequential or len(rng) == 0:
        if sequential:
            STATS['sequential_only'] += 1
        for i in rng:
            task(i)
        return
    policy.run_loop(list(rng), task)


class ParPolicy:
    """Executes a parallel loop on virtual workers that are preempted at line (or instruction) boundaries."""

    def __init__(self, run, n_workers, instructions=False):
        self.run = run
        self.n_workers = n_workers
        self.instructions = instructions
        self.lost = []
        self.rngs = {}
        self.dirty = 0

    def rng_of(self, w):
        import numpy as np
        if w not in self.rngs:
            self.rngs[w] = np.random.RandomState((self.dirty * 7919 + w * 104729 + 17) % (2 ** 32))
        return self.rngs[w]

    def run_loop(self, items, task):
        src = self.run.src
        n = len(items)
        pieces = min(n, 1 + src.draw(max(2, self.n_workers)))
        cuts = [0] + sorted(src.draw(n + 1) for _ in range(pieces - 1)) + [n]
        chunks = [items[a:b] for a, b in zip(cuts, cuts[1:])]
        self.run.log('loop', n, 'pieces', [len(c) for c in chunks])
        s = sched.Scheduler(self.run, codes=_par_codes, instructions=self.instructions, budget=3_000_000,
                            quanta=[(2, 0), (4, 3), (4, 12), (2, 60)])
        policy = self

        def make(k, chunk):
            def go():
                try:
                    for i in chunk:
                        task(i)
                except sched.Abort:
                    raise
                except BaseException as e:  # an exception is lost on a worker thread (it skips the rest of its piece)
                    policy.lost.append(type(e).__name__)
            return go

        for k, chunk in enumerate(chunks):
            s.spawn(k, make(k, chunk))
        s.go()
        STATS['preempted_loops'] += 1
        STATS['switches'] += s.switches
        self.run.probe('worker switches', s.switches)
        self.run.log('switches', s.switches, hash_trace(s.trace))
        self.run.state('interleaving', hash_trace(s.trace))
        if self.lost:
            self.run.probe('exceptions lost on workers', len(self.lost))


def hash_trace(trace):
    import hashlib
    return hashlib.sha1(repr(trace).encode()).hexdigest()[:10]


class _NpProxy:
    """numpy, except that `np.random` is the running virtual worker's private generator."""

    def __init__(self, np):
        object.__setattr__(self, '_np', np)

    def __getattr__(self, name):
        if name == 'random':
            if RANDOM is not None:
                return RANDOM
            t = sched.running_task()
            if t is not None and PAR is not None:
                return PAR.rng_of(t.k + 1)
            return self._np.random
        return getattr(self._np, name)


class Loader(importlib.machinery.SourceFileLoader):
    transform_core = False

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        source = self.get_data(path)
        if Loader.transform_core and fullname == 'cheval.core':
            tree = ast.parse(source, path)
            rw = _Rewrite()
            tree = rw.visit(tree)
            ast.fix_missing_locations(tree)
            TRANSFORMED.update(rw.report)
            code = compile(tree, path, 'exec', dont_inherit=True)
        else:
            code = compile(source, path, 'exec', dont_inherit=True)
        before = len(sched.CODES)
        sched.register_code(code)
        if fullname == 'cheval.core':
            _par_codes.extend(c for c in sched.CODES[before:] if c.co_name != '<module>')
        return code

    def exec_module(self, module):
        if Loader.transform_core and module.__name__ == 'cheval.core':
            module.__dict__['__sim_par_for__'] = par_for
        super().exec_module(module)
        if Loader.transform_core and module.__name__ == 'cheval.core' and 'np' in module.__dict__:
            module.__dict__['np'] = _NpProxy(module.__dict__['np'])


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'cheval' and not fullname.startswith('cheval.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install_importer(transform_core=True):
    Loader.transform_core = transform_core
    sys.meta_path.insert(0, Finder())

"""Cooperative scheduler for real (parked) threads and line-level interrupts of the code under test.

Threads of a simulated run never run concurrently: one holds the baton, all others are parked on their own lock.  The
baton can only change hands at events of `sys.monitoring` (LINE, INSTRUCTION or POINTS) inside the code under test and at the
seams; who gets it and for how many events is drawn from the choice source.
"""
import _thread
import sys
import threading
import zlib

from .engine import Violation

TOOL = 3
MON = sys.monitoring
CODES = []           # code objects of the package under test, in definition order (filled in by the importer)
_active = None       # the active Scheduler
_interrupt = None    # the active Interrupter
_enabled_events = 0
_real_allocate = _thread.allocate_lock


def register_code(code, skip=()):
    """Collects a module's code objects (called by the importer)."""
    stack = [code]
    while stack:
        c = stack.pop(0)
        CODES.append(c)
        stack.extend(k for k in c.co_consts if hasattr(k, 'co_code'))


def _code_filter(codes, pred):
    return [c for c in codes if pred is None or pred(c)]


_tool_ready = False


def _ensure_tool():
    global _tool_ready
    if not _tool_ready:
        MON.use_tool_id(TOOL, 'verif-sim')
        MON.register_callback(TOOL, MON.events.LINE, _on_line)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _on_instruction)
        MON.register_callback(TOOL, MON.events.CALL, _on_call)
        MON.register_callback(TOOL, MON.events.C_RETURN, _on_call)
        MON.register_callback(TOOL, MON.events.PY_START, _on_instruction)
        MON.register_callback(TOOL, MON.events.JUMP, _on_jump)
        _tool_ready = True


_instrumented = []


def _enable(codes, events):
    _ensure_tool()
    for c in codes:
        MON.set_local_events(TOOL, c, events)
        _instrumented.append(c)


def _disable():
    for c in _instrumented:
        MON.set_local_events(TOOL, c, 0)
    _instrumented.clear()


def _on_line(code, line):
    s = _active
    if s is not None:
        s.tick(code, line)
    i = _interrupt
    if i is not None:
        i.tick(code, line)


def _on_instruction(code, offset):
    s = _active
    if s is not None:
        s.tick(code, -offset)
    i = _interrupt
    if i is not None:
        i.tick(code, -offset)


def _on_call(code, offset, callee, arg0):
    _on_instruction(code, offset)


def _on_jump(code, offset, dest):
    if dest < offset:
        _on_instruction(code, offset)


# The points at which CPython looks for signals and hands over the interpreter lock, and at which allocations can fail:
# calls (before, and after calls of C functions), function entries and backward jumps.  A sequence of plain stores has none.
POINTS = MON.events.CALL | MON.events.PY_START | MON.events.JUMP


def line_of(code, where):
    """Line number within the function of a tick."""
    if where > 0:
        return where - code.co_firstlineno
    for a, b, line in code.co_lines():
        if a <= -where < b:
            return (line or code.co_firstlineno) - code.co_firstlineno
    return 0


class Abort(BaseException):
    pass


class _Task:
    def __init__(self, k, name, fn):
        self.k = k
        self.name = name
        self.fn = fn
        self.lock = _real_allocate()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.ident = None
        self.waiting = False


class Scheduler:
    def __init__(self, run, *, codes=None, pred=None, instructions=False, points=False, budget=400_000, quanta=None, on_switch=None,
                 hot=None):
        self.run = run
        self.src = run.src
        self.tasks = []
        self.current = None
        self.quantum = 0
        self.ticks = 0
        self.switches = 0
        self.budget = budget
        self.abort = False
        self.codes = _code_filter(CODES if codes is None else codes, pred)
        self.events = POINTS if points else MON.events.INSTRUCTION if instructions else MON.events.LINE
        self.quanta = quanta or [(3, 0), (3, 4), (4, 24), (3, 120)]
        self.main_lock = _real_allocate()
        self.main_lock.acquire()
        self.by_ident = {}
        self.failure = None
        self.on_switch = on_switch
        self.trace = []
        self.hot = hot         # (by, modulus, remainder): places of the code at which the baton is often taken away
        self.is_hot = {}

    def spawn(self, name, fn):
        t = _Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def _quantum(self):
        q = self.src.weighted(self.quanta)
        return (1 + self.src.draw(q)) if q else 1 << 60

    def _body(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.abort:
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        try:
            self._next(t)
        except BaseException as e:  # never strand the others
            self.failure = self.failure or e
            self.abort = True
            rest = [x for x in self.tasks if not x.done]
            if rest:
                self.current = rest[0]
                rest[0].lock.release()
            else:
                self.main_lock.release()

    def _next(self, me, exclude_me=False):
        """Hands the baton over; returns when `me` gets it back (unless it is done)."""
        ready = [x for x in self.tasks if not x.done and not x.waiting]
        if not ready:
            ready = [x for x in self.tasks if not x.done]
            if ready and not self.abort:
                self.failure = Violation('deadlock', 'all caller threads wait for a lock')
                self.abort = True
        if not ready:
            self.main_lock.release()
            return
        if self.abort:
            nxt = ready[0]
        else:
            nxt = ready[self.src.draw(len(ready))]
            self.quantum = self._quantum()
        if nxt is me and not me.done:
            return
        self.switches += 1
        self.current = nxt
        if self.on_switch:
            self.on_switch(nxt)
        nxt.lock.release()
        if not me.done:
            me.lock.acquire()
            if self.abort:
                raise Abort()

    def tick(self, code, line):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t is not self.current:
            return
        if self.abort:
            raise Abort()
        self.ticks += 1
        if self.ticks > self.budget:
            self.failure = Violation('hang', f'no completion within {self.budget} simulated steps')
            self.abort = True
            raise Abort()
        for x in self.tasks:
            x.waiting = False
        self.quantum -= 1
        if self.quantum <= 0 or (self.hot is not None and self._at_hot_place(code, line)):
            if len(self.trace) < 4000:
                self.trace.append((t.k, code.co_name, line))
            self._next(t)

    def _at_hot_place(self, code, line):
        by, modulus, rest = self.hot
        place = code.co_qualname if by == 'function' else f'{code.co_qualname}:{line_of(code, line)}'
        hot = self.is_hot.get(place)
        if hot is None:
            hot = self.is_hot[place] = zlib.crc32(place.encode()) % modulus == rest
        return hot and self.src.chance(1, 2)

    def yield_point(self):
        """A seam where the running thread may lose the baton (a blocking call)."""
        t = self.by_ident.get(_thread.get_ident())
        if t is not None and t is self.current and not self.abort:
            self._next(t)

    def block(self):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t is not self.current:
            return False
        if self.abort:
            raise Abort()
        t.waiting = True
        if not any(not x.done and not x.waiting for x in self.tasks):
            self.failure = Violation('deadlock', 'all caller threads wait for a lock')
            self.abort = True
            raise Abort()
        self._next(t)
        return True

    def go(self):
        global _active
        assert _active is None
        threads = []
        _active = self
        _enable(self.codes, self.events)
        try:
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                threads.append(th)
                th.start()
            first = self.tasks[self.src.draw(len(self.tasks))]
            self.quantum = self._quantum()
            self.current = first
            if self.on_switch:
                self.on_switch(first)
            first.lock.release()
            self.main_lock.acquire()
            for th in threads:
                th.join()
        finally:
            _active = None
            _disable()
        if self.failure is not None:
            raise self.failure
        self.run.step(self.ticks)
        return self.tasks


def draw_hot(run):
    by = run.src.pick([None, 'function', 'place'])
    if by is None:
        return None
    run.probe('schedules with hot places')
    k = run.src.pick([24, 12, 5])
    return by, k, run.src.draw(k)


def block_current():
    return _active is not None and _active.block()


def yield_point():
    if _active is not None:
        _active.yield_point()


def running_task():
    if _active is None:
        return None
    return _active.by_ident.get(_thread.get_ident())


class Interrupter:
    """Raises `exc` in the calling thread at the k-th interruptible point (1-based, see POINTS) of the selected code."""

    def __init__(self, k, exc, codes=None, pred=None):
        self.k = k
        self.exc = exc
        self.count = 0
        self.where = None
        self.ident = _thread.get_ident()
        self.codes = _code_filter(CODES if codes is None else codes, pred)

    def tick(self, code, line):
        if _thread.get_ident() != self.ident:
            return
        self.count += 1
        if self.count == self.k:
            self.where = f'{code.co_qualname}:+{line_of(code, line)}'
            raise self.exc

    def __enter__(self):
        global _interrupt
        assert _interrupt is None
        _interrupt = self
        _enable(self.codes, POINTS)
        return self

    def __exit__(self, *a):
        global _interrupt
        _interrupt = None
        _disable()
        return False


def stop_all():
    global _active, _interrupt
    _active = _interrupt = None
    if _instrumented:
        _disable()

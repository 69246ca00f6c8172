"""A simulated numba threading layer (level A).

Installed before cheval is imported, in place of omp/workqueue.  The compiled kernels of cheval (the real machine code
numba generates from /repo) ask the layer to divide a parallel loop and to run the pieces; this layer answers both from
the seeded choice source:

* how many pieces there are and where the boundaries lie,
* which virtual worker executes which piece and in which order,
* the state every virtual worker's private random generator is in when the piece starts (they keep it between pieces,
  and start dirty),
* an exception raised while a piece runs is dropped, which is what happens on a real worker thread.

No real thread is ever started; pieces run one at a time on the calling thread.
"""
import ctypes
import random as _random

SCHED = None          # current schedule policy (object with .plan(...)); None -> one piece, in order
_keep = []
STATS = {'loops': 0, 'pieces': 0, 'moved': 0, 'dropped_exceptions': 0, 'uneven': 0, 'reordered': 0}
_pending = {}
_current_thread_id = 0
_num_threads = 1
MAX_THREADS = 16
RNG = None
SIGS = None           # when a list: append a signature of every loop's schedule
DROPPED = []


def install():
    global RNG, _num_threads
    from numba.core import config
    import llvmlite.binding as ll
    import numba.np.ufunc.parallel as P
    from numba import _helperlib as H
    from numba.np.ufunc import workqueue as lib

    assert not P._is_initialized
    P._set_init_process_lock()
    # real helpers for memory of the schedule (pure functions, no threads)
    for n in ('do_scheduling_signed', 'do_scheduling_unsigned', 'allocate_sched', 'deallocate_sched'):
        ll.add_symbol(n, getattr(lib, n))

    VP, ST = ctypes.c_void_p, ctypes.c_ssize_t

    def cb(name, proto, fn):
        c = proto(fn)
        _keep.append(c)
        ll.add_symbol(name, ctypes.cast(c, VP).value)
        return c

    def _get_num_threads():
        return _num_threads

    def _set_num_threads(n):
        global _num_threads
        _num_threads = int(n)

    def _get_thread_id():
        return _current_thread_id

    chunk = [0]

    def _set_chunk(n):
        old = chunk[0]
        chunk[0] = n
        return old

    def _get_chunk():
        return chunk[0]

    P._get_num_threads = cb('get_num_threads', ctypes.CFUNCTYPE(ST), _get_num_threads)
    P._set_num_threads = cb('set_num_threads', ctypes.CFUNCTYPE(None, ctypes.c_int), _set_num_threads)
    P._get_thread_id = cb('get_thread_id', ctypes.CFUNCTYPE(ST), _get_thread_id)
    P._set_parallel_chunksize = cb('set_parallel_chunksize', ctypes.CFUNCTYPE(ctypes.c_size_t, ctypes.c_size_t),
                                   _set_chunk)
    P._get_parallel_chunksize = cb('get_parallel_chunksize', ctypes.CFUNCTYPE(ctypes.c_size_t), _get_chunk)

    def _get_sched_size(n_threads, num_dim, starts, ends):
        total = 1
        for d in range(num_dim):
            total *= max(0, ends[d] - starts[d] + 1)
        plan = SCHED.plan(int(n_threads), total) if SCHED is not None else None
        if plan is None:
            plan = ([total], [0], [0])
        _pending['plan'] = plan
        return max(1, len(plan[0]))

    cb('get_sched_size', ctypes.CFUNCTYPE(ctypes.c_size_t, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ST),
                                          ctypes.POINTER(ST)), _get_sched_size)
    P._get_sched_size = None

    real_sched = ctypes.CFUNCTYPE(VP, ctypes.c_size_t, ctypes.POINTER(ST), ctypes.POINTER(ST), ctypes.c_size_t,
                                  ctypes.POINTER(ST), ST)(lib.do_scheduling_signed)
    _keep.append(real_sched)

    def _do_scheduling(num_dim, starts, ends, ndiv, sched, debug):
        plan = _pending['plan']
        if num_dim != 1:  # leave multi-dimensional divisions to the real helper; only the execution is scheduled
            real_sched(num_dim, starts, ends, ndiv, sched, debug)
        else:
            pos = starts[0]
            for k, size in enumerate(plan[0]):
                if size <= 0:
                    sched[2 * k], sched[2 * k + 1] = 1, 0
                else:
                    sched[2 * k], sched[2 * k + 1] = pos, pos + size - 1
                    pos += size
            assert pos == ends[0] + 1, (pos, ends[0])
        return ctypes.addressof(sched.contents)

    proto = ctypes.CFUNCTYPE(VP, ctypes.c_size_t, ctypes.POINTER(ST), ctypes.POINTER(ST), ctypes.c_size_t,
                             ctypes.POINTER(ST), ST)
    cb('do_scheduling_signed', proto, _do_scheduling)
    cb('do_scheduling_unsigned', proto, _do_scheduling)

    KERNEL = ctypes.PYFUNCTYPE(None, VP, VP, VP, VP)
    fn_cache = {}
    rnd_ptr = H.rnd_get_np_state_ptr()
    py_ptr = H.rnd_get_py_state_ptr()

    class RngPool:
        """Private random generator states of the virtual workers (numba keeps one per thread)."""

        def __init__(self):
            self.states = {}
            self.seed0 = 0

        def reset(self, seed):
            self.states.clear()
            self.seed0 = seed

        def state(self, w, which):
            key = (w, which)
            if key not in self.states:
                r = _random.Random((self.seed0 * 1000003 + w) * 2 + which)
                st = r.getstate()[1]
                self.states[key] = (r.randrange(1, 624), list(st[:-1]))
            return self.states[key]

    RNG = RngPool()

    def _parallel_for(fn, args, dims, steps, data, inner_ndim, array_count, n_threads):
        global _current_thread_id
        try:
            rows = dims[0]
            sizes, workers, order = _pending.pop('plan')
            if rows != max(1, len(sizes)):
                sizes, workers, order = [1] * rows, [0] * rows, list(range(rows))
            if fn not in fn_cache:
                fn_cache[fn] = KERNEL(fn)
            f = fn_cache[fn]
            dim_t = ST * (inner_ndim + 1)
            arg_t = VP * array_count
            STATS['loops'] += 1
            if order != list(range(len(order))):
                STATS['reordered'] += 1
            if SIGS is not None:
                SIGS.append((tuple(sizes), tuple(workers), tuple(order)))
            for k in order:
                w = workers[k]
                d = dim_t(1, *[dims[j + 1] for j in range(inner_ndim)])
                a = arg_t(*[(args[j] or 0) + steps[j] * k for j in range(array_count)])
                STATS['pieces'] += 1
                mine = w != 0
                if mine:
                    STATS['moved'] += 1
                    saved = (H.rnd_get_state(rnd_ptr), H.rnd_get_state(py_ptr))
                    H.rnd_set_state(rnd_ptr, RNG.state(w, 0))
                    H.rnd_set_state(py_ptr, RNG.state(w, 1))
                _current_thread_id = w
                try:
                    f(ctypes.addressof(a), ctypes.addressof(d), ctypes.cast(steps, VP).value, data)
                except BaseException as e:
                    STATS['dropped_exceptions'] += 1
                    DROPPED.append(type(e).__name__)
                finally:
                    _current_thread_id = 0
                    if mine:
                        RNG.states[(w, 0)] = H.rnd_get_state(rnd_ptr)
                        RNG.states[(w, 1)] = H.rnd_get_state(py_ptr)
                        H.rnd_set_state(rnd_ptr, saved[0])
                        H.rnd_set_state(py_ptr, saved[1])
        except BaseException:  # never let the harness fail silently inside a C callback
            import os
            import traceback
            traceback.print_exc()
            os._exit(70)

    cb('numba_parallel_for',
       ctypes.CFUNCTYPE(None, VP, ctypes.POINTER(VP), ctypes.POINTER(ST), ctypes.POINTER(ST), VP, ST, ST, ST),
       _parallel_for)

    _num_threads = min(MAX_THREADS, config.NUMBA_NUM_THREADS)
    P._threading_layer = 'simulated'
    P._is_initialized = True


class SeededSchedule:
    """Draws divisions and execution orders from a choice source."""

    def __init__(self, src, style=None):
        self.src = src
        self.style = style

    def plan(self, n_threads, total):
        src = self.src
        if total <= 0:
            return None
        mode = src.draw(4)
        # 0: one piece per thread, even, in order; 1: even, any order; 2: uneven pieces; 3: many small pieces
        if mode in (0, 1):
            n = n_threads
        elif mode == 2:
            n = 1 + src.draw(min(total, 2 * n_threads) if n_threads > 1 else min(total, 3))
        else:
            n = min(total, 24)
        if mode in (0, 1):
            sizes = [total // n + (1 if k < total % n else 0) for k in range(n)]
        else:
            cuts = sorted(src.draw(total + 1) for _ in range(n - 1))
            cuts = [0] + cuts + [total]
            sizes = [b - a for a, b in zip(cuts, cuts[1:])]
            STATS['uneven'] += 1
        if n_threads == 1:
            return sizes, [0] * n, list(range(n)) if mode == 0 else src.shuffle(list(range(n)))
        if mode == 0:
            return sizes, [k % n_threads for k in range(n)], list(range(n))
        order = src.shuffle(list(range(n)))
        workers = [src.draw(n_threads) for _ in range(n)]
        return sizes, workers, order

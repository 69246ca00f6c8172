"""C14: when a link is computed never changes what it returns."""
from .. import lm, sched
from ..sched import Scheduler
from .faults import interrupted
from .linkcommon import ASSUMPTIONS as _A, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 3800}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws tables and mostly deferred links, then a history in which linking, first uses, computations in advance, '
        'refreshes (with and without edited keys), derivations and lookups are interrupted, run out of memory or meet a failing '
        'engine at drawn points and are tried again, and in which several simulated threads use the same links for the first '
        'time; every lookup and aggregation is compared with brute-force key matching, and between a failed refresh and its '
        'retry each link must follow the old keys or the new ones as a whole.')
ASSUMPTIONS = _A + ['an interrupt, a failing allocation or a thread switch comes at a call, function entry or backward jump of the '
                    'package, not inside pandas or numpy and not between plain stores']


def lookups_in_threads(R, mc, states, interrupt):
    """The same links are used for the first time by several threads."""
    src = R.src
    s = Scheduler(R, points=True, hot=sched.draw_hot(R))
    n = src.rint(2, 3)
    before = sum(1 for fs in states for x in fs.df.link_summary()['preindexed'] if not x)
    for k in range(n):
        def body(k=k):
            for _ in range(1 + src.draw(2)):
                fs = src.pick(states)
                what = src.draw(6)
                R.log('thread', k, fs.name)
                if what == 5 and not fs.relabelled and all(k in fs.must for k in fs.links):
                    fs.df.compute_indexers(refresh=src.chance(1, 2))
                else:
                    mc.check_some(fs, 1)
        s.spawn(f'thread {k}', body)
    tasks = s.go()
    R.probe('first uses raced by threads', before)
    if s.switches > n:
        R.probe('schedules with preemption')
    R.fault('thread preempted', max(0, s.switches - n))
    R.log('schedule', s.switches, s.trace[:40])
    for t in tasks:
        if t.error is not None:
            raise t.error


def sweep(R, what, fn, between=None):
    """The same operation is interrupted further and further on, until it gets through."""
    step = R.src.pick([1, 1, 2, 3])
    k = 1 + R.src.draw(step)
    while k < 400:
        failed, r = interrupted(R, what, fn, k=k)
        if not failed:
            R.probe('operations interrupted again and again until they got through')
            return r
        if between is not None:
            between()
        k += step
    return fn()


def run(R):
    src = R.src
    quiet = [False]

    def faulty(what, fn, between):
        if quiet[0]:
            return fn()
        if src.chance(1, 6):
            return sweep(R, what, fn, between)
        while src.chance(2, 5):
            failed, r = interrupted(R, what, fn)
            if not failed:
                return r
            if between is not None and src.chance(2, 3):
                between()
        return fn()
    mc = lm.LinkMachine(R, many=src.chance(2, 3), deferred=src.pick([5, 4, 2]), max_rows=src.pick([6, 11]), faulty=faulty)
    for k in range(src.rint(2, 10)):
        if not mc.live:
            break
        fs = src.pick(mc.live)
        what = src.weighted([(6, 'faulted look'), (2, 'look'), (2, 'recompute'), (2, 'threads'), (3, 'derive'), (2, 'key'),
                             (2, 'target'), (1, 'relink'), (1, 'inplace'), (1, 'refuse')])
        note_state(R, fs)
        if what == 'faulted look':
            if src.chance(1, 8):
                paths = mc.paths(fs)
                if paths:
                    path = src.pick(paths)
                    sweep(R, 'lookup', lambda: mc.check_agg(fs, path) if path[-1][1].many else mc.check_lookup(fs, path))
            else:
                interrupted(R, 'lookup', lambda: mc.check_some(fs, 1), engine=True)
            if src.chance(1, 2):
                mc.check_some(fs, 2)
        elif what == 'look':
            mc.check_some(fs, 2)
        elif what == 'recompute':
            mc.recompute(fs)
        elif what == 'threads':
            lookups_in_threads(R, mc, [fs] if src.chance(2, 3) else mc.live, False)
        elif what == 'derive':
            if src.chance(1, 3):
                failed, ns = interrupted(R, 'derivation', lambda: mc.derive(fs))
                if failed:
                    mc.check_some(fs, 1)
            else:
                ns = mc.derive(fs)
            if ns is not None:
                mc.live.append(ns)
                if len(mc.live) > 5:
                    mc.live.pop(src.draw(5))
        elif what == 'key':
            mc.inplace(fs, 'key')
        elif what == 'target':
            mc.edit_target()
        elif what == 'relink':
            mc.relink(fs)
        elif what == 'refuse':
            if mc.refuse(fs, 'many'):
                R.probe('links refused, deferred or not')
        else:
            mc.inplace(fs)
    quiet[0] = True
    for fs in mc.live:
        note_state(R, fs)
        mc.check_all(fs)
    mc.check_tables()
    R.nontrivial = True

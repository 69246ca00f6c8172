"""Faults injected into operations on linked frames (C14, C15, C16)."""
from .. import sched, world
from ..sched import Interrupter


class Injected(Exception):
    pass


class InjectedExit(BaseException):
    pass


KINDS = [('interrupt', KeyboardInterrupt), ('failed allocation', MemoryError), ('exit', InjectedExit)]


def draw_point(src):
    return 1 + src.draw(2 << src.draw(8))


def interrupted(R, what, fn, k=None, engine=False):
    """Calls fn with a fault at a drawn point. Returns (failed?, result or None)."""
    src = R.src
    if sched._interrupt is not None or sched._active is not None:
        return False, fn()
    if engine and src.chance(1, 5):
        exc, n = Injected('injected'), [0]
        nth = 1 + src.draw(2)
        after = src.chance(1, 2)

        def fail(*a):
            n[0] += 1
            if n[0] == nth:
                raise exc
        setattr(world.SEAMS, 'ne_after' if after else 'ne_before', fail)
        try:
            r = fn()
        except Injected:
            R.fault(f'engine failure in {what}')
            R.log('engine failure in', what)
            return True, None
        finally:
            world.SEAMS.ne_after = world.SEAMS.ne_before = None
        return False, r
    name, cls = src.pick(KINDS)
    exc = cls('injected')
    it = Interrupter(k or draw_point(src), exc)
    try:
        with it:
            r = fn()
    except cls as e:
        if e is not exc:
            raise
        R.fault(f'{name} in {what}')
        R.log(name, 'in', what, 'at', it.where)
        R.probe('interrupted at ' + it.where.split(':')[0])
        return True, None
    if it.where is not None:
        R.fault(f'{name} in {what}, swallowed')
        R.log(name, 'in', what, 'at', it.where, 'swallowed')
        return True, None
    return False, r

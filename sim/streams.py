"""Simulated streams and a simulated disk: drawn pieces, errors at drawn calls, full disks, torn writes."""
import errno
import io
import os


class Custom(Exception):
    pass


def draw_error(src):
    name = src.pick(['EIO', 'ENOSPC', 'EPIPE', 'timeout', 'interrupt', 'custom', 'memory', 'value', 'unsupported', 'eof', 'stop',
                     'EINTR', 'EACCES', 'ECONNRESET', 'ESTALE'])
    return name, {'EIO': lambda: OSError(errno.EIO, os.strerror(errno.EIO)),
                  'ENOSPC': lambda: OSError(errno.ENOSPC, os.strerror(errno.ENOSPC)),
                  'EPIPE': lambda: BrokenPipeError(errno.EPIPE, 'broken pipe'),
                  'EINTR': lambda: InterruptedError(errno.EINTR, os.strerror(errno.EINTR)),
                  'EACCES': lambda: PermissionError(errno.EACCES, os.strerror(errno.EACCES)),
                  'ECONNRESET': lambda: ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET)),
                  'ESTALE': lambda: OSError(errno.ESTALE, os.strerror(errno.ESTALE)),
                  'timeout': lambda: TimeoutError('timed out'), 'interrupt': lambda: KeyboardInterrupt('injected'),
                  'custom': lambda: Custom('injected'), 'memory': lambda: MemoryError('injected'),
                  'value': lambda: ValueError('I/O operation on closed file'), 'unsupported': lambda: io.UnsupportedOperation('not readable'),
                  'eof': lambda: EOFError('truncated'), 'stop': lambda: SystemExit('injected')}[name]


class Plan:
    """pieces: sizes delivered/accepted per call (repeated); error at call number `at` or once `limit` bytes went through."""

    def __init__(self, pieces=None, at=None, limit=None, on=None, error=None, name='', torn=0):
        self.pieces, self.at, self.limit, self.on, self.error, self.name, self.torn = pieces, at, limit, on, error, name, torn

    def without_error(self):
        return Plan(self.pieces)


class State:
    def __init__(self, plan):
        self.plan, self.calls, self.fired = plan, 0, None
        self.n_short = 0
        self.dead = False

    def size(self, n):
        p = self.plan.pieces
        if not p:
            return n
        k = p[self.calls % len(p)]
        if k < n:
            self.n_short += 1
        return min(n, k)

    def tick(self, where='data'):
        """Counts a call; raises if it is the one to fail."""
        if where == 'data':
            self.calls += 1
        plan = self.plan
        if plan.error is None or self.dead:
            return
        if (where == 'data' and plan.at is not None and self.calls >= plan.at) or (where != 'data' and plan.on == where):
            self.fire()

    def fire(self):
        self.dead = True          # later calls work, so that nothing fails again while the pieces are cleared away
        self.fired = self.plan.error()
        raise self.fired


class TextSource:
    """A text stream which is not a file: read() returns what is there."""

    def __init__(self, text, plan):
        self.text, self.pos, self.state = text, 0, State(plan)
        self.closed = False

    def read(self, n=-1):
        self.state.tick()
        rest = len(self.text) - self.pos
        if n is None or n < 0:
            n = rest
        n = self.state.size(min(n, rest)) if n else 0
        n = max(n, 1) if rest and n == 0 else n
        out = self.text[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readline(self, limit=-1):
        self.state.tick()
        end = self.text.find('\n', self.pos)
        end = len(self.text) if end < 0 else end + 1
        out = self.text[self.pos:end]
        self.pos = end
        return out

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def close(self):
        self.closed = True


class RawSource(io.RawIOBase):
    def __init__(self, data, plan):
        self.data, self.pos, self.state = data, 0, State(plan)

    def readable(self):
        return True

    def readinto(self, b):
        self.state.tick()
        rest = len(self.data) - self.pos
        n = min(len(b), rest)
        n = max(1, self.state.size(n)) if n else 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.state.tick('close')


class TextSink:
    def __init__(self, plan):
        self.parts, self.state = [], State(plan)
        self.closed = False

    def write(self, text):
        st = self.state
        try:
            st.tick()
        except BaseException:
            self.parts.append(text[:st.plan.torn])
            raise
        self.parts.append(text)
        return len(text)

    def flush(self):
        self.state.tick('flush')

    def readable(self):
        return False

    def writable(self):
        return True

    def seekable(self):
        return False

    def read(self, *a):
        raise io.UnsupportedOperation('read')

    def __iter__(self):
        raise io.UnsupportedOperation('read')

    def close(self):
        self.closed = True

    def content(self):
        return ''.join(self.parts)


class RawSink(io.RawIOBase):
    """Accepts pieces (a caller who wraps it in a buffer is not bothered by that); the disk may be full after `limit` bytes."""

    def __init__(self, plan, initial=b''):
        self.data, self.state = bytearray(initial), State(plan)

    def writable(self):
        return True

    def write(self, b):
        st = self.state
        b = bytes(b)
        try:
            st.tick()
        except BaseException:
            self.data += b[:st.plan.torn]
            raise
        n = max(1, st.size(len(b))) if b else 0
        if st.plan.limit is not None and not st.dead:
            room = st.plan.limit - len(self.data)
            if b and room <= 0:
                st.fire()
            n = min(n, room) if b else 0
        if not st.dead:
            self.data += b[:n]
            return n
        return len(b)             # after the failure: leftovers of buffers vanish

    def flush(self):
        super().flush()
        if not self.closed:
            self.state.tick('flush')

    def close(self):
        if not self.closed:
            super().close()
            self.state.tick('close')

    def content(self):
        return bytes(self.data)


class Disk:
    """Files by name, behind the `open` of pandas.io.common."""

    def __init__(self, plan):
        self.plan, self.files, self.handles = plan, {}, []
        self.fired = None

    def open(self, name, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **kw):
        name = os.path.basename(os.fspath(name))
        plan = self.plan
        if plan.error is not None and plan.on == 'open' and not self.fired:
            self.fired = plan.error()
            raise self.fired
        if 'r' in mode:
            if name not in self.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
            raw = RawSource(self.files[name], plan)
            b = io.BufferedReader(raw)
        else:
            raw = RawSink(plan, self.files.get(name, b'') if 'a' in mode else b'')
            disk = self
            close = raw.close

            def closing():
                disk.files[name] = raw.content()
                close()
            raw.close = closing
            self.files[name] = raw.content()
            b = io.BufferedWriter(raw)
        self.handles.append(raw)
        return b if 'b' in mode else io.TextIOWrapper(b, encoding=encoding or 'utf-8', errors=errors, newline=newline)

    @property
    def has_fired(self):
        return self.fired or next((h.state.fired for h in self.handles if h.state.fired), None)

"""A simulated version-control system behind `subprocess.Popen`: commands answer from a drawn repository state, or fail in
drawn ways.  Pipes have a bounded capacity, so that a reader that would block for ever is noticed."""
import errno
import io
import os
import subprocess

PIPE_CAPACITY = 65536


class Hang(Exception):
    """A call that never returns."""


class Repo:
    """HEAD with `total` commits; tags: [(name, distance, annotated)] reachable from it."""

    def __init__(self, root, head, total, tags, dirty, date, abbrev):
        self.root, self.head, self.total, self.tags = root, head, total, tags
        self.dirty, self.date, self.abbrev = dirty, date, abbrev

    def matching(self, pattern, annotated_only):
        import fnmatch
        c = [t for t in self.tags if (pattern is None or fnmatch.fnmatchcase(t[0], pattern)) and (t[2] or not annotated_only)]
        return min(c, key=lambda t: t[1]) if c else None

    def describe(self, opts):
        pattern = None
        annotated_only = '--tags' not in opts and '--all' not in opts
        for k, o in enumerate(opts):
            if o == '--match' and k + 1 < len(opts):
                pattern = opts[k + 1]
            elif o.startswith('--match='):
                pattern = o[len('--match='):]
        t = self.matching(pattern, annotated_only)
        short = self.head[:self.abbrev]
        if t is None:
            if '--always' not in opts:
                return 128, b''
            s = short
        elif t[1] == 0 and '--long' not in opts:
            s = t[0]
        else:
            s = f'{t[0]}-{t[1]}-g{short}'
        if self.dirty and any(o == '--dirty' or o.startswith('--dirty=') for o in opts):
            s += '-dirty'
        return 0, s.encode() + b'\n'

    def answer(self, args, cwd):
        cwd = os.path.realpath(cwd or os.getcwd())
        if cwd != self.root and not cwd.startswith(self.root + os.sep):
            return 128, b''
        if args[:1] == ['rev-parse'] and '--git-dir' in args:
            return 0, b'.git\n'
        if args[:1] == ['rev-parse'] and '--show-toplevel' in args:
            return 0, self.root.encode() + b'\n'
        if args[:1] == ['rev-parse'] and '--is-inside-work-tree' in args:
            return 0, b'true\n'
        if args[:1] == ['rev-parse'] and args[-1] == 'HEAD':
            short = any(a.startswith('--short') for a in args)
            return 0, (self.head[:self.abbrev] if short else self.head).encode() + b'\n'
        if args[:1] == ['describe']:
            return self.describe(args[1:])
        if args[:1] == ['rev-list'] and '--count' in args and 'HEAD' in args:
            return 0, b'%d\n' % self.total
        if args[:1] in (['show'], ['log']) and '--format=%ci' in args:
            return 0, self.date
        return 129, b''


def kind_of(args):
    if args[:1] == ['rev-parse']:
        return 'head' if args[-1] == 'HEAD' else 'gitdir'
    return {'describe': 'describe', 'rev-list': 'count', 'show': 'date', 'log': 'date'}.get(args[0] if args else '', 'other')


class World:
    """plan: {kind: fault}; fault = (name, payload)."""

    def __init__(self, repo, plan, R, missing_programs=()):
        self.repo, self.plan, self.R = repo, plan, R
        self.missing = set(missing_programs)
        self.calls = []

    def popen(self):
        world = self

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                         close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                         creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, text=None,
                         encoding=None, errors=None, **kw):
                if isinstance(args, str):
                    args = args.split() if shell else [args]
                args = [os.fsdecode(a) for a in args]
                if len(world.calls) > 300:
                    raise Hang('more than 300 commands')
                kind = kind_of(args[1:])
                world.calls.append((kind, tuple(args)))
                self.args, self.pid, self.returncode = args, 1000 + len(world.calls), None
                if args[0] in world.missing:
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
                name, payload = world.plan.get(kind, ('ok', None))
                world.R.log('command', kind, name)
                if name == 'oserror':
                    raise OSError(payload, os.strerror(payload), args[0])
                rc, out = world.repo.answer(args[1:], cwd)
                err = b''
                if name == 'fails':
                    rc, out = payload
                    err = b'fatal: simulated\n' * 10000       # more than a pipe holds
                elif name == 'prints':
                    rc, out = 0, payload
                self._rc = rc
                self._text = bool(text or universal_newlines or encoding or errors)
                self._enc, self._errors = encoding or 'utf-8', errors or 'strict'
                self._out = out if stdout == subprocess.PIPE else None
                if stderr == subprocess.STDOUT and self._out is not None:
                    self._out += err
                    err = b''
                self._err = err if stderr == subprocess.PIPE else None
                self.stdin = None
                self.stdout = self._stream('_out', '_err')
                self.stderr = self._stream('_err', '_out')

            def _stream(self, mine, other):
                data = getattr(self, mine)
                if data is None:
                    return None
                proc = self

                class Stream(io.BytesIO):
                    def read(self, *a):
                        o = getattr(proc, other)
                        if o is not None and len(o) > PIPE_CAPACITY:
                            raise Hang('one pipe is read to its end while the other is full')
                        setattr(proc, mine, b'')
                        return io.BytesIO.read(self, *a)
                s = Stream(data)
                if self._text:
                    s = io.TextIOWrapper(s, self._enc, self._errors)
                return s

            def communicate(self, input=None, timeout=None):
                res = []
                for f, mine in ((self.stdout, '_out'), (self.stderr, '_err')):
                    if f is None:
                        res.append(None)
                        continue
                    setattr(self, '_out', self._out and b'')
                    setattr(self, '_err', self._err and b'')
                    res.append(f.read())
                self.returncode = self._rc
                return tuple(res)

            def wait(self, timeout=None):
                if any(p is not None and len(p) > PIPE_CAPACITY for p in (self._out, self._err)):
                    if timeout is not None:
                        raise subprocess.TimeoutExpired(self.args, timeout)
                    raise Hang('waits for a command whose output nobody reads')
                self.returncode = self._rc
                return self._rc

            def poll(self):
                self.returncode = self._rc
                return self._rc

            def kill(self):
                pass

            terminate = kill

            def send_signal(self, sig):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if self.returncode is None:
                    self.wait()

        return Popen

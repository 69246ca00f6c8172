"""Choice sequences, runs, violations and minimisation.

Everything a simulated run does (operations, data, schedules, faults) is drawn from one `Src`.  A run is a pure function
of its choice sequence and of the code under test; a replay file is that sequence.
"""
import hashlib
import json
import random
import sys
import time
import traceback
from collections import Counter


class Violation(Exception):
    def __init__(self, kind, message=''):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = str(message)


class Discard(Exception):
    """The drawn case is not a case of the property (counted, not judged)."""


class OutOfBudget(Exception):
    pass


class Src:
    """The only source of choices. `draw(n)` gives an integer in [0, n); 0 always is the simplest alternative."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.choices = []
        self.limit = 400_000

    def draw(self, n):
        n = int(n)
        if n <= 1:
            return 0
        k = len(self.choices)
        if k > self.limit:
            raise OutOfBudget('choice budget')
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[k] if k < len(self.replay) else 0
            if v >= n:
                v = n - 1
        self.choices.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; replays of zeros give False."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, item)], the first item being the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def rint(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.draw(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    def num(self, lo=-3.0, hi=3.0, step=0.25):
        """A coarse decimal number; the choice 0 is the one closest to 0."""
        n = int(round((hi - lo) / step)) + 1
        vals = sorted((lo + step * i for i in range(n)), key=lambda x: (abs(x), x < 0))
        return vals[self.draw(n)]

    def seed32(self):
        return self.draw(2 ** 31 - 1)


class Run:
    def __init__(self, src, index=None, tier='quick'):
        self.src = src
        self.index = index
        self.tier = tier
        self.events = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.nontrivial = False
        self.steps = 0
        self._sig = hashlib.sha1()

    def log(self, *parts):
        text = ' '.join(str(p) for p in parts)
        self.events.append(text)
        self._sig.update(text.encode() + b'\n')

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def step(self, n=1):
        self.steps += n

    @property
    def signature(self):
        return self._sig.hexdigest()[:16]


def seed_of(verif_seed, prop, i):
    h = hashlib.sha256(f'{verif_seed}/{prop}/{i}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def in_code_under_test(tb, root):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def execute(fn, src, *, index=None, tier='quick', root='/repo/', reset=None):
    """Runs one simulated execution. Returns (run, violation or None)."""
    run = Run(src, index, tier)
    if reset is not None:
        reset(run)
    violation = None
    try:
        fn(run)
    except Violation as v:
        violation = v
    except Discard as d:
        run.probe('discarded')
        run.log('discarded', d)
    except Exception as e:
        if in_code_under_test(e.__traceback__, root):
            frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(root)]
            where = f'{frames[-1].filename[len(root):]}:{frames[-1].name}' if frames else '?'
            violation = Violation(f'crash:{type(e).__name__}', f'{e!r} in {where}')
            violation.tb = traceback.format_exc()
        else:
            raise
    finally:
        if reset is not None:
            reset(None)
    if violation is not None:
        run.log('VIOLATION', violation.kind, violation.message)
    return run, violation


def minimise(test, choices, *, seconds, max_tries=4000):
    """Shrinks a choice sequence while `test(choices)` (same violation) stays true."""
    t_end = time.monotonic() + seconds
    best = list(choices)
    tries = 0

    def ok(c):
        nonlocal best, tries
        if time.monotonic() > t_end or tries >= max_tries:
            return False
        if len(c) == len(best) and c == best:
            return False
        tries += 1
        used = test(c)
        if used is None:
            return False
        # keep the sequence actually consumed, without its tail of zeros
        c = list(used)
        while c and c[-1] == 0:
            c.pop()
        if (len(c), c) < (len(best), best):
            best = c
            return True
        return False

    ok(best + [0])
    improved = True
    while improved and time.monotonic() < t_end and tries < max_tries:
        improved = False
        # cut tails
        n = len(best)
        for frac in (2, 4, 8, 16):
            if ok(best[: n - max(1, n // frac)]):
                improved = True
                break
        # delete blocks
        size = 1 << max(0, (len(best) // 2).bit_length() - 1)
        while size >= 1 and time.monotonic() < t_end and tries < max_tries:
            i = len(best) - size
            while i >= 0:
                if ok(best[:i] + best[i + size:]):
                    improved = True
                i -= max(1, size)
            size //= 2
        # zero blocks and single values, then lower values
        size = 8
        while size >= 1:
            for i in range(0, len(best), size):
                blk = best[i:i + size]
                if any(blk) and ok(best[:i] + [0] * len(blk) + best[i + size:]):
                    improved = True
            size //= 2
        i = 0
        while i < len(best):
            v = best[i]
            if v > 1:
                for nv in (1, v // 2, v - 1):
                    if nv < v and i < len(best) and ok(best[:i] + [nv] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best, tries


def dump_replay(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)

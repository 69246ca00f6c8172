"""Runs the simulated check of one property.

    check.py C05                     quick or thorough (VERIF_TIER), seed VERIF_SEED
    check.py C05 --replay FILE       re-executes a replay file exactly (exit 1 and the VIOLATION line if it fails again)
    check.py C05 --runs N            overrides the number of runs
    check.py C05 --selftest          runs a sample of the seeds twice in differently divided processes, diffs event logs
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
if sys.prefix != '/opt/venv' and PY != sys.executable and __name__ == '__main__':
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

SHARDS = 8
STALL = 200     # seconds without finishing a single run
SHRINK_SECONDS = {'quick': 25, 'thorough': 120}


def load_prop(pid):
    return importlib.import_module(f'sim.props.{pid.lower()}')


def hash_seed(seed, k):
    return str((seed * 1009 + (k if isinstance(k, int) else 99) * 7 + 1) % 4294967295)


# ---------------------------------------------------------------------------------------------------------- shard side

def shard_main(a):
    from sim import engine, world
    prop = load_prop(a.prop)
    jit = a.world == 'jit'
    world.enter(jit, instrument_core=getattr(prop, 'INSTRUMENT_CORE', False))
    if hasattr(prop, 'setup'):
        prop.setup(jit)
    fn = prop.run_jit if jit and hasattr(prop, 'run_jit') else prop.run

    def one(src, index):
        return engine.execute(fn, src, index=index, tier=a.tier, root=world.ROOT, reset=world.reset)

    out = open(a.out, 'a', buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw, default=str) + '\n')

    if a.replay:
        rep = json.load(open(a.replay))
        for i in rep.get('prefix_runs', []):
            one(engine.Src(engine.seed_of(rep['seed'], rep['seed_key'], i)), i)
        run, v = one(engine.Src(replay=rep['choices']), rep.get('run'))
        if a.verbose:
            for e in run.events:
                engine.eprint('  ' + e)
            if v is not None and getattr(v, 'tb', None):
                engine.eprint(v.tb)
        emit(type='replay', kind=v.kind if v else None, message=v.message if v else None, events=run.events)
        return 0

    emit(type='ready')
    faults, probes, states, sigs = {}, {}, set(), set()
    nontrivial_sigs = set()
    samples = []
    done = steps = 0
    t0 = time.monotonic()
    digests = []
    done_idx = []
    key = f'{a.prop}/{a.world}'
    for i in range(a.first, a.total, a.stride):
        if time.monotonic() - t0 > a.cap:
            break
        emit(type='start', i=i)
        src = engine.Src(engine.seed_of(a.seed, key, i))
        run, v = one(src, i)
        done += 1
        steps += run.steps
        for d, c in ((faults, run.faults), (probes, run.probes)):
            for k, n in c.items():
                d[k] = d.get(k, 0) + n
        states |= run.states
        sigs.add(run.signature)
        if run.nontrivial:
            nontrivial_sigs.add(run.signature)
        if len(samples) < 2 and run.nontrivial and len(run.events) > 3:
            samples.append({'run': i, 'choices': len(src.choices), 'events': run.events[:40]})
        if a.digests:
            digests.append((i, run.signature))
        if v is not None:
            best, tries = list(src.choices), 0

            def test(c):
                s = engine.Src(replay=c)
                r2, v2 = one(s, i)
                return s.choices if v2 is not None and v2.kind == v.kind else None

            try:
                emit(type='shrinking', i=i)
                if test(list(src.choices)) is not None:
                    best, tries = engine.minimise(test, src.choices, seconds=SHRINK_SECONDS[a.tier])
            except BaseException as e:
                engine.eprint('minimisation stopped:', repr(e))
            emit(type='violation', i=i, kind=v.kind, message=v.message, choices=src.choices, shrunk=best, tries=tries,
                 events=run.events, tb=getattr(v, 'tb', None), prefix=done_idx)
            break
        done_idx.append(i)
        emit(type='end', i=i)
    extra = prop.stats() if hasattr(prop, 'stats') else {}
    emit(type='summary', done=done, steps=steps, faults=faults, probes=probes, states=sorted(states)[:200000],
         sigs=len(sigs), nontrivial=sorted(nontrivial_sigs), samples=samples, wall=time.monotonic() - t0, extra=extra,
         digests=digests)
    return 0


# --------------------------------------------------------------------------------------------------------- parent side

class Shard:
    def __init__(self, a, world_name, k, stride, first, total, tmp, cap, cache, extra=()):
        from sim import world
        self.world, self.k, self.first, self.total, self.stride = world_name, k, first, total, stride
        self.out = os.path.join(tmp, f'{world_name}{k}.jsonl')
        open(self.out, 'w').close()
        self.err = os.path.join(tmp, f'{world_name}{k}.err')
        env = dict(os.environ)
        env.update(world.prepare_env(world_name == 'jit', cache))
        self.hash_seed = getattr(a, 'hash_seed', None) or hash_seed(a.seed, k)
        env['PYTHONHASHSEED'] = self.hash_seed
        cmd = [PY, os.path.join(HERE, 'check.py'), a.prop, '--shard', '--world', world_name, '--first', str(first),
               '--stride', str(stride), '--total', str(total), '--tier', a.tier, '--seed', str(a.seed), '--out', self.out,
               '--cap', str(cap), *extra]
        self.proc = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=open(self.err, 'w'),
                                     stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True)
        self.last = time.monotonic()
        self.size = 0
        self.hung = False

    def poll(self):
        s = os.path.getsize(self.out)
        if s != self.size:
            self.size, self.last = s, time.monotonic()
        if self.proc.poll() is not None:
            return True
        if time.monotonic() - self.last > STALL:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def records(self):
        res = []
        for line in open(self.out):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
        return res


class HarnessError(Exception):
    pass


def wait_all(shards):
    pending = list(shards)
    while pending:
        pending = [s for s in pending if not s.poll()]
        if pending:
            time.sleep(0.05)


def warm_jit(a, tmp, cache):
    """Compiles the kernels of the current tree once; the jit shards then load them from this (scratch) cache."""
    a2 = argparse.Namespace(**vars(a))
    s = Shard(a2, 'jit', 'warm', 1, 0, 0, tmp, 1, cache)
    return s


def run_shards(a, prop, tmp, cache, layout=None, extra=()):
    worlds = prop.WORLDS                     # e.g. {'nojit': 8} or {'nojit': 4, 'jit': 4}: shards per world
    runs = prop.RUNS[a.tier]                 # runs per world
    cap = a.cap
    shards = []
    warm = None
    if 'jit' in worlds:
        warm = warm_jit(a, tmp, cache)
    for w, n in worlds.items():
        if w == 'jit':
            continue
        n = layout or n
        total = a.runs or runs[w]
        for k in range(n):
            shards.append(Shard(a, w, k, n, k, total, tmp, cap, cache, extra))
    if warm is not None:
        while not warm.poll():
            for s in shards:
                s.poll()
            time.sleep(0.05)
        if warm.proc.returncode != 0:
            for s in shards:
                s.kill()
            err = open(warm.err).read()
            raise HarnessError('cannot import the compiled package:\n' + err[-4000:])
        n = layout or worlds['jit']
        total = a.runs or runs['jit']
        for k in range(n):
            shards.append(Shard(a, 'jit', k, n, k, total, tmp, cap, cache, extra))
    try:
        wait_all(shards)
    except BaseException:
        for s in shards:
            s.kill()
        raise
    return shards


def replay_file(a, path, verbose=False):
    """Re-executes a replay file in a fresh interpreter; returns its record."""
    rep = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        a2 = argparse.Namespace(**vars(a))
        a2.hash_seed = rep['hash_seed']
        a2.tier = rep['tier']
        cache = os.environ.get('VERIF_SIM_CACHE') or os.path.join(tmp, 'cache')
        extra = ['--replay', os.path.abspath(path)] + (['--verbose'] if verbose else [])
        s = Shard(a2, rep['world'], 'r', 1, 0, 0, tmp, 1, cache, extra)
        wait_all([s])
        if verbose:
            sys.stderr.write(open(s.err).read())
        if s.hung:
            return {'kind': 'hang', 'message': f'no progress within {STALL} s', 'events': []}
        for r in s.records():
            if r['type'] == 'replay':
                return r
        raise HarnessError('replay failed:\n' + open(s.err).read()[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                fields = dict(x.split('=', 1) for x in line[len('known: '):].split(' | ')[0].split() if '=' in x)
                res.append((fields.get('property'), fields.get('kind'), line.split(' | ', 1)[-1]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--shard', action='store_true')
    ap.add_argument('--world')
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--total', type=int, default=0)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--out')
    ap.add_argument('--cap', type=float, default=0)
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--no-confirm', action='store_true')
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if not a.cap:
        a.cap = 240 if a.tier == 'quick' else 3 * 3600
    if a.shard:
        return shard_main(a)
    if a.replay:
        rep = json.load(open(a.replay))
        if rep['property'] != a.prop:
            raise HarnessError('replay file is for ' + rep['property'])
        r = replay_file(a, a.replay, verbose=True)
        if r['kind'] is None:
            print(f'replay of {a.replay}: no violation')
            return 0
        print(f"{r['kind']}: {r['message']}")
        print(f'VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}')
        return 1
    if a.selftest:
        return selftest(a)
    return check(a)


def selftest(a):
    """Same seeds in other process layouts: the event logs must be identical.  With another hash seed (recorded in replay files)
    the package iterates over its sets in another order, so that schedules may differ: counted only."""
    prop = load_prop(a.prop)
    a.runs = a.runs or 64
    results = []
    for layout, hs in ((8, '4242'), (3, '4242'), (16, '4242'), (8, '77')):
        tmp = tempfile.mkdtemp(prefix='verif-self-')
        try:
            a.hash_seed = hs
            cache = os.path.join(tmp, 'cache')
            shards = run_shards(a, prop, tmp, cache, layout=layout, extra=['--digests'])
            d = {}
            for s in shards:
                for r in s.records():
                    if r['type'] == 'summary':
                        d.update({(s.world, i): x for i, x in r['digests']})
            results.append(d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    base = results[0]
    bad = [(k, [r.get(k) for r in results]) for k in base if any(r.get(k) != base[k] for r in results[:3])]
    other = sum(results[3].get(k) != base[k] for k in base)
    print(f'{a.prop}: {len(base)} runs executed three times, {len(bad)} diverged; {other} differ with another hash seed', bad[:5])
    return 2 if bad or not base else 0


def check(a):
    prop = load_prop(a.prop)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix='verif-sim-')
    cache = os.environ.get('VERIF_SIM_CACHE') or os.path.join(tmp, 'cache')
    try:
        shards = run_shards(a, prop, tmp, cache)
        candidates, problems, summaries = [], [], []
        for s in shards:
            recs = s.records()
            for r in recs:
                if r['type'] == 'violation':
                    candidates.append((r['i'], s, r))
            summ = [r for r in recs if r['type'] == 'summary']
            if summ:
                summaries.append((s, summ[0]))
            elif s.hung:
                started = [r['i'] for r in recs if r['type'] == 'start']
                viol = [r for r in recs if r['type'] == 'violation']
                if started and not viol:
                    candidates.append((started[-1], s, {'kind': 'hang', 'hang': True, 'i': started[-1]}))
                elif not viol:
                    problems.append(f'{s.world}{s.k}: stalled before its first run\n' + open(s.err).read()[-3000:])
            else:
                if not any(r['type'] == 'violation' for r in recs):
                    problems.append(f'{s.world}{s.k}: ended with {s.proc.returncode}\n' + open(s.err).read()[-3000:])
        os.environ['VERIF_SIM_CACHE'] = cache
        candidates.sort(key=lambda c: (c[2]['kind'] == 'hang', c[0]))
        known = [(k, t) for p, k, t in known_findings() if p == a.prop]
        verdict, known_hit = None, {}
        for i, s, r in candidates:
            text = next((t for k, t in known if k == r['kind']), None)
            if text is not None:
                known_hit[r['kind']] = text
                continue
            verdict = report(a, s, r)
            if verdict is not None:
                break
            problems.append(f"{s.world}{s.k}: run {i} {r['kind']} could not be confirmed")
        for k, text in known:
            print(f'KNOWN-FINDING: property={a.prop} {text}')
        evidence(a, prop, summaries, time.monotonic() - t0, 1 if verdict else 0)
        if verdict:
            print(f'VIOLATION property={a.prop} replay={verdict}')
            return 1
        if problems:
            raise HarnessError('\n'.join(problems))
        n = sum(r['done'] for _, r in summaries)
        print(f'{a.prop}: held on {n} simulated runs ({a.tier}, seed {a.seed}, {time.monotonic() - t0:.1f} s)')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(a, s, r):
    from sim import engine
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    base = {'property': a.prop, 'world': s.world, 'seed': a.seed, 'tier': a.tier, 'run': r['i'],
            'seed_key': f'{a.prop}/{s.world}', 'hash_seed': s.hash_seed, 'kind': r['kind']}
    path = os.path.join(HERE, 'replays', f"{a.prop}-seed{a.seed}-{s.world}{r['i']}.json")
    if r.get('hang'):
        src = engine.Src(engine.seed_of(a.seed, base['seed_key'], r['i']))
        # the choices of a hung run are not known; the seed regenerates them
        base.update(choices=[], prefix_runs=[r['i']], message='a run did not come to an end', minimised=False)
        engine.dump_replay(path, base)
        got = replay_file(a, path)
        if got['kind'] == 'hang':
            print('hang: a simulated run does not come to an end')
            return path
        os.unlink(path)
        return None
    attempts = [dict(choices=r['shrunk'], prefix_runs=[], minimised=True),
                dict(choices=r['choices'], prefix_runs=[], minimised=False),
                dict(choices=r['shrunk'], prefix_runs=r['prefix'], minimised=True),
                dict(choices=r['choices'], prefix_runs=r['prefix'], minimised=False)]
    confirmed = False
    for at in attempts:
        obj = dict(base, message=r['message'], shrink_tries=r['tries'], **at)
        engine.dump_replay(path, obj)
        if a.no_confirm:
            confirmed = True
            break
        got = replay_file(a, path)
        if got['kind'] == r['kind']:
            obj['message'] = got['message']
            obj['trace'] = got['events']
            obj['confirmed_in_fresh_process'] = True
            engine.dump_replay(path, obj)
            for e in got['events'][-25:]:
                print('  ' + e[:300])
            print(f"{r['kind']}: {got['message']}"[:1500])
            confirmed = True
            break
    if not confirmed:
        obj = dict(base, message=r['message'], trace=r['events'], confirmed_in_fresh_process=False, **attempts[-1])
        engine.dump_replay(path, obj)
        print(f"{r['kind']}: {r['message']} (seen once; a fresh process did not repeat it)"[:1500])
    if r.get('tb'):
        print(r['tb'][-1500:])
    return path


def evidence(a, prop, summaries, wall, violations):
    faults, probes, states, nontrivial, samples, extra = {}, {}, set(), set(), [], {}
    per_world = {}
    runs = steps = 0
    for s, r in summaries:
        runs += r['done']
        steps += r['steps']
        pw = per_world.setdefault(s.world, {'runs': 0, 'busy_s': 0.0})
        pw['runs'] += r['done']
        pw['busy_s'] = round(pw['busy_s'] + r['wall'], 2)
        for d, c in ((faults, r['faults']), (probes, r['probes'])):
            for k, n in c.items():
                d[k] = d.get(k, 0) + n
        states |= set(r['states'])
        nontrivial |= {(s.world, x) for x in r['nontrivial']}
        samples += r['samples']
        for k, v in r.get('extra', {}).items():
            if isinstance(v, (int, float)) and isinstance(extra.get(k, 0), (int, float)):
                extra[k] = extra.get(k, 0) + v
            else:
                extra[k] = v
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(nontrivial),
        'rule': getattr(prop, 'RULE', '') + ' A run counts as non-trivial if it injected at least one fault or took at '
                'least one schedule/operation choice away from the plain sequence, and as distinct by the hash of its '
                'event log.',
        'samples': samples[:3] or ['(none)'],
        'simulated_runs': runs, 'seeds': runs, 'runs_per_hour': int(runs / max(wall, 1e-6) * 3600),
        'per_world': per_world,
        'simulated_steps': steps,
        'simulated_time': 'not measured in seconds: the library has no clock or timer; time is counted in simulated '
                          'steps (scheduler events, operations)',
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'distinct_states_measure': getattr(prop, 'STATE_MEASURE', 'hashes of schedules / abstract states noted by runs'),
        'real_components': getattr(prop, 'REAL', ''),
        'stub_components': getattr(prop, 'STUBS', ''),
        'details': extra,
    }
    obj = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': getattr(prop, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', f'{a.prop}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    try:
        code = main()
    except HarnessError as e:
        print(f'HARNESS-ERROR: {e}', file=sys.stderr)
        code = 2
    except KeyboardInterrupt:
        code = 130
    sys.stdout.flush()
    os._exit(code) if '--shard' in sys.argv else sys.exit(code)

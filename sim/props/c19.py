"""C19: the package imports and reports a version whatever the system commands do."""
import errno
import importlib
import os
import re
import subprocess
import sys

from .. import git
from ..engine import Violation

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 16000}, 'thorough': {'nojit': 1200000}}
RULE = ('Each run draws the state of a repository (commits, tags of several shapes and distances, dirty or not, date) and an outcome '
        'for each kind of command the package may consult (found and works, missing, refused by the system, fails with or without '
        'output, killed, prints nothing, prints malformed or undecodable or very long output), reloads the version module and the '
        'package under them, and asks the version. Directly after it, the same is done with the commands all working.')
STATE_MEASURE = 'distinct combinations of (tagged, dirty, distance zero, outcome per command)'
REAL = 'cheval/_version.py and cheval/__init__.py as they are, executed again in every run'
STUBS = 'subprocess.Popen (a simulated git answering from a drawn repository, with bounded pipes); the platform name in a few runs'
ASSUMPTIONS = ['The outcome of a command does not change between two executions of it within one import.',
               'A refused command is one the system does not start (OSError of any kind); a pipe failing while it is read is not injected.']
PLACEHOLDERS = ('0+unknown', 'unknown')
ERRNOS = [errno.ENOENT, errno.EACCES, errno.EPERM, errno.ENOTDIR, errno.ENOMEM, errno.EAGAIN, errno.EMFILE, errno.ENOEXEC, errno.E2BIG,
          errno.ELOOP, errno.EINTR, errno.EIO, errno.ETXTBSY]
TAGS = ['v1.0', 'v0.3.1', 'v2.0rc1', 'v1.2+local', 'v1.0-beta-3', 'v1-2-gabc', 'v3-dirty', 'vnext', 'v10', 'v1.0+a.b']
OTHER_TAGS = ['release-1', '2.0', 'build-7', 'dev']
GARBAGE = [b'', b'\n', b' \t\n', b'-', b'--', b'-dirty', b'g', b'\xff\xfe\x00', b'\xe9t\xe9-3-gabc1234', b'fatal: not a git repository',
           b'v1.0-x-gabc1234', b'v1.0-3-abc1234', b'v1.0-3-gXYZ', b'v1.0', b'-3-gabc', b'\xc2\xb2', b'1e3', b'-5', b'+3', b'12 34',
           b'3.5', b'0x10', b'1_000', b'a\nb', b'v1.0-3-gabc1234\nwarning: x', b'warning: y\nv1.0-3-gabc1234', b'\x00', b'usage: git [--version]',
           'v²'.encode(), b'\xe2\x80\xa8', b'\x1c', b'None', b'%s %d', b'{0}', b'v-\xd9\xa3-gabc',
           b'9' * 5000, b'v1.0-' + b'9' * 5000 + b'-gabc']
PRE = None


def hexes(src, n):
    return ''.join(src.pick('0123456789abcdef') for _ in range(n))


def draw_repo(src, root):
    head = hexes(src, 8) + 'd' * 32
    total = src.pick([1, 2, 17, 4211])
    tags = []
    for _ in range(src.weighted([(4, 1), (4, 0), (4, 2), (1, 3)])):
        name = src.pick(TAGS + OTHER_TAGS)
        dist = src.pick([0, 1, 3, 120])
        if all(t[0] != name and t[1] != dist for t in tags):
            tags.append((name, dist, src.chance(1, 2)))
    date = src.pick([b'2020-03-04 10:11:12 -0500\n', b'2020-03-04 10:11:12 -0500\r\n',
                     b'gpg: Signature made Wed\ngpg: Good signature\n2020-03-04 10:11:12 -0500\n'])
    return git.Repo(root, head, total, tags, src.chance(1, 3), date, src.pick([7, 8, 10]))


def draw_fault(src, kind):
    name = src.weighted([(3, 'oserror'), (3, 'fails'), (4, 'prints')])
    if name == 'oserror':
        return name, src.pick(ERRNOS)
    if name == 'fails':
        return name, (src.pick([128, 1, -9, -15, 127, 255]), src.pick([b'', b'.git\n', b'v1.0-3-gabc1234\n', b'12\n', b'\xff']))
    out = src.pick(GARBAGE)
    if src.chance(1, 12):
        out = out + b'\n' + b'x' * 100000
    return name, out


def expected(repo):
    t = repo.matching('v*', False)
    short = repo.head[:repo.abbrev]
    if t is not None:
        v = t[0][1:]
        if t[1] or repo.dirty:
            v += ('.' if '+' in v else '+') + f'{t[1]}.g{short}'
    else:
        v = f'0+untagged.{repo.total}.g{repo.head[:7]}'
    return v + ('.dirty' if repo.dirty else '')


def allowed(repo, plan):
    """None: any text; else the texts the version may be."""
    exp = expected(repo)
    tagged = repo.matching('v*', False) is not None

    def state(kind):
        name, payload = plan.get(kind, ('ok', None))
        return name, payload

    essential = ['gitdir', 'describe', 'head'] + ([] if tagged else ['count'])
    must_unknown = may_any = may_unknown = False
    desc_name, desc_out = state('describe')
    if desc_name == 'prints':
        text = desc_out.decode(errors='replace').strip()
        body = text[:-len('-dirty')] if text.endswith('-dirty') else text
        if '-' in body and not re.search(r'^(.+)-(\d+)-g([0-9a-f]+)$', body):
            must_unknown = True
        elif '-' in body and not body.startswith('v'):
            must_unknown = True
        else:
            may_any = True
            essential = ['gitdir', 'describe', 'head'] + ([] if '-' in body else ['count'])
    for k in essential:
        name, payload = state(k)
        if name in ('oserror', 'fails'):
            must_unknown = True
        elif name == 'prints' and k == 'gitdir':
            may_unknown = True
        elif name == 'prints' and k == 'head':
            if tagged:
                may_unknown = True
            else:
                may_any = True
        elif name == 'prints' and k == 'count':
            text = payload.decode(errors='replace').strip()
            if not re.fullmatch(r'\s*[+]?[0-9_]+\s*', text):
                must_unknown = True
            else:
                may_any = True
    if must_unknown:
        return list(PLACEHOLDERS)
    if may_any:
        return None
    return [exp] + (list(PLACEHOLDERS) if may_unknown else [])


def ask(R, w, win, whole, archive=None):
    """Executes the version module (and the package's own) again under the world `w` and asks the version."""
    import cheval
    import cheval._version as V
    real, platform = subprocess.Popen, sys.platform
    subprocess.Popen = w.popen()
    try:
        if win:
            sys.platform = 'win32'
        importlib.reload(V)
        if archive is not None and hasattr(V, 'get_keywords'):
            V.get_keywords = lambda: dict(archive)
        elif hasattr(V, 'get_keywords') and not str(V.get_keywords().get('refnames')).startswith('$Format'):
            # this tree was exported as an archive, whose version is written in it; the property is about checked out trees
            V.get_keywords = lambda: {'refnames': '$Format' + ':%d$', 'full': '$Format' + ':%H$', 'date': '$Format' + ':%ci$'}
        info = V.get_versions()
        version = info['version']
        full = info.get('full-revisionid'), info.get('dirty'), info.get('date'), info.get('error')
        if whole:
            importlib.reload(cheval)     # asks the version module as it was executed above
            if cheval.__version__ != version:
                raise Violation('two versions', f'get_versions() gives {version!r}, the package {cheval.__version__!r}')
    except git.Hang as e:
        raise Violation('hang', str(e))
    finally:
        subprocess.Popen = real
        sys.platform = platform
    return version, full


def archived(R, repo, plan):
    """An exported tree: the version is the one written into the files, whatever the commands would say."""
    src = R.src
    names = [n for n, _, _ in repo.tags] + [n for n in TAGS + OTHER_TAGS if src.chance(1, 10)]
    old = src.chance(1, 3)           # an old git, which doesn't mark the tags
    refs = ['HEAD -> main', 'origin/main', 'feature-x'][:src.draw(4)] + [n if old else 'tag: ' + n for n in names]
    tagged = bool(names)
    text = ', '.join(refs[k] for k in src.sample(range(len(refs)), len(refs)))
    text = src.pick([f' ({text})', text, f'({text}) '])
    date = src.pick(['2020-03-04 10:11:12 -0500', 'gpg: Good signature\n2020-03-04 10:11:12 -0500', None])
    keywords = {'refnames': text, 'full': repo.head + src.pick(['', '\n']), 'date': date}
    if date is None:
        del keywords['date']
    w = git.World(repo, plan, R)
    version, (full, dirty, got_date, error) = ask(R, w, False, src.chance(3, 4), keywords)
    found = sorted(n for n in names if n.startswith('v') and (not old or any(c.isdigit() for c in n)))
    exp = found[0][1:] if found else '0+unknown'
    R.log('archive', text, '->', version)
    R.step()
    R.probe('archived trees')
    if version != exp or full != repo.head or dirty:
        raise Violation('wrong version of an archive', f'{(version, full, dirty)}, expected {exp!r} of {repo.head}; refs {text!r}, '
                        f'outcomes {plan}, tagged {tagged}')
    if found and date is not None and got_date != '2020-03-04T10:11:12-0500':
        raise Violation('wrong date', repr(got_date))


def one(R, repo, plan, win):
    src = R.src
    missing = ()
    if win:
        missing = src.pick([('git.cmd',), ('git.exe',), (), ('git.cmd', 'git.exe')])
    if missing:
        R.fault('program of that name missing')
    w = git.World(repo, plan, R, missing)
    version, (full, dirty, date, error) = ask(R, w, win, not win and src.chance(3, 4))
    ok = list(PLACEHOLDERS) if len(missing) == 2 else allowed(repo, plan)
    R.log('version', version)
    R.step(len(w.calls))
    if not isinstance(version, str) or not version:
        raise Violation('no version', f'{version!r}')
    if ok is None:
        R.probe('not judged beyond not failing')
    elif version not in ok:
        raise Violation('wrong version', f'{version!r}, allowed {ok}; tags {repo.tags}, outcomes {plan}')
    elif version in PLACEHOLDERS:
        R.probe('unknown placeholder')
    else:
        R.probe('described version')
        if not any(k in plan for k in ('gitdir', 'describe', 'head', 'count')):
            if full != repo.head or bool(dirty) != repo.dirty or error is not None:
                raise Violation('wrong details', f'{(full, dirty, error)} for {repo.head}, dirty {repo.dirty}')
            if 'date' not in plan and date != '2020-03-04T10:11:12-0500':
                raise Violation('wrong date', repr(date))
            if plan.get('date', ('ok',))[0] in ('oserror', 'fails') and date is not None:
                raise Violation('wrong date', repr(date))
    R.state(repo.matching('v*', False) is not None, repo.dirty, tuple(sorted((k, v[0], str(v[1])[:20]) for k, v in plan.items())))


def run(R):
    src = R.src
    from .. import world
    root = os.path.realpath(world.REPO)
    repo = draw_repo(src, root)
    R.log('repository', repo.tags, repo.total, 'dirty' if repo.dirty else 'clean')
    plan = {}
    n = src.weighted([(6, 1), (1, 0), (3, 2), (1, 5)])
    for kind in src.sample(['gitdir', 'describe', 'head', 'count', 'date'], n):
        plan[kind] = draw_fault(src, kind)
        name, payload = plan[kind]
        R.fault(f'{kind}: {name}' + (f' {errno.errorcode[payload]}' if name == 'oserror' else ''))
        R.log('outcome', kind, name, repr(payload)[:60])
    if src.chance(1, 10):
        archived(R, repo, plan)
    one(R, repo, plan, src.chance(1, 8))
    one(R, repo, {}, False)         # nothing of a failure is remembered

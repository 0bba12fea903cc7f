"""P22: the release tools, in scratch repositories.  args: out cases"""
import importlib.util
import multiprocessing
import re
import shutil
import subprocess
import sys
import tempfile
from common import *  # noqa: F401,F403

out = Recorder(sys.argv[1])
R = rng('release')
PY = sys.executable
cases = [json.loads(x) for x in open(sys.argv[2])]
V = [dict(base=c['base'], tag=c['tag'], num=c['num']) for c in cases]
rel = [v for v in V if not v['tag']]


def text(v):
    return '.'.join(map(str, v['base'])) + (v['tag'] + str(v['num']) if v['tag'] else '')


def triple(s):
    m = re.fullmatch(r'(\d+)\.(\d+)\.(\d+)((a|b|rc)(\d+))?', s.strip())
    return dict(base=[int(m.group(i)) for i in (1, 2, 3)], tag=m.group(5) or '', num=int(m.group(6) or 0)) if m else dict(base=[], tag='?', num=0)


def load(path, name):
    s = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


unit = load(os.path.join(REPO, 'bin', 'utils.py'), 'relutils').unit_incremented
pool = V if THOROUGH else rel
for b in V:
    asked = list(pool)
    if not THOROUGH:
        asked = asked + R.sample(V, 60) + [v for v in V if v['base'] == b['base']] if b['tag'] or R.random() < .5 else asked
    acc, exc = [], 'none'
    for a in asked:
        o = attempt(unit, text(a), text(b), timeout=0)
        if not o.ok:
            exc = o.exc
        elif o.value:
            acc.append(a)
    out.emit('successors', b=b, asked=asked, accepted=acc, exc=exc)

src_file = open(os.path.join(REPO, 'primpy', '__version__.py')).read()
src_readme = open(os.path.join(REPO, 'README.rst')).read()
now = re.search(r"__version__ = '([^']*)'", src_file).group(1)
out.emit('tree', file=triple(now)['base'], readme=triple(re.search(r':Version: *(\S+)', src_readme).group(1))['base'])
DECOY = '\n\nRequires other (>= 9{0}), another (< {0}7) and 1{0}.\n'


def write(d, f, r, decoy=''):
    os.makedirs(os.path.join(d, 'primpy'), exist_ok=True)
    with open(os.path.join(d, 'primpy', '__version__.py'), 'w') as h:
        h.write(src_file.replace(now, f))
    with open(os.path.join(d, 'README.rst'), 'w') as h:
        h.write(src_readme.replace(now, r) + decoy)


def git(d, *a):
    e = dict(os.environ, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_SYSTEM='/dev/null', GIT_AUTHOR_NAME='x', GIT_AUTHOR_EMAIL='x@x', GIT_COMMITTER_NAME='x', GIT_COMMITTER_EMAIL='x@x')
    subprocess.run(['git', '-C', d] + list(a), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e)


def gate(job):
    a, r, b = job
    d = tempfile.mkdtemp(prefix='primpy-release-')
    try:
        o, c = os.path.join(d, 'origin'), os.path.join(d, 'clone')
        os.makedirs(o)
        git(o, 'init', '-q', '-b', 'master')
        write(o, text(b), text(b))
        git(o, 'add', '-A')
        git(o, 'commit', '-q', '-m', 'x')
        git(d, 'clone', '-q', o, c)
        write(c, text(a), text(r))
        p = subprocess.run([PY, os.path.join(REPO, '.github', 'workflows', 'check_version.py')], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return ('gate', dict(file=a, readme=r, master=b, passed=p.returncode == 0))
    finally:
        shutil.rmtree(d)


def bump(job):
    v, what = job
    d = tempfile.mkdtemp(prefix='primpy-release-')
    try:
        t = text(v)
        decoy = DECOY.format(t)
        write(d, t, t, decoy)
        before = {f: open(os.path.join(d, f)).read() for f in ('primpy/__version__.py', 'README.rst')}
        p = subprocess.run([PY, os.path.join(REPO, 'bin', 'bump_version.py')] + ([what] if what else []), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        after = {f: open(os.path.join(d, f)).read() for f in before}
        files = sorted(os.path.relpath(os.path.join(x, f), d) for x, _, fs in os.walk(d) for f in fs)
        m = re.search(r"__version__ *= *'([^']*)'", after['primpy/__version__.py'])
        q = re.search(r':Version: *(\S+)', after['README.rst'])
        f, r = (triple(x.group(1)) if x else triple('?') for x in (m, q))

        def restored(name, rx):
            return re.sub(rx, lambda z: z.group(1) + t, after[name], count=1) == before[name]
        return ('bump', dict(old=v['base'], what=what or 'micro', file=f['base'], readme=r['base'], rc=p.returncode,
                             others=restored('primpy/__version__.py', r"(__version__ *= *')[^']*") and restored('README.rst', r'(:Version: *)\S+'),
                             clean=files == sorted(before)))
    finally:
        shutil.rmtree(d)


def near(b):
    v = dict(b, base=list(b['base']))
    i = R.randint(0, 2)
    v['base'][i] = max(0, v['base'][i] + R.choice([1, 1, -1, 2]))
    if R.random() < .6:
        v['base'][i + 1:] = [0] * (2 - i)
    return v


gates = []
for _ in range(60 if not THOROUGH else 600):
    b = R.choice(rel if R.random() < .6 else V)
    a = near(b) if R.random() < .7 else R.choice(V)
    if R.random() < .2:
        a = dict(a, tag=R.choice(['', 'a', 'rc']), num=0)
    gates.append((a, a if R.random() < .85 else near(a), b))
# every kind of step from every stage of a release
for tag in ('', 'a', 'b', 'rc'):
    b = R.choice([v for v in V if v['tag'] == tag])
    steps = [dict(b, tag=t, num=0 if not t else n) for t in ('', 'a', 'b', 'rc') for n in ((0, 1) if t != tag else (b['num'] - 1, b['num'], b['num'] + 1, b['num'] + 2)) if n >= 0]
    for i in range(3):
        up = b['base'][:i] + [b['base'][i] + 1] + [0] * (2 - i)
        steps += [dict(base=up, tag='', num=0), dict(base=up, tag=R.choice(['a', 'rc']), num=R.choice([0, 1]))]
    gates += [(a, a, b) for a in steps]
# valid steps whose README says something that only looks like them
for b in R.sample(rel, 4):
    up = dict(b, base=b['base'][:2] + [b['base'][2] + 1])
    for like in (dict(up, base=up['base'][:2] + [up['base'][2] * 10]), dict(up, base=up['base'][:2] + [up['base'][2] * 10 + 1]), dict(up, tag='rc', num=0),
                 dict(up, base=[up['base'][0] + 10] + up['base'][1:])):
        gates += [(up, like, b)]
    a = dict(up, tag='a', num=0)
    gates += [(a, up, b), (a, dict(a, num=10), b), (a, dict(a, tag='b'), b)]
bumps = [(v, k) for v in (rel if THOROUGH else R.sample(rel, 40)) for k in ('micro', 'minor', 'major', None)]
with multiprocessing.Pool(8) as pool:
    for k, r in pool.map(gate, gates) + pool.map(bump, bumps):
        out.emit(k, **r)
out.close()

"""Plant, confirm and keep a bug: seed(id, prop, edits, demo, needs, breaks).  edits = [(file, old, new)]."""
import json, os, subprocess, sys
V = '/verif'
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter('ignore')
import numpy as np
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def seed(sid, prop, edits, demo, needs, breaks, tests=True):
    d = '/tmp/seedcopy-' + sid
    sh('rm -rf %s; cp -a /repo %s; git -C %s checkout -q -- .' % (d, d, d), '/')
    out = os.path.join(V, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(HEAD + demo)
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport LD_PRELOAD= OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    base = sh('bash %s/demo.sh' % out, d)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', d).stdout
    open(out + '/patch.diff', 'w').write(diff)
    bad = sh('bash %s/demo.sh' % out, d)
    ok = base.returncode == 0 and bad.returncode != 0
    t = ''
    if tests and ok:
        r = sh('LD_PRELOAD=/opt/vp/zerotail.so PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=100 tests 2>&1 | tail -4', d)
        t = r.stdout.strip().splitlines()[-1]
        ok = ok and 'failed' not in t and 'error' not in t.lower()
        if not ok:
            print(r.stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
    print(sid, 'KEPT' if ok else 'REJECTED', 'base', base.returncode, 'bug', bad.returncode, t)
    if not ok:
        print(base.stdout[-250:], "||", bad.stdout[-150:])
        sh('rm -rf %s' % out, '/')
    sh('rm -rf ' + d, '/')
    return ok


def caught(sid, tier='quick'):
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))['property']
    d = '/tmp/caught-' + sid
    sh('rm -rf %s; cp -a /repo %s; git -C %s checkout -q -- .' % (d, d, d), '/')
    r = sh('git apply %s/seeded/%s/patch.diff' % (V, sid), d)
    assert r.returncode == 0, r.stdout
    try:
        r = sh('./check %s' % prop, V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier, VERIF_REPO=d))
    finally:
        sh('rm -rf ' + d, '/')
    print(sid, prop, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d' % r.returncode,
          '|', ' '.join(x.split()[1] for x in r.stdout.splitlines() if x.startswith('  clause')))


if __name__ == '__main__':
    for s in sys.argv[1:]:
        caught(s)

"""Check runner: drive the real code, validate the trace with TLC, write evidence.  (system python3, stdlib only)"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
CLASSES = os.path.join(SPEC, 'classes')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
VENV = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
REPO = os.environ.get('VERIF_REPO', '/repo')


class MachineryError(Exception):
    pass


class ImplementationCrash(Exception):
    """The driver died inside the code under test (a call the specification says must not fail)."""


def build():
    """Compile the Java override and the oscode shim if they are missing or stale."""
    os.makedirs(CLASSES, exist_ok=True)
    src = os.path.join(SPEC, 'java', 'F64.java')
    cls = os.path.join(CLASSES, 'F64.class')
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', CLASSES, src], check=True)
    so = os.path.join(CLASSES, 'zerotail.so')
    csrc = os.path.join(HERE, 'zerotail.c')
    if os.path.exists(csrc) and (not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(csrc)):
        subprocess.run(['gcc', '-O2', '-fno-builtin', '-shared', '-fPIC', '-o', so + '.tmp', csrc, '-ldl'], check=True)
        os.rename(so + '.tmp', so)


def driver_env(oscode=False):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONSTARTUP'):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             PYTHONHASHSEED='0', VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_REPO=REPO, MPLBACKEND='Agg')
    if oscode:
        e['LD_PRELOAD'] = os.path.join(CLASSES, 'zerotail.so')
    return e


def run_driver(script, out, args=(), oscode=False, timeout=800):
    cmd = [VENV, os.path.join(HERE, script), out] + list(args)
    p = subprocess.run(cmd, env=driver_env(oscode), cwd=os.path.dirname(out), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0:
        # the code under test failed where the specification requires an answer, or did not have the interface the
        # driver observes it through; out of memory or missing files are the machinery's own problem
        last = p.stderr.strip().splitlines()[-1] if p.stderr.strip() else ''
        if p.returncode == 1 and 'Traceback' in p.stderr and not re.match(
                r'(MemoryError|OSError|FileNotFoundError|PermissionError|ModuleNotFoundError: No module named .(?!primpy)|'
                r'KeyboardInterrupt)', last):
            raise ImplementationCrash('%s: %s' % (script, p.stderr[-1500:]))
        raise MachineryError('driver %s failed (%d):\n%s\n%s' % (script, p.returncode, p.stdout[-2000:], p.stderr[-4000:]))
    return p.stdout


def run_tlc(module, cfg=None, env=None, workdir=None, workers=4, extra=(), timeout=800, heap='4g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg from a scratch directory."""
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(workdir, 'meta_%s_%s' % (module, os.path.splitext(cfg or module)[0]))
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC,
           '-cp', ':'.join([CLASSES, JAR, CM]), 'tlc2.TLC', '-fp', '0', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, (cfg or module + '.cfg'))] + list(extra) + \
          [os.path.join(SPEC, module + '.tla')]
    p = subprocess.run(cmd, env=e, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
        pass
    st = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    ok = 'No error has been found' in out or 'Model checking completed. No error' in out
    return dict(out=out, rc=p.returncode, generated=st[0], distinct=st[1], ok=ok)


def known_findings():
    path = os.path.join(ROOT, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith('{'):
                res.append(json.loads(line))
    return res


class Check(object):
    """Accumulates what one property's check did."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(ROOT, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.clauses = 0
        self.kinds = {}
        self.samples = []
        self.models = []
        self.fails = []          # (stage, record, clauses)
        self.notes = {}

    # -- model checking of an abstract model --------------------------------
    def model(self, module, cfg=None, env=None, workers=4, extra=(), label=None, timeout=800):
        r = run_tlc(module, cfg, env, self.work, workers, extra, timeout)
        if not r['ok']:
            raise MachineryError('model %s/%s: TLC reports an error in the specification itself\n%s'
                                 % (module, cfg, r['out'][-4000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        r['cases'] = cases_file = os.path.join(self.work, '%s_%s.cases' % (module, os.path.splitext(cfg or module)[0]))
        with open(cases_file, 'w') as f:
            n = 0
            for line in sorted(x for x in r['out'].splitlines() if x.startswith('"CASE ')):
                f.write(json.loads(line)[5:] + '\n')
                n += 1
        r['ncases'] = n
        self.models.append(dict(behaviours=n, model=label or module, cfg=cfg or module + '.cfg', states=r['distinct'],
                                transitions=r['generated']))
        return r

    # -- trace validation ----------------------------------------------------
    def drive(self, script, name=None, args=(), oscode=False, timeout=800):
        path = os.path.join(self.work, (name or os.path.splitext(script)[0]) + '.ndjson')
        run_driver(script, path, args, oscode, timeout)
        return path

    def validate(self, module, trace, cfg='Trace.cfg', env=None, workers=6, stage=None, timeout=800, keep=2):
        recs = [json.loads(x) for x in open(trace)]
        if not recs:
            raise MachineryError('empty trace %s' % trace)
        en = dict(env or {})
        en['TRACE_FILE'] = trace
        r = run_tlc(module, cfg, en, self.work, workers, (), timeout)
        if not r['ok'] and re.search(r'evaluating the nested|was evaluating|Attempted to', r['out']) \
                and 'OutOfMemory' not in r['out'] and 'StackOverflow' not in r['out']:
            # an event outside the alphabet of the specification
            print(r['out'][-3000:])
            m = re.search(r'Attempted to.*', r['out'])
            raise ImplementationCrash('%s: recorded event outside the specification: %s'
                                      % (module, m.group(0)[:500] if m else ''))
        if not r['ok']:
            raise MachineryError('trace spec %s did not finish on %s\n%s' % (module, trace, r['out'][-6000:]))
        done = [(int(a), int(b)) for a, b in re.findall(r'DONE (\d+) (\d+)', r['out'])]
        n = sum(a for a, _ in done)
        if n != len(recs):
            raise MachineryError('trace spec %s consumed %d of %d records\n%s' % (module, n, len(recs), r['out'][-3000:]))
        self.clauses += sum(b for _, b in done)
        self.events += len(recs)
        self.states += r['distinct']
        self.transitions += r['generated']
        seen = {}
        for rec in recs:
            k = rec.get('kind')
            self.kinds[k] = self.kinds.get(k, 0) + 1
            if seen.get(k, 0) < 1 and len(self.samples) < 12:
                seen[k] = seen.get(k, 0) + 1
                self.samples.append(rec if len(json.dumps(rec)) < 1500 else json.dumps(rec)[:1500])
        for i, cl in re.findall(r'FAIL (\d+) (\[.*?\]|\{.*?\})"?\s*$', r['out'], re.M):
            cl = json.loads(cl.replace('\\"', '"'))
            self.fails.append((stage or module, recs[int(i) - 1], sorted(cl)))
        return recs

    def fail(self, stage, record, clauses):
        self.fails.append((stage, record, sorted(clauses)))

    # -- verdict ---------------------------------------------------------------
    def finish(self, level='model_checking', assumptions=(), extra=None):
        known = [k for k in known_findings() if k.get('property') == self.pid]
        new = []
        hit = {}
        for stage, rec, cl in self.fails:
            rest = []
            for c in cl:
                k = next((k for k in known if k['clause'] == c and
                          all(str(rec.get(f)) == str(v) for f, v in k.get('match', {}).items())), None)
                if k is None:
                    rest.append(c)
                else:
                    hit[k['what']] = hit.get(k['what'], 0) + 1
            if rest:
                new.append((stage, rec, rest))
        for w in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.events,
                   clauses_evaluated=self.clauses, events_by_kind=self.kinds, models=self.models,
                   samples=self.samples[:12])
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level,
                  coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(self.work, 'replay.json')
            with open(rp, 'w') as f:
                json.dump([dict(stage=s, clauses=c, record=r) for s, r, c in new[:400]], f, indent=1)
            byc = {}
            for s, r, c in new:
                for x in c:
                    byc.setdefault((s, x), []).append(r.get('id'))
            for (s, x), ids in sorted(byc.items(), key=lambda t: str(t))[:40]:
                print('  clause %s (%s) violated by %d event(s), first id=%s' % (x, s, len(ids), ids[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s: %d TLC states, %d implementation events, %d clauses, %.1f s'
              % (self.pid, self.states, self.events, self.clauses, time.time() - self.t0))
        return 0


def main(argv):
    pid = argv[1]
    build()
    path = os.path.join(HERE, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    c = Check(pid)
    try:
        mod.check(c)
    except ImplementationCrash as e:
        print(e)
        c.fail('driver', dict(kind='crash', id=0, msg=str(e)), ['implementation_crash'])
    except MachineryError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    return c.finish(getattr(mod, 'LEVEL', 'model_checking'), getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        build()
        print('built')
        sys.exit(0)
    sys.exit(main(sys.argv))

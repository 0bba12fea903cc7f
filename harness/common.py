"""Shared by the drivers (run with /opt/venv/bin/python, importing primpy from /repo)."""
import contextlib
import json
import math
import os
import random
import signal
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

np.seterr(all='ignore')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def rng(name):
    return random.Random('%s-%d' % (name, SEED))


def fl(x):
    """A float as a round-trip exact decimal string."""
    if x is None:
        return 'none'
    if isinstance(x, (bool, np.bool_)):
        return 'true' if x else 'false'
    try:
        a = np.asarray(x)
        if a.shape != () and a.size != 1:
            return 'array%s' % (a.shape,)
        v = a.reshape(-1)[0]
        if isinstance(v, (complex, np.complexfloating)):
            if v.imag != 0:
                return 'complex'
            v = v.real
        v = float(v)
    except Exception:
        return 'notanumber:' + type(x).__name__
    if math.isnan(v):
        return 'nan'
    if math.isinf(v):
        return 'inf' if v > 0 else '-inf'
    return repr(v)


def fls(xs):
    return [fl(x) for x in np.atleast_1d(np.asarray(xs)).ravel()]


def cx(z):
    z = complex(z)
    return {'re': fl(z.real), 'im': fl(z.imag)}


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Out(object):
    """Outcome of a call into the code under test."""

    def __init__(self):
        self.exc = 'none'
        self.mro = []
        self.msg = ''
        self.value = None
        self.warns = []

    @property
    def ok(self):
        return self.exc == 'none'


def attempt(fn, *a, timeout=60, **k):
    o = Out()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            with limit(timeout):
                o.value = fn(*a, **k)
        except Timeout:
            o.exc, o.mro = 'Timeout', ['Timeout']
        except SystemExit as e:
            o.exc, o.mro, o.msg = 'SystemExit', ['SystemExit'], str(e)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            o.exc = type(e).__name__
            o.mro = [c.__name__ for c in type(e).__mro__]
            o.msg = str(e)[:200]
    o.warns = sorted({w.category.__name__ for w in ws})
    o.warnmsgs = [(w.category.__name__, str(w.message)) for w in ws]
    return o


class Recorder(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def emit(self, kind, **k):
        self.n += 1
        r = {'kind': kind, 'id': self.n}
        r.update(k)
        self.f.write(json.dumps(r) + '\n')

    def close(self):
        self.f.close()


def load_json(path):
    with open(path) as f:
        return json.load(f)

"""P20: the power-law and feature theories, driven the way the sampler drives them.  args: out cases"""
import sys
from common import *  # noqa: F401,F403
import logging
logging.disable(logging.CRITICAL)
from cobaya_wrapper import powerlaw_pps, feature_pps  # noqa: E402

out = Recorder(sys.argv[1])
R = rng('sampler')
CLS = {'power': (powerlaw_pps, 'PowerLawPPS'), 'log': (feature_pps, 'LogOscillationPPS'),
       'lin': (feature_pps, 'LinOscillationPPS'), 'cut': (feature_pps, 'CutoffPPS')}
NAME = {'power': {}, 'log': dict(A='A_log', w='w_log', ph='p_log'), 'lin': dict(A='A_lin', w='w_lin', ph='p_lin'), 'cut': dict(kc='k_cut', sc='s_cut')}
ALL = ['A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'n_t_run', 'r', 'A', 'w', 'ph', 'kc', 'sc']


def numbers(c):
    p = dict(A_s=10**R.uniform(-10, -8))
    if c['ns']:
        p['n_s'] = R.choice([R.uniform(.7, 1.3), 1., .965])
    if c['run']:
        p['n_run'] = R.uniform(-.1, .1)
    if c['rr']:
        p['n_runrun'] = R.uniform(-.05, .05)
    r = 10**R.uniform(-4, -.3)
    if c['at'] != 'none':
        p['A_t'] = 0. if c['at'] == 'zero' else r * p['A_s']
    if c['r'] != 'none':
        p['r'] = 0. if c['r'] == 'zero' else (p['A_t'] / p['A_s'] if c['at'] == 'given' else r) if c['r'] == 'match' else \
            r * R.choice([1.002, .9, 3., 8., 1 / 8., 1e-3])
    if c['nt']:
        p['n_t'] = R.choice([R.uniform(-.5, .5), 0., -r / 8])
    if c['ntr'] != 'none':
        p['n_t_run'] = 0. if c['ntr'] == 'zero' else R.choice([-1, 1]) * 10**R.uniform(-4, -1)
    k = c['cls']
    if k == 'cut':
        if c['fa']:
            p['kc'] = 10**(R.uniform(-5, -1) if R.random() < .8 else R.uniform(-9, 3))
        if c['fw']:
            p['sc'] = R.uniform(.5, 8) if R.random() < .85 else 10**R.uniform(-2, 1.8)
    elif k != 'power':
        if c['fa']:
            p['A'] = R.choice([-1, 1]) * R.uniform(.01, .9)
        if c['fw']:
            p['w'] = 10**R.uniform(-1, 2) if k == 'log' else 10**R.uniform(-2, 1.5)
            if R.random() < .15:
                p['w'] = R.choice([-1, 1, 1]) * (10**R.uniform(2, 6) if k == 'log' else 10**R.uniform(1.5, 5.5))
        if c['fp']:
            p['ph'] = R.uniform(-1, 1) if R.random() < .9 else R.uniform(-40, 40)
    return p


def table(t):
    if not isinstance(t, dict):
        return dict(n=0, kmin='nan', kmax='nan', log_regular='none', at=[], pk=[])
    pk = np.asarray(t['Pk'])
    n = int(pk.size)
    at = sorted({1, n, *(R.randint(1, n) for _ in range(4 if not THOROUGH else 12))})
    return dict(n=n, kmin=fl(t['kmin']), kmax=fl(t['kmax']), log_regular=fl(bool(t.get('log_regular', True))), at=at, pk=[fl(pk[i - 1]) for i in at])


def emit(how, cls, p, outcome, s=None, t=None):
    out.emit('spectrum', how=how, outcome=outcome, p=dict({a: fl(p[a]) if a in p else 'none' for a in ALL}, cls=cls), scalar=table(s), tensor=table(t))


def kwargs(cls, p):
    return {NAME[cls].get(a, a): v for a, v in p.items()}


cases = [json.loads(x) for x in open(sys.argv[2])]
R.shuffle(cases)
if not THOROUGH:
    cases = cases[:3000]
live = {}
for cls, (m, n) in CLS.items():
    live[cls] = getattr(m, n)(standalone=True)
    can = live[cls].get_can_support_params()
    for a in ALL[:8] + list(NAME[cls].values()):
        out.emit('supports', cls=cls, param=a, wanted='supported' if a in can else 'missing')
seen = {cls: [] for cls in CLS}
for c in cases:
    cls = c['cls']
    p = numbers(c)
    todo = [p]
    if seen[cls] and R.random() < .25:
        todo.append(R.choice(seen[cls][-3:]))       # back to an earlier point of the chain, possibly cached
    seen[cls].append(p)
    for p in todo:
        th = live[cls]
        o = attempt(th.check_cache_and_compute, kwargs(cls, p), want_derived=R.random() < .5)
        if o.ok and o.value:
            emit('chain', cls, p, 'served', th.get_primordial_scalar_pk(), th.get_primordial_tensor_pk())
        else:
            emit('chain', cls, p, 'refused')

# complete models
from cobaya.likelihood import Likelihood  # noqa: E402
from cobaya.model import get_model  # noqa: E402


class Wants(Likelihood):
    def get_requirements(self):
        return {'primordial_scalar_pk': None, 'primordial_tensor_pk': None}

    def logp(self, **kw):
        return 0.


def whole(cls, pts):
    names = sorted(kwargs(cls, pts[0]))
    m = get_model(dict(theory={'cobaya_wrapper.%s.%s' % (CLS[cls][0].__name__.split('.')[-1], CLS[cls][1]): {'python_path': REPO}},
                       likelihood={'wants': {'external': Wants}},
                       params={n: {'prior': {'min': -1e7, 'max': 1e7}} for n in names}))
    res = []
    for p in pts:
        k = kwargs(cls, p)
        x = m.logposterior(k)
        res.append((m.provider.get_primordial_scalar_pk(), m.provider.get_primordial_tensor_pk()) if np.isfinite(x.logpost) else None)
    return res


for c in cases[:8 if not THOROUGH else 60]:
    pts = [numbers(c) for _ in range(3)]
    pts.append(pts[0])
    o = attempt(whole, c['cls'], pts)
    for i, p in enumerate(pts):
        if o.ok and o.value[i]:
            emit('model', c['cls'], p, 'served', *o.value[i])
        else:
            emit('model', c['cls'], p, 'refused' if o.ok else o.exc)
out.close()

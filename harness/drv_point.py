"""P21: points of the slow-roll theories, asked the way a sampler asks.  args: out"""
import multiprocessing
import os
import sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[v] = '1'
from common import *  # noqa: F401,F403
import logging
logging.disable(logging.CRITICAL)
import pots  # noqa: E402
from cobaya_wrapper import slowroll_pps  # noqa: E402

out = Recorder(sys.argv[1])
R = rng('point')
MP = 2.435323e18        # GeV, for choosing requests only
NAMES = dict(phi0='phi0', p='p', alpha='alpha')


def models():
    u = R.uniform
    yield 'LinearSlowRollPPS', {}, dict(cls='Monomial', p=1.), 60.
    yield 'QuadraticSlowRollPPS', {}, dict(cls='Monomial', p=2.), 60.
    p = u(.5, 3.5)
    yield 'MonomialSlowRollPPS', dict(p=p), dict(cls='Monomial', p=p), 60.
    yield 'StarobinskySlowRollPPS', {}, dict(cls='Starobinsky'), 12.
    f = u(18, 60)
    yield 'NaturalSlowRollPPS', dict(phi0=f), dict(cls='Natural', phi0=f), f * (1 - 1e-6)
    f = u(16, 60)
    yield 'DoubleWell2SlowRollPPS', dict(phi0=f), dict(cls='DoubleWell', phi0=f, p=2), f * (1 - 1e-6)
    f = u(16, 60)
    yield 'DoubleWell4SlowRollPPS', dict(phi0=f), dict(cls='DoubleWell', phi0=f, p=4), f * (1 - 1e-3)
    p, a = u(.6, 3), 10**u(-1, 1.3)
    yield 'TmodelSlowRollPPS', dict(p=p, alpha=a), dict(cls='Tmodel', p=p, alpha=a), (6 * a)**.5 * 8
    p, a = u(1.2, 3.5), 10**u(-.5, 1.3)
    yield 'RadionGaugeSlowRollPPS', dict(p=p, alpha=a), dict(cls='RadionGauge', p=p, alpha=a), 60.
    a = 10**u(-.5, 1.3)
    yield 'RadionGauge2SlowRollPPS', dict(alpha=a), dict(cls='RadionGauge', p=2, alpha=a), 60.


DERIVED = ['A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r', 'N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh',
           'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1']


def table(t):
    pk = np.asarray(t['Pk'])
    n = int(pk.size)
    at = sorted({n, R.randint(1, n), R.randint(1, n), R.randint(n // 2, n)})
    return dict(n=n, kmin=fl(t['kmin']), kmax=fl(t['kmax']), at=at, pk=[fl(pk[i - 1]) for i in at])


def ask(th, cls, rec, top, kw, A_s, q):
    """q: N_star, n_s, rho_reh_GeV, w_reh as given"""
    can = th.get_can_support_params()
    want = dict(kw, A_s=A_s, **q)
    missing = [k for k in want if k not in can]
    o = attempt(th.check_cache_and_compute, dict(want), want_derived=True, timeout=120)
    ok = o.ok and o.value and not missing
    d = dict(th.current_state['derived']) if ok else {}
    e = dict(scalar=table(th.get_primordial_scalar_pk()), tensor=table(th.get_primordial_tensor_pk())) if ok else {}
    out.emit('point', theory=cls,  outcome='served' if ok else 'refused', pot=pots._rec(rec['cls'], 1., **{k: v for k, v in rec.items() if k != 'cls'}), top=fl(top),
             q=dict(A_s=fl(A_s), Ns=fl(q.get('N_star')), ns=fl(q.get('n_s')), rho=fl(q.get('rho_reh_GeV')), w=fl(q.get('w_reh'))),
             d={k: fl(d[k]) if k in d else 'nan' for k in DERIVED}, missing=missing, **e)
    return d


def model(m):
    """all points of one model, in one process"""
    global R, out
    rnd, (cls, kw, rec, top) = m
    R = rng('point%d%s' % (rnd, cls))
    recs = []
    out = type('O', (), dict(emit=lambda self, kind, **k: recs.append((kind, k))))()
    th = getattr(slowroll_pps, cls)(standalone=True)
    A_s = 10**R.uniform(-9, -8.4)
    Ns = R.uniform(35, 72)
    d = ask(th, cls, rec, top, kw, A_s, dict(N_star=Ns))
    if R.random() < .3:
        ask(th, cls, rec, top, kw, A_s, {})
    V = float(d.get('V_end', 2e-11))
    hot = (1.5 * V)**.25 * MP
    rhos = [hot * R.uniform(.74, .97), hot * R.uniform(1.03, 1.4), 10**R.uniform(-3, 15), 10**R.uniform(5, 15.5)]
    for rho in rhos:
        ask(th, cls, rec, top, kw, A_s, dict(rho_reh_GeV=rho, w_reh=R.choice([0., R.uniform(-.3, .95), 1 / 3, R.uniform(-.3, .95), R.uniform(-.6, 1.6), 1., -1 / 3])))
    ask(th, cls, rec, top, kw, A_s, dict(rho_reh_GeV=rhos[0] if cls[0] < 'Q' else hot * 10**R.uniform(-9., -.5), w_reh=R.choice([1., 1., 1. - 1e-6, -1 / 3])))
    for rho in rhos[:1] + R.sample(rhos[1:], 2):
        ask(th, cls, rec, top, kw, A_s, dict(N_star=R.choice([Ns, R.uniform(45, 62), R.uniform(50, 60)]), rho_reh_GeV=rho))
    # a reheating that would end after today, by a sound equation of state
    ask(th, cls, rec, top, kw, A_s, dict(N_star=R.uniform(46, 62), rho_reh_GeV=10**R.uniform(-15, -13.2)))
    ns = float(d.get('n_s', .965))
    for t in (ns + R.uniform(-.006, .001), R.choice([ns + .03, .9, ns - .02, 1.01])):
        q = dict(n_s=t)
        if R.random() < .7:
            q['N_star'] = R.uniform(60, 75)
        if R.random() < .5:
            q['rho_reh_GeV'] = R.choice(rhos)
        ask(th, cls, rec, top, kw, A_s, q)
    return recs


jobs = [(rnd, x) for rnd in range(1 if not THOROUGH else 8) for x in models()]
with multiprocessing.Pool(8) as pool:
    for n, recs in enumerate(pool.imap(model, jobs, chunksize=1)):
        for kind, k in recs:
            out.emit(kind, model=n + 1, **k)
out.close()

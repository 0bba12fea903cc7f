"""P05: hand the model's event histories (as the integrator would return them) to the real post-processing, and
classify real integrations."""
import sys
import ivp
from common import *  # noqa: F401,F403
from scipy.integrate._ivp.ivp import OdeResult
import pots
from primpy.solver import solve
from primpy.events import InflationEvent, CollapseEvent, UntilNEvent, AfterInflationEndEvent
from primpy.initialconditions import SlowRollIC, InflationStartIC
from primpy.time.inflation import InflationEquationsT
from primpy.efolds.inflation import InflationEquationsN

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('P05')
NCASE = 20000 if THOROUGH else 1200
EQ = dict(T=InflationEquationsT, N=InflationEquationsN)
LIN = [p for p in pots.make(1.) if p.cls == 'LinearPotential'][0]
ALL = [p for p in pots.make(1.) if p.rec['feature'] == 'none']
MK = dict(in0=(1, False), in1=(1, True), out0=(-1, False), out1=(-1, True))


def make_event(eq, t):
    return CollapseEvent(eq) if t == 'collapse' else InflationEvent(eq, direction=MK[t][0], terminal=MK[t][1])


def results(s, verbose, o):
    def g(n):
        return fl(getattr(s, n)) if hasattr(s, n) else 'missing'
    msgs = {c: m for c, m in o.warnmsgs}
    return dict(N_beg=g('_N_beg'), H_beg=g('H_beg'), logaH_beg=g('_logaH_beg'), N_end=g('_N_end'), phi_end=g('phi_end'),
                V_end=g('V_end'), H_end=g('H_end'), logaH_end=g('_logaH_end'), N_tot=g('N_tot'), Ns=fls(s._N),
                mask=[bool(b) for b in s.inflation_mask] if hasattr(s, 'inflation_mask') else [],
                warns=[w for w in o.warns if w in ('CollapseWarning', 'InflationStartWarning', 'InflationEndWarning')],
                hint_start='Not tracking' in msgs.get('InflationStartWarning', ''),
                hint_end='Not tracking' in msgs.get('InflationEndWarning', ''))


R.shuffle(cases)
# every tracker set and begin state at least once in a quick run
for n, case in enumerate(cases[:NCASE]):
    case['tables'] = case['tables'] or {}
    form = 'TN'[n % 2]
    K = R.choice([-1, 0, 1])
    verbose = bool(n % 3)
    P = R.choice(ALL)
    if case['begin'] == 'edge':
        P = LIN
        if form == 'N':
            K = -1
    eq = EQ[form](K=K, potential=P.obj, verbose=verbose)
    dn = 'dphidt' if form == 'T' else 'dphidN'
    Noff = R.uniform(1., 3.) - 0.25 * math.log(P.obj.Lambda) if case['begin'] != 'edge' else 0.

    def point(N, share):
        """State at e-fold N whose squared field velocity is share * V."""
        for _ in range(1000):
            phi = P.lo + (P.hi - P.lo) * R.random()
            if R.random() < .2 and (P.neg or P.cls == 'StarobinskyPotential'):
                phi = -R.uniform(.1, 1.)
            V = float(P.obj.V(phi))
            H2 = (share * V / 2 + V) / 3 - K * math.exp(-2 * N)
            if H2 > 0.01 * V:
                break
        else:
            return None
        d = -math.sqrt(share * V)
        return dict(N=N, phi=phi, dphi=d if form == 'T' else d / math.sqrt(H2))
    ticks = [t for tab in case['tables'].values() for t in tab] or [0]
    T = max(max(ticks), 2 * case['flips']) + 3
    # ticks count half-integer e-folds after the start
    pos = lambda t: Noff + 0.5 + t
    if case['begin'] == 'edge':
        first = dict(N=0., phi=4., dphi=-2.) if form == 'T' else dict(N=0., phi=2., dphi=-1.)
        if form == 'T':
            first['N'] = 2.
            pos = lambda t: 2.5 + t
    else:
        first = point(Noff, R.choice([0.01, 0.3, 0.9, 1 - 10**R.uniform(-4, -1)]) if case['begin'] == 'inflating' else R.choice([1.2, 3., 5., 1 + 10**R.uniform(-4, -1)]))
    samples = [first]
    N0 = first['N'] if first else 0
    samples += [point(N0 + 0.4 * (i + 1) + R.uniform(0, .3), R.choice([0.1, 2.])) for i in range(int(T / 0.4))]
    evp = {t: [point(pos(x), 1.) for x in tab] for t, tab in case['tables'].items()}
    if any(s is None for s in samples) or any(p is None for v in evp.values() for p in v):
        continue

    def vec(p):
        y = np.zeros(len(eq.idx))
        y[eq.idx['phi']] = p['phi']
        y[eq.idx[dn]] = p['dphi']
        if form == 'T':
            y[eq.idx['_N']] = p['N']
        return y

    def tval(p):
        return p['N'] if form == 'N' else 10. + p['N'] ** 2

    events = [make_event(eq, t) for t in sorted(case['tracked'])]

    def answer(call):
        return OdeResult(t=np.array([tval(p) for p in samples]), y=np.array([vec(p) for p in samples]).T,
                         sol=None, nfev=1, njev=0, nlu=0, status=0, message='ok', success=True,
                         t_events=[np.array([tval(p) for p in evp[t]]) for t in sorted(case['tracked'])],
                         y_events=[np.array([vec(p) for p in evp[t]]) if evp[t] else np.array([])
                                   for t in sorted(case['tracked'])])

    class IC(object):
        equations = eq
        x_ini, x_end = tval(samples[0]), tval(samples[-1])

        def __call__(self, y0, **kw):
            y0[:] = vec(samples[0])
    ivp.prepared[:] = [answer]
    o = attempt(lambda: solve(IC(), events=events))
    ivp.prepared[:] = []
    sp = lambda p: {k: fl(v) for k, v in p.items()}
    out.emit('case', exc=o.exc, msg=o.msg, form=form, K=K, pot=P.rec, verbose=verbose, begin=case['begin'],
             tables=case['tables'], first=sp(first), points={t: sp(v[0]) for t, v in evp.items() if v},
             **(results(o.value, verbose, o) if o.ok else {}))

# real integrations
for P in [p for p in ALL if p.cls in ('QuadraticPotential', 'StarobinskyPotential', 'NaturalPotential')]:
    for K in (-1, 0, 1):
        for form in 'TN':
            for k in range(6 if THOROUGH else 3):
                eq = EQ[form](K=K, potential=P.obj, verbose=True)
                phi = P.lo + (P.hi - P.lo) * R.uniform(.5, .9)
                V = float(P.obj.V(phi))
                tr = [t for t, q in dict(in0=.6, in1=.25, out0=.5, out1=.5, collapse=.8).items() if R.random() < q]
                share = R.choice([0.2, 1.5, 3., 8., 1 + R.choice([-1, 1]) * 10**R.uniform(-3, -1)])
                a2 = 1 / (V * (share / 2 + 1) / 3 * R.uniform(.1, .7))
                span = R.choice([2., 200., 200.])

                class IC2(object):
                    equations = eq

                    def __call__(self, y0, **kw):
                        H2 = (share * V / 2 + V) / 3 - K / a2
                        d = -math.sqrt(share * V)
                        y0[eq.idx['phi']] = phi
                        if form == 'T':
                            y0[eq.idx['_N']] = math.log(a2) / 2
                            y0[eq.idx['dphidt']] = d
                            self.x_ini, self.x_end = 1., 1e300
                        else:
                            y0[eq.idx['dphidN']] = d / math.sqrt(H2)
                            self.x_ini, self.x_end = math.log(a2) / 2, math.log(a2) / 2 + span
                events = [make_event(eq, t) for t in tr]
                if form == 'T':
                    events.append(UntilNEvent(eq, math.log(a2) / 2 + span))
                if R.random() < 0.85:
                    events.append(AfterInflationEndEvent(eq))
                if 'collapse' not in tr and K == 1:
                    continue
                o = attempt(lambda: solve(IC2(), events=events, rtol=1e-6, atol=1e-9), timeout=5)
                if not o.ok:
                    if o.exc != 'Timeout':
                        out.emit('case', exc=o.exc, msg=o.msg, form=form, K=K, pot=P.rec)
                    continue
                s = o.value
                name = {t: make_event(eq, t).name for t in tr}
                dn = 'dphidt' if form == 'T' else 'dphidN'
                pts, tabs = {}, {}
                for t in tr:
                    tabs[t] = list(range(1, 1 + len(s._N_events[name[t]])))
                    if tabs[t]:
                        pts[t] = dict(N=fl(s._N_events[name[t]][0]), phi=fl(s.phi_events[name[t]][0]),
                                      dphi=fl(getattr(s, dn + '_events')[name[t]][0]))
                out.emit('case', exc='none', msg='', form=form, K=K, pot=P.rec, verbose=True,
                         begin='inflating' if share < 1 else 'not', tables=tabs, real=True,
                         first=dict(N=fl(s._N[0]), phi=fl(s.phi[0]), dphi=fl(getattr(s, dn)[0])), points=pts,
                         **results(s, True, o))
out.close()

"""P07: the model's profiles answered in place of the integrator; real searches for N_tot and for N_star."""
import sys
import ivp
from states import *  # noqa: F401,F403
from scipy.integrate._ivp.ivp import OdeResult
from primpy.solver import solve
from primpy.events import InflationEvent, CollapseEvent, UntilNEvent
from primpy.initialconditions import ISIC_Nt, ISIC_NsOk

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('P07')
R.shuffle(cases)
MAXT = 25
PP = [p for p in pots.make(1e-3) if p.cls in ('QuadraticPotential', 'StarobinskyPotential', 'NaturalPotential')]


class Profile(object):
    """Stands for the integrator: the outcome is a function of the initial field value."""

    def __init__(self, prof, lo, hi, target, eq, form):
        self.p, self.lo, self.hi, self.T, self.eq, self.form = prof, lo, hi, target, eq, form

    def __bool__(self):
        return True

    def pop(self, i):
        return self.answer

    def answer(self, call):
        eq, form = self.eq, self.form
        y0 = np.asarray(call['y0'], float)
        phi = y0[eq.idx['phi']]
        N0 = call['t_span'][0] if form == 'N' else y0[eq.idx['_N']]
        u = min(max((phi - self.lo) / (self.hi - self.lo), 0.), 1.) * 3
        k = min(int(u), 2)
        f = u - k
        kind = self.p[k]
        lev = dict(l=.3, m=.95, p=1.04, h=1.5)
        ev, dN, msg, status = {}, self.T * .1, '', 0
        if kind == 'collapse':
            ev['Collapse'] = N0 + .5
            dN = .5
        elif kind in ('early', 'starterr'):  # a start error is raised before integrating; this is its edge
            ev['Inflation_dir-1_term1'] = N0
            dN = 0.
        elif kind == 'more':
            dN = self.T + 10
            ev['UntilN'] = N0 + dN
        elif kind == 'stuck':
            status, msg = -1, 'Required step size is less than spacing between numbers.'
        elif kind == 'other':
            status, msg = -1, 'some other failure'
        else:
            a, b = (lev[c] for c in kind)
            dN = self.T * (a + (b - a) * f)
            ev['Inflation_dir-1_term1'] = N0 + dN
        ev['Inflation_dir1_term0'] = N0

        def vec(N, first=False):
            y = y0.copy()
            if not first:
                ph = .5 * self.lo
                V = float(eq.potential.V(ph))
                H2 = V / 2 - eq.K * math.exp(-2 * N)
                if H2 <= 0:
                    H2 = V / 2
                y[eq.idx['phi']] = ph
                y[eq.idx['dphidt' if form == 'T' else 'dphidN']] = -math.sqrt(V) / (1. if form == 'T' else math.sqrt(H2))
                if form == 'T':
                    y[eq.idx['_N']] = N
            return y
        X = (lambda N: N) if form == 'N' else (lambda N: call['t_span'][0] + (N - N0))
        names = [e.name for e in call['events']]
        te = [np.array([X(ev[n])]) if n in ev else np.array([]) for n in names]
        ye = [np.array([vec(ev[n], ev[n] == N0)]) if n in ev else np.array([]) for n in names]
        return OdeResult(t=np.array([X(N0), X(N0 + dN)]), y=np.array([y0, vec(N0 + dN)]).T, sol=None, nfev=1, njev=0,
                         nlu=0, status=status, message=msg, success=status >= 0, t_events=te, y_events=ye)


def search(form, eq, ic_factory, evf, prof=None, target=None, lo=None, hi=None, tol='1e-3', what='N_tot', post=None, asked=None, **extra):
    hooks = Profile(prof, lo, hi, target, eq, form) if prof else []

    def go():
        ivp.prepared = hooks
        try:
            ic = ic_factory()
            s = solve(ic, events=evf())
        finally:
            ivp.prepared = []
        if post:
            post(s)
        return ic, s
    o = attempt(go, timeout=MAXT)
    if o.exc == 'Timeout':
        return None
    rec = dict(form=form, K=eq.K, target=fl(target), lo=fl(lo), hi=fl(hi), tol=tol, what=what, exc=o.exc, mro=o.mro, msg=o.msg)
    rec.update(extra)
    if prof:
        rec['prof'] = prof
    if o.ok:
        ic, s = o.value
        rec.update(got=fl(getattr(s, what)), ic_phi=fl(ic.phi_i), sol_phi=fl(s.phi[0]))
        if asked is not None:
            d = 'dphidt' if form == 'T' else 'dphidN'
            rec['asked'] = {k: fl(v) for k, v in asked.items()}
            rec['first'] = dict(phi=fl(s.phi[0]), N=fl(s._N[0]), dphi=fl(getattr(s, d)[0]),
                                t=fl(s.t[0]) if hasattr(s, 't') else 'absent',
                                eta=fl(s.eta[0]) if hasattr(s, 'eta') else 'absent')
    out.emit('search', **rec)
    return o


n = 0
for prof in cases[:(6000 if THOROUGH else 500)]:
    n += 1
    form = 'TN'[n % 2]
    P = PP[n // 2 % len(PP)]
    lo, hi = P.lo + .4 * (P.hi - P.lo), P.hi
    K = R.choice([-1, 0, 1])
    third = lo + (hi - lo) / 3
    if prof[0] == 'starterr':
        K = 1
        N_i = -.5 * math.log(float(P.obj.V(third)) / 2)
    else:
        N_i = -.5 * math.log(float(P.obj.V(lo)) / 2) + R.uniform(.1, 2.)
    eq = EQ[form](K=K, potential=P.obj)
    T = R.choice([5., 20., 61.3])
    evf = lambda: [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq),
                   UntilNEvent(eq, N_i + T + 10)]
    kw = dict(t_i=10.) if form == 'T' else {}
    search(form, eq, lambda: ISIC_Nt(eq, N_tot=T, phi_i_bracket=[lo, hi], N_i=N_i, **kw), evf, prof=prof, target=T, lo=lo, hi=hi,
           tol='1.01e-3')

def equations(form, K, P):
    """Equations tracking what they may, and start values of the tracked times that tell them apart."""
    eta, time = R.random() < .5, R.random() < .5
    kw = {}
    if form == 'T' or time:
        kw['t_i'] = R.choice([1e4, R.uniform(1., 1e3)])
    if eta:
        kw['eta_i'] = R.choice([0., R.uniform(1., 50.), -R.uniform(1., 50.)])
    return EQ[form](K=K, potential=P.obj, track_eta=eta, **({} if form == 'T' else dict(track_time=time))), kw


# real searches
REAL = [p for p in pots.make(1e-3) if p.cls in ('QuadraticPotential', 'StarobinskyPotential', 'NaturalPotential',
        'LinearPotential', 'TmodelPotential', 'DoubleWell2Potential')]
for n in range(150 if THOROUGH else 20):
    P = R.choice(REAL)
    K = R.choice([-1, 0, 1])
    form = R.choice('NNT')
    eq, tk = equations(form, K, P)
    lo, hi = P.lo + .1 * (P.hi - P.lo), P.hi * .98
    if R.random() < .3:
        lo, hi = sorted([R.uniform(P.lo, P.hi), R.uniform(P.lo, P.hi)])
    T = R.choice([5., 20., 40., 60.])
    crit = -.5 * math.log(float(P.obj.V(R.uniform(lo, hi))) / 2)
    kw = dict(N_i=crit + R.choice([0., R.uniform(0, 4)])) if K == 0 or R.random() < .5 else \
        dict(Omega_Ki=-K * R.choice([.01, .3, .9] if K < 0 else [.01, .5, 3., 1.9]))
    kw.update(tk)
    evf = lambda: [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq),
                   UntilNEvent(eq, 300 + crit)]
    search(form, eq, lambda: ISIC_Nt(eq, N_tot=T, phi_i_bracket=[lo, hi], **kw), evf, target=T, lo=lo, hi=hi, tol='1.1e-3', pot=P.rec,
           asked=kw)
for n in range(60 if THOROUGH else 12):
    P = R.choice([p for p in REAL if p.cls in ('QuadraticPotential', 'StarobinskyPotential', 'LinearPotential')])
    K = R.choice([-1, 1])
    form = R.choice('NNT')
    eq, tk = equations(form, K, P)
    lo, hi = dict(QuadraticPotential=(14., 30.), StarobinskyPotential=(5., 9.), LinearPotential=(10., 25.))[P.cls]
    if R.random() < .25:
        hi = lo + .3 * (hi - lo)
    crit = -.5 * math.log(float(P.obj.V(lo)) / 2)
    kw = dict(N_i=crit + R.uniform(.1, 3.)) if R.random() < .6 else dict(Omega_Ki=-K * R.choice([.1, .9]))
    kw.update(tk)
    Ok, h, Ns = -K * 10**R.uniform(-4, -1.3), R.choice([R.uniform(.5, .9), R.uniform(.15, .5), R.uniform(.9, 2.)]), R.choice([45., 52., 57.])
    evf = lambda: [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq),
                   UntilNEvent(eq, 300 + crit)]
    search(form, eq, lambda: ISIC_NsOk(eq, N_star=Ns, Omega_K0=Ok, h=h, phi_i_bracket=[lo, hi], **kw), evf, target=Ns, lo=lo,
           hi=hi, tol='1.1e-3', what='N_star', post=lambda s: s.calibrate_scale_factor(Omega_K0=Ok, h=h), pot=P.rec,
           Omega_K0=fl(Ok), h=fl(h), asked=kw)
out.close()

"""P01/P02: record right-hand sides, helpers and solutions of the background equations."""
import sys
from states import *  # noqa: F401,F403
from primpy.solver import solve
from primpy.events import InflationEvent, CollapseEvent, UntilNEvent, UntilTEvent
from primpy.initialconditions import SlowRollIC, InflationStartIC

out = Recorder(sys.argv[1])
MODE = sys.argv[2]
R = rng('P0' + MODE)


def dphiname(form):
    return 'dphidt' if form == 'T' else 'dphidN'


def vector(eq, form, N, phi, dphi, t=0.3, eta=0.7):
    y = np.zeros(len(eq.idx))
    y[eq.idx['phi']] = phi
    y[eq.idx[dphiname(form)]] = dphi
    if '_N' in eq.idx:
        y[eq.idx['_N']] = N
    if 't' in eq.idx:
        y[eq.idx['t']] = t
    if 'eta' in eq.idx:
        y[eq.idx['eta']] = eta
    return (N if form == 'N' else t), y


def rhs_record(P, form, K, N, phi, phit, H2, tt, te, edge):
    kw = dict(track_eta=te)
    if form == 'N':
        kw['track_time'] = tt
    dphi = phit if form == 'T' else phit / math.sqrt(H2)
    rec = dict(form=form, K=K, pot=P.rec, tag=P.tag, feature=P.rec['feature'], N=fl(N), phi=fl(phi), dphi=fl(dphi),
               tt=tt, te=te, edge=edge)

    def go():
        eq = EQ[form](K=K, potential=P.obj, **kw)
        x, y = vector(eq, form, N, phi, dphi)
        dy = eq(x, y)
        rhs = dict(phi=fl(dy[eq.idx['phi']]), dphi=fl(dy[eq.idx[dphiname(form)]]), N='none', t='none', eta='none')
        for a, b in (('N', '_N'), ('t', 't'), ('eta', 'eta')):
            if b in eq.idx:
                rhs[a] = fl(dy[eq.idx[b]])
        res = dict(rhs=rhs, H2=fl(eq.H2(x, y)), H=fl(eq.H(x, y)), V=fl(eq.V(x, y)), dV=fl(eq.dVdphi(x, y)),
                   w=fl(eq.w(x, y)), inflating=fl(eq.inflating(x, y)))
        Y = np.stack([y, y, y], axis=1)
        X = np.array([x, x, x])
        vec = True
        for f in ('H2', 'H', 'V', 'dVdphi', 'w', 'inflating'):
            v = np.asarray(getattr(eq, f)(X, Y))
            vec = vec and v.shape == (3,) and bool(np.allclose(v, float(getattr(eq, f)(x, y)), rtol=1e-12, atol=1e-13 * float(eq.V(x, y))))
        res['vec'] = vec
        return res
    a = attempt(go)
    if a.ok:
        rec.update(a.value, exc='none')
        out.emit('rhs', **rec)
    else:
        out.emit('exc', where='rhs', exc=a.exc, msg=a.msg, **rec)


def help_record(P, form, K, N, phi, phit, H2):
    dphi = phit if form == 'T' else phit / math.sqrt(H2)
    rec = dict(form=form, K=K, pot=P.rec, tag=P.tag, feature=P.rec['feature'], N=fl(N), phi=fl(phi), dphi=fl(dphi))

    def go():
        eq = EQ[form](K=K, potential=P.obj)
        V, dV, d2V, d3V = (float(f(phi)) for f in (P.obj.V, P.obj.dV, P.obj.d2V, P.obj.d3V))
        h2 = eq.get_H2(N=N, dphi=dphi, V=V, K=K)
        H = np.sqrt(h2)
        dH = eq.get_dH(N=N, H=H, dphi=dphi, K=K)
        dH_H = eq.get_dH_H(N=N, H2=h2, dphi=dphi, K=K)
        d2phi = eq.get_d2phi(H2=h2, dH_H=dH_H, dphi=dphi, dV=dV)
        d2H = eq.get_d2H(N=N, H=H, dH=dH, dphi=dphi, d2phi=d2phi, K=K)
        d3phi = eq.get_d3phi(H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2phi, dV=dV, d2V=d2V)
        d3H = eq.get_d3H(N=N, H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, K=K)
        d4phi = eq.get_d4phi(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, dV=dV, d2V=d2V,
                             d3V=d3V)
        v = dict(dH=dH, dH_H=dH_H, d2H=d2H, d3H=d3H, d2phi=d2phi, d3phi=d3phi, d4phi=d4phi,
                 e1=eq.get_epsilon_1H(H=H, dH=dH), e2=eq.get_epsilon_2H(H=H, dH=dH, d2H=d2H),
                 e3=eq.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H),
                 g2=eq.get_epsilon_2H(H=H, dH=dH, d2H=d2H, kind='Gong'),
                 g3=eq.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H, kind='Gong'),
                 d1=eq.get_delta_1(H=H, dH=dH, dphi=dphi, d2phi=d2phi),
                 d2=eq.get_delta_2(H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2phi, d3phi=d3phi),
                 d3=eq.get_delta_3(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=dphi, d2phi=d2phi, d3phi=d3phi, d4phi=d4phi))
        return {k: fl(x) for k, x in v.items()}
    a = attempt(go)
    if a.ok:
        out.emit('help', exc='none', **rec, **a.value)
    else:
        out.emit('exc', where='help', exc=a.exc, msg=a.msg, **rec)


def sol_records(P, form, K, icname, kw, te, tt, npair):
    kwe = dict(track_eta=te)
    if form == 'N':
        kwe['track_time'] = tt
    dn = dphiname(form)
    rec = dict(form=form, K=K, pot=P.rec, tag=P.tag, feature=P.rec['feature'], ic=icname)

    def go():
        eq = EQ[form](K=K, potential=P.obj, **kwe)
        ic = dict(SlowRollIC=SlowRollIC, InflationStartIC=InflationStartIC)[icname](
            eq, t_i=1., eta_i=0.5, **kw)
        ev = [InflationEvent(eq, direction=1, terminal=False), InflationEvent(eq, direction=-1, terminal=True),
              UntilNEvent(eq, ic.N_i + 40), CollapseEvent(eq)]
        return solve(ic, events=ev)
    a = attempt(go)
    if not a.ok:
        out.emit('exc', where='solve', exc=a.exc, msg=a.msg, **rec)
        return None
    s = a.value
    n = len(s._N)
    idx = sorted(set([0, n - 1, n - 2] + [R.randrange(n) for _ in range(npair)]))
    y = {'N': s._N, 'phi': s.phi, 'dphi': getattr(s, dn)}
    for i in idx:
        out.emit('sample', N=fl(y['N'][i]), phi=fl(y['phi'][i]), dphi=fl(y['dphi'][i]), H=fl(s.H[i]),
                 logaH=fl(s._logaH[i]), Omega_K=fl(s.Omega_K[i]), w=fl(s.w[i]), **rec)
        if i + 1 < n:
            g = lambda j: {k: fl(v[j]) for k, v in y.items()}
            t = s.x if form == 'T' else (s.t if tt else None)
            out.emit('step', a=g(i), b=g(i + 1), dt=fl(t[i + 1] - t[i]) if t is not None and i < n - 2 else 'none',
                     deta=fl(s.eta[i + 1] - s.eta[i]) if te and i < n - 2 else 'none',
                     tb=fl(abs(t[i + 1])) if t is not None else '0', etab=fl(abs(s.eta[i + 1])) if te else '0',
                     tol='1e-7', **rec)
    return s


def pair_records(P, K, icname, kw, npts):
    rec = dict(K=K, pot=P.rec, tag=P.tag, ic=icname)

    def go():
        IC = dict(SlowRollIC=SlowRollIC, InflationStartIC=InflationStartIC)[icname]
        sols = {}
        eqT = InflationEquationsT(K=K, potential=P.obj, track_eta=True)
        icT = IC(eqT, t_i=1., eta_i=0.5, **kw)
        sT = solve(icT, events=[InflationEvent(eqT, direction=1, terminal=False),
                                InflationEvent(eqT, direction=-1, terminal=True),
                                UntilNEvent(eqT, icT.N_i + 30), CollapseEvent(eqT)])
        eqN = InflationEquationsN(K=K, potential=P.obj, track_eta=True, track_time=True)
        # same initial state, same e-folds
        icN = IC(eqN, t_i=1., eta_i=0.5, **kw)
        icN.dphidN_i = float(sT.dphidt[0] / sT.H[0])
        icN.x_end = float(sT._N[-1])
        sN = solve(icN, t_eval=np.array(sT._N))
        return sT, sN, float(sT.dphidt[0] / sT.H[0] - sN.dphidN[0])
    a = attempt(go)
    if not a.ok:
        out.emit('pair', exc=a.exc, msg=a.msg, **rec)
        return
    sT, sN, mis = a.value
    if abs(mis) > 1e-12:
        return       # slow-roll starts differ slightly between the formulations; nothing to compare
    if np.max((sT.dphidt / sT.H)**2) > 5.8:
        # in e-folds H^2 = (2V - 6K/a^2)/(6 - phi'^2) is 0/0 where phi'^2 = 6 (closed universe, curvature
        # above a third of the potential): the e-folds integration cannot be accurate across that point
        return
    n = min(len(sT._N), len(sN._N))
    for i in sorted(set([0, 1, n // 2, n - 1] + [R.randrange(n) for _ in range(npts)])):
        out.emit('pair', exc='none', N=fl(sT._N[i]), tol='1e-5',
                 T=dict(phi=fl(sT.phi[i]), dphi=fl(sT.dphidt[i]), t=fl(sT.x[i]), eta=fl(sT.eta[i]), H=fl(sT.H[i]), w=fl(sT.w[i])),
                 N_=dict(phi=fl(sN.phi[i]), dphi=fl(sN.dphidN[i]), t=fl(sN.t[i]), eta=fl(sN.eta[i]), H=fl(sN.H[i]), w=fl(sN.w[i])),
                 **rec)


PS = pots.make(1.) + pots.make(0.02)
# the equations have no scale of their own: extremely low and extremely high energies
for L in (1e-7, 1e-9, 1e-12, 1e3):
    ALL = pots.make(L)
    for P in (ALL if THOROUGH else R.sample(ALL, 6)):
        for K in (-1, 0, 1):
            for form in ('T', 'N'):
                st = random_state(R, P, K)
                if MODE == 'rhs':
                    rhs_record(P, form, K, *st, tt=True, te=bool(R.random() < .5), edge=False)
                else:
                    help_record(P, form, K, *st)
if MODE == 'rhs':
    for P in PS:
        for K in (-1, 0, 1):
            for form in ('T', 'N'):
                for j in range(6 if THOROUGH else 2):
                    st = random_state(R, P, K)
                    rhs_record(P, form, K, *st, tt=bool(R.random() < .5), te=bool(R.random() < .5), edge=False)
                if P.rec['feature'] == 'none' or THOROUGH:
                    for e in (0., 1e-6, -1e-6):
                        st = random_state(R, P, K, edge=e)
                        rhs_record(P, form, K, *st, tt=True, te=True, edge=(e == 0.))
    def cases(P):
        o = P.obj
        c = []
        hi = P.lo + 0.9 * (P.hi - P.lo)
        for _ in range(3 if THOROUGH else 1):
            phi = P.lo + (P.hi - P.lo) * R.uniform(.6, .95)
            V = float(o.V(phi))
            for K in (-1, 0, 1):
                c.append((K, 'SlowRollIC', dict(phi_i=phi, N_i=0.5 * math.log(3 / V * R.uniform(2, 30)))))
                c.append((K, 'InflationStartIC', dict(phi_i=phi, N_i=0.5 * math.log(2 / V * R.uniform(1.3, 30)))))
        return c
    SUB = [P for P in PS if P.tag.split('_')[0] in ('StarobinskyPotential', 'QuadraticPotential', 'NaturalPotential',
           'DoubleWell2Potential', 'RadionGauge2Potential', 'TmodelPotential', 'StarobinskyTanhStepPotential',
           'StarobinskyGaussianDipPotential')]
    if not THOROUGH:
        SUB = [SUB[i] for i in sorted(R.sample(range(len(SUB)), 14))]
    for P in SUB:
        for K, ic, kw in cases(P):
            for form in ('T', 'N'):
                sol_records(P, form, K, ic, kw, te=bool(R.random() < .7), tt=bool(R.random() < .7),
                            npair=8 if THOROUGH else 2)
    for P in SUB[::1 if THOROUGH else 2]:
        for K, ic, kw in cases(P):
            pair_records(P, K, ic, kw, 3)
else:
    for P in PS:
        for K in (-1, 0, 1):
            for form in ('T', 'N'):
                for j in range(10 if THOROUGH else 3):
                    help_record(P, form, K, *random_state(R, P, K))
out.close()

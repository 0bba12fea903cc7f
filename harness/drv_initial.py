"""P06: the model's requests, made with random numbers, up to the state vector that reaches the integrator."""
import sys
import ivp
from states import *  # noqa: F401,F403
from scipy.integrate._ivp.ivp import OdeResult
from primpy.solver import solve
from primpy.initialconditions import SlowRollIC, InflationStartIC

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('P06')
IC = dict(SR=SlowRollIC, IS=InflationStartIC)
POTS = [p for L in (1., 1e-3) for p in pots.make(L)]
POTS += [p for L in (1e-9, 1e-12, 1e3) for p in pots.make(L) if R.random() < .3]
REP = 12 if THOROUGH else 2
for c in cases:
    for rep in range(REP):
        P = R.choice(POTS)
        K, form, ic = c['K'], c['form'], c['kind']
        phi = P.lo + (P.hi - P.lo) * R.random()
        if P.neg and R.random() < .2 and ic == 'SR':
            phi = -phi
        V = float(P.obj.V(phi))
        div = 3 if ic == 'SR' else 2
        Ncrit = -0.5 * math.log(V / div)
        Nreq = Ncrit + (10**R.uniform(-2, 1.) if c['fits'] else -10**R.uniform(-2, 1.))
        if K < 1 and R.random() < .5:
            # only a closed universe has a smallest size
            Nreq = Ncrit - 10**R.uniform(-2, 1.3)
        Om = dict(neg=-10**R.uniform(-5, 2), zero=0., pos=R.choice([10**R.uniform(-5, -.01), 1 - 1e-6]),
                  one=R.choice([1., 1.5, 30.]))[c['om']]
        ti = R.choice([0., 1., -2.5, 1e4 * R.random()])
        ei = R.choice([0., -3. * R.random(), 3. * R.random(), 1e9])
        kw = dict(track_eta=c['te'])
        if form == 'N':
            kw['track_time'] = c['tt']
        eq = EQ[form](K=K, potential=P.obj, **kw)
        dn = 'dphidt' if form == 'T' else 'dphidN'
        args = dict(phi_i=phi)
        if c['ht']:
            args['t_i'] = ti
        if c['he']:
            args['eta_i'] = ei
        xend = R.choice([None, 1e5, 7.5e3])
        if xend:
            args['x_end'] = xend
        if c['given'] in ('N', 'both'):
            args['N_i'] = Nreq
        if c['given'] in ('Omega', 'both'):
            args['Omega_Ki'] = Om
        got = {}

        def answer(call):
            got.update(call)
            y = np.asarray(call['y0'], float)
            return OdeResult(t=np.array([call['t_span'][0]]), y=y[:, None].copy(), sol=None, nfev=1, njev=0, nlu=0,
                             status=0, message='', success=True, t_events=[], y_events=[])
        ivp.prepared[:] = [answer]

        def go():
            i = IC[ic](eq, **args)
            solve(i)
            return i
        o = attempt(go)
        ivp.prepared[:] = []
        rec = dict(ic=ic, form=form, K=K, pot=P.rec, phi_i=fl(phi), given=c['given'], Nreq=fl(Nreq), Omega=fl(Om),
                   tt=c['tt'], te=c['te'], ht=c['ht'], he=c['he'], t_i=fl(ti), eta_i=fl(ei), exc=o.exc, msg=o.msg,
                   x_end=fl(xend or 1e300))
        if o.ok:
            y = got['y0']
            i = o.value
            g = lambda n: fl(y[eq.idx[n]]) if n in eq.idx else 'none'
            rec.update(y0=dict(phi=g('phi'), dphi=g(dn), N=g('_N'), t=g('t'), eta=g('eta'), size=len(y)),
                       nvars=len(eq.idx), x0=fl(got['t_span'][0]), x1=fl(got['t_span'][1]),
                       attr={a: fl(getattr(i, a, None)) for a in ('N_i', 'Omega_Ki', 'aH_i', 'H_i')})
        out.emit('req', **rec)
        if o.ok and c['given'] == 'N' and K != 0:
            O = float(o.value.Omega_Ki)
            if abs(O) > 1e-8 and abs(1 - O) > 1e-4:
                a2 = dict(args)
                a2.pop('N_i')
                o2 = attempt(lambda: IC[ic](eq, Omega_Ki=O, **a2))
                out.emit('trip', exc=o2.exc, ic=ic, K=K, form=form, N1=fl(Nreq), N2=fl(o2.value.N_i) if o2.ok else 'nan',
                         cond=fl(1 + abs(O) + 1 / abs(O) * 1e-6))
        if o.ok and rep == 0 and R.random() < .25:
            i = o.value
            a3 = dict(args)
            x0 = ti if form == 'T' else float(i.N_i)
            a3['x_end'] = x0 + 10**R.uniform(-3, -1)
            o3 = attempt(lambda: (lambda j: (j, solve(j)))(IC[ic](eq, **a3)), timeout=3)
            if o3.exc == 'Timeout' or (o3.ok and not o3.value[1].success):
                continue
            j, s = o3.value if o3.ok else (None, None)
            out.emit('span', exc=o3.exc, msg=o3.msg, x_end=fl(a3['x_end']), x_ini=fl(x0), phi_i=fl(phi),
                     N_i=fl(j.N_i) if j else 'nan', x_first=fl(s.x[0]) if s else 'nan', x_last=fl(s.x[-1]) if s else 'nan',
                     phi_first=fl(s.phi[0]) if s else 'nan', N_first=fl(s._N[0]) if s else 'nan')
out.close()

"""P14: slow-roll maps, observables, amplitudes and constructors.  args: out cases"""
import pots
from common import *  # noqa: F401,F403
import primpy.potentials as pp

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('slowroll')
NPT = 12 if THOROUGH else 4


EDGE = dict(MonomialPotential=lambda o: dict(p=o.p), LinearPotential=lambda o: {}, QuadraticPotential=lambda o: {},
            CubicPotential=lambda o: {}, QuarticPotential=lambda o: {}, StarobinskyPotential=lambda o: {},
            NaturalPotential=lambda o: dict(phi0=o.phi0), DoubleWellPotential=lambda o: dict(phi0=o.phi0, p=o.p),
            DoubleWell2Potential=lambda o: dict(phi0=o.phi0), DoubleWell4Potential=lambda o: dict(phi0=o.phi0),
            TmodelPotential=lambda o: dict(p=o.p, alpha=o.alpha))


def one(f):
    return float(np.asarray(f).reshape(-1)[0])


def scalar(f, x):
    o = attempt(lambda: one(f(x)))
    return o.value if o.ok else None


for Lambda in [1., 10**R.uniform(-4, -1), 10**R.choice([R.uniform(-12, -5), R.uniform(1, 4)])] + ([10**R.uniform(-4, 1) for _ in range(3)] if THOROUGH else []):
    for P in pots.make(Lambda):
        o, rec = P.obj, P.rec
        end = one(o.phi_end)
        hill = rec.get('phi0')
        top = .95 * float(hill) if hill else min(max(P.hi, 2 * end), 25.)
        base = dict(pot=rec, feature=rec['feature'], tag=P.tag, base=rec['cls'])
        if rec['cls'] == 'RadionGauge':
            top = min(top, one(o.sr_N2phi(100.)))
        xs = [R.uniform(max(.3 * end, P.lo), end)] + [end + (top - end) * R.random() for _ in range(NPT)]
        if P.cls == 'StarobinskyPotential':
            xs.append(9.2)
        for x in xs:
            y = end + (top - end) * R.random()
            if abs(y - x) < 1e-3:
                continue
            a, b = one(o.sr_phi2N(x)), one(o.sr_phi2N(y))
            arr = attempt(lambda: np.asarray(o.sr_phi2N(np.array([x, y, x]))))
            inside = x > end
            out.emit('map', phi=fl(x), phi2=fl(y), N=fl(a), N2=fl(b), N_end=fl(o.sr_phi2N(end)), inside=inside,
                     back=fl(scalar(o.sr_N2phi, a)) if inside else 'none',
                     arr=bool(arr.ok and arr.value.shape == (3,) and np.allclose(np.real(arr.value), [a, b, a], rtol=1e-10, atol=1e-12)), **base)
            if hasattr(o, 'phi2efolds') and inside:
                k = {'phi0': float(hill)} if hill else {}
                d = attempt(lambda: one(type(o).phi2efolds(x, **k)))
                out.emit('deprecated', old=fl(d.value) if d.ok else d.exc, new=fl(a), warns=d.warns, **base)
        Nmax = min(100., one(o.sr_phi2N(top)))
        for N in [R.uniform(.01, 1.) * Nmax for _ in range(NPT)] + [.3 * Nmax]:
            q = attempt(lambda: one(o.sr_N2phi(N)))
            if q.ok:
                out.emit('inverse', N=fl(N), phi=fl(q.value), phi_end=fl(end), there=fl(scalar(o.sr_phi2N, q.value)), **base)
            else:
                out.emit('inverse', N=fl(N), phi=q.exc, phi_end=fl(end), there=q.exc, **base)
            As = 10**R.uniform(-10, -8)
            for by, kw in (('N_star', dict(N_star=N, phi_star=None)), ('phi_star', dict(N_star=None, phi_star=q.value))):
                z = attempt(o.sr_As2Lambda, A_s=As, **kw)
                if z.ok:
                    L, p, n = [one(v) for v in z.value]
                    out.emit('amplitude', Lambda=fl(L), phi=fl(p), N=fl(n), As=fl(As), by=by, gave=fl(kw[by]),
                             there=fl(scalar(o.sr_phi2N, p)), **base)
                else:
                    out.emit('amplitude', Lambda=z.exc, phi=z.exc, N=z.exc, As=fl(As), by=by, gave=fl(kw[by]), there=z.exc, **base)
            z = attempt(o.sr_As2Lambda, A_s=As, N_star=N, phi_star=q.value)
            out.emit('contradictory', exc=z.exc, **base)
        if hasattr(o, 'sr_Nstar2ns'):
            kw = {k: float(rec[k]) for k in ('p', 'phi0') if k in rec and rec['cls'] != 'Starobinsky'}
            for N in ([R.uniform(15., min(95., Nmax)) for _ in range(NPT)] if Nmax > 16 else []) + [R.uniform(.5, 15.) for _ in range(2)]:
                phi = one(o.sr_N2phi(N))
                T = type(o)
                z = attempt(lambda: [one(v) for v in (T.sr_Nstar2ns(N_star=N, **kw), T.sr_Nstar2r(N_star=N, **kw))])
                ns, r = z.value if z.ok else (z.exc, z.exc)
                zb = attempt(lambda: [one(v) for v in (T.sr_ns2Nstar(n_s=ns, **kw), T.sr_r2Nstar(r=r, **kw))])
                b1, b2 = zb.value if zb.ok else (zb.exc, zb.exc)
                # natural inflation near its hilltop: the tilt saturates
                cond = math.exp(min(60., N * (math.pi / kw['phi0'])**2)) if 'phi0' in kw else 1.
                if cond > 1e5:
                    continue
                S = lambda v: v if isinstance(v, str) else fl(v)  # noqa: E731
                out.emit('observables', N=fl(N), phi=fl(phi), ns=S(ns), r=S(r), ns_back=S(b1), r_back=S(b2), cond=fl(cond), **base)

        # amplitude fixed at the very end of inflation: zero e-folds is a number of e-folds like any other
        if rec['feature'] == 'none' and len(rec) and P.cls in EDGE:
            As = 10**R.uniform(-10, -8)
            z = attempt(type(o), A_s=As, N_star=R.choice([0, 0.]), **EDGE[P.cls](o))
            out.emit('edge', As=fl(As), exc=z.exc, Lambda=fl(z.value.Lambda) if z.ok else 'nan', phi=fl(end), **base)

SHAPE = dict(p=2., phi0=15., alpha=1.5, phi_feature=5.2, a_feature=.1, b_feature=.6, mass=6e-6, wobble=1.)
SPEC = dict(MonomialPotential='Monomial', LinearPotential='Monomial', QuadraticPotential='Monomial', CubicPotential='Monomial',
            QuarticPotential='Monomial', NaturalPotential='Natural', DoubleWellPotential='DoubleWell', DoubleWell2Potential='DoubleWell',
            DoubleWell4Potential='DoubleWell', TmodelPotential='Tmodel', RadionGaugePotential='RadionGauge',
            RadionGauge2Potential='RadionGauge')
POWER = dict(LinearPotential=1., QuadraticPotential=2., CubicPotential=3., QuarticPotential=4., DoubleWell2Potential=2.,
             DoubleWell4Potential=4., RadionGauge2Potential=2.)
for c in cases:
    As, N, L = 10**R.uniform(-10, -8), R.uniform(40., 60.), R.uniform(.001, .5)
    cls = getattr(pp, c['cls'])
    kw = {k: SHAPE[k] for k in SHAPE if k in c['given']}
    rec = dict(cls=SPEC.get(c['cls'], 'Starobinsky'), feature='dip' if 'Dip' in c['cls'] else 'step' if 'Step' in c['cls'] else 'none',
               Lambda='1.0')
    rec.update({k: fl(kw.get(k, POWER.get(c['cls'], 1.) if k == 'p' else 1.)) for k in SHAPE if k not in ('mass', 'wobble')})
    if c['cls'] in POWER:
        rec['p'] = fl(POWER[c['cls']])
    phi = None
    if 'A_s' in c['given'] or 'phi_star' in c['given']:
        try:
            need = {k: v for k, v in kw.items() if k not in ('mass', 'wobble')}
            phi = one(cls(**need).sr_N2phi(N))
        except Exception:
            phi = 5.
    for k, v in (('Lambda', L), ('A_s', As), ('N_star', N), ('phi_star', phi)):
        if k in c['given']:
            kw[k] = v
    z = attempt(cls, **kw)
    out.emit('ctor', cls=c['cls'], given=sorted(c['given']), exc=z.exc, mro=z.mro, warns=z.warns, pot=rec, feature=rec['feature'],
             Lambda=fl(z.value.Lambda) if z.ok else 'none', Lambda_in=fl(kw.get('Lambda', 1)), As=fl(As), phi=fl(phi))
out.close()

"""P17/P18: mode equations, vacua and their combination.  args: out which"""
import cmath
import bgs
from bgs import *  # noqa: F401,F403
from primpy.time.perturbations import PerturbationT
from primpy.efolds.perturbations import PerturbationN

out = Recorder(sys.argv[1])
WHICH = sys.argv[2]
R = rng('modes' + WHICH)
PERT = {'T': PerturbationT, 'N': PerturbationN}
VACS = ('k', 'HD', 'RST')


def pair(z):
    z = complex(z)
    return [fl(z.real), fl(z.imag)]


def cover():
    """backgrounds in every geometry and formulation, from the start of inflation and in slow roll"""
    n = 0
    while n < ({'P17': (240, 42), 'P18': (90, 18)}[WHICH][0 if THOROUGH else 1]):
        K, form = [0, 1, -1][n % 3], 'TN'[(n // 3) % 2]
        P = bgs.pot(R, names=('QuadraticPotential', 'StarobinskyPotential', 'LinearPotential', 'QuarticPotential', 'NaturalPotential',
                              'TmodelPotential', 'DoubleWell2Potential', 'StarobinskyTanhStepPotential'))
        ic = 'sr' if n % 4 == 3 and K <= 0 else 'start'
        a = attempt(bgs.background, R, P, K, form, ic=ic, timeout=6, curv=R.choice([10**R.uniform(-2.3, 0.), R.uniform(.5, 4.)]),
                    phi=None if P.cls in bgs.PHI else R.uniform(5.6, 6.4) if 'Step' in P.cls else None)
        n += 1
        if a.ok and a.value.sol.success and a.value.sol._N.size > 30:
            yield a.value


def wavenumbers(B, i):
    """from far outside to far inside the horizon at sample i; small integers in curved universes"""
    aH = math.exp(float(B.sol._logaH[i]))
    ks = [aH * 10**R.uniform(-2, 3), aH * 10**R.uniform(-.5, .5)]
    if B.K:
        ks += [float(R.randint(1, 30)), R.uniform(.1, 6.)]
    return ks


def at(B, i):
    s = B.sol
    return dict(N=fl(s._N[i]), phi=fl(s.phi[i]), dphi=fl(s[bgs.dphi_name(B.form)][i]))


def p17():
    for B in cover():
        s = B.sol
        n = s._N.size
        early = R.randrange(0, n // 2)
        for k in wavenumbers(B, early):
            lo = R.choice([0, R.randrange(0, n // 2)])
            hi = R.choice([n - 1, n - 1, R.randrange(lo + 5, n)])
            kw = {} if (lo == 0 and hi == n - 1 and R.random() < .5) else dict(idx_beg=lo, idx_end=hi)
            o = attempt(PERT[B.form], background=s, k=k, **kw)
            for what in ('scalar', 'tensor'):
                base = dict(form=B.form, K=B.K, pot=B.P.rec, k=fl(k), what=what, want=hi - lo + 1)
                if not o.ok:
                    out.emit('equation', n=0, served=False, pts=[], **base)
                    continue
                m = getattr(o.value, what)
                f, d = np.asarray(m.ms_frequency), np.asarray(m.ms_damping)
                js = sorted({0, 1, f.size - 1} | {R.randrange(f.size) for _ in range(5)} | {int(f.size * R.random()**4) for _ in range(3)})
                pts = []
                for j in js:
                    f2 = complex(f[j])**2
                    p = at(B, min(lo + j, n - 1))
                    p.update(f2re=fl(f2.real), f2im=fl(f2.imag), d=fl(d[j]))
                    pts.append(p)
                out.emit('equation', n=int(f.size) if f.shape == d.shape else -1, served=True, pts=pts, **base)


def fake(y1, d1, y2, d2, e1, e2, ev):
    """what the oscillator would hand back for two solutions"""
    sols = []
    for y, d, e, v in ((y1, d1, e1, ev[0]), (y2, d2, e2, ev[1])):
        mid = [complex(R.gauss(0, 1), R.gauss(0, 1)) for _ in range(4)]
        sol = [y] + mid + [e] * 6
        dsol = [d] + mid + [0j] * 6
        o = dict(types=[0] + [1] * (len(sol) - 1), t=list(range(len(sol))), sol=sol, dsol=dsol)
        if v is not None:
            o.update(x_eval=v, dx_eval=[0j] * len(v))
        sols.append(o)
    return sols


def p18():
    for B in cover():
        s = B.sol
        n = s._N.size
        cal = attempt(lambda: s.calibrate_scale_factor(**(dict(N_star=50.) if B.K == 0 else dict(h=.7, calibration_method='reheating'))))
        for i in {0, R.randrange(n // 2), R.randrange(n // 2)}:
            for k in wavenumbers(B, i):
                neval = R.choice([0, 0, 7])
                if not cal.ok:
                    neval = 0
                vac = R.choice([VACS, VACS, ('RST',), ('HD', 'k'), None])
                kw = dict(idx_beg=i, idx_end=n - 1, num_eval=neval)
                p = PERT[B.form](background=s, k=k, **kw)
                for what, var in (('scalar', 'Rk'), ('tensor', 'hk')):
                    m = getattr(p, what)
                    base = dict(form=B.form, K=B.K, pot=B.P.rec, k=fl(k), what=what, at=at(B, i))
                    for v in VACS:
                        u, du = getattr(m, 'get_vacuum_ic_' + v)()
                        out.emit('vacuum', vac=v, u=pair(u), du=pair(du), **base)
                # one physical pair of solutions in different bases, real and complex
                c = [complex(R.gauss(0, 1), R.choice([0., R.gauss(0, 1)])) for _ in range(16)]
                sc = [10**R.uniform(-3, 3) for _ in range(4)]
                y = [[z * sc[q] for z in c[4 * q:4 * q + 4]] for q in range(4)]
                ev = [[complex(R.gauss(0, 1), R.gauss(0, 1)) for _ in range(neval)] if neval else None for _ in range(4)]
                sols = []
                for q in range(2):
                    a, b = y[2 * q], y[2 * q + 1]
                    sols += fake(a[0], a[1], b[0], b[1], a[2], b[2], (ev[2 * q], ev[2 * q + 1]))
                p.oscode_postprocessing(oscode_sol=sols, vacuum=vac)
                for q, (what, tag) in enumerate((('scalar', 's'), ('tensor', 't'))):
                    m = getattr(p, what)
                    a, b = y[2 * q], y[2 * q + 1]
                    for v in vac or ('RST',):
                        u, du = getattr(m, 'get_vacuum_ic_' + v)()
                        if not np.isfinite(abs(u)):
                            continue
                        Pv = getattr(m, 'P_%s_%s' % (tag, v), None)
                        Pe = getattr(m, 'P_%s_%s_eval' % (tag, v), []) if neval else []
                        out.emit('combine', form=B.form, K=B.K, pot=B.P.rec, k=fl(k), what=what, at=at(B, i), vac=v, P=fl(Pv), y1=pair(a[0]), d1=pair(a[1]),
                                 y2=pair(b[0]), d2=pair(b[1]), e1=pair(a[2]), e2=pair(b[2]), Pev=fls(Pe) if len(Pe) else [],
                                 ev1=[pair(z) for z in ev[2 * q] or []], ev2=[pair(z) for z in ev[2 * q + 1] or []])


p17() if WHICH == 'P17' else p18()
out.close()

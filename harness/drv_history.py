"""P11: histories of calibrations and queries on real solutions.  args: out cases"""
import hashlib
import bgs
from bgs import *  # noqa: F401,F403
from primpy.parameters import K_STAR

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('history')
KS = [1e-3, K_STAR, 1.]
METHODS = {'CGS0': ('CGS', 0), 'CGS1': ('CGS', 1), 'CGS2': ('CGS', 2), 'CGS3': ('CGS', 3), 'STE': ('STE', 3), 'LLMS': ('LLMS', 3),
           'ARBDS1': ('ARBDS', 1), 'ARBDS2': ('ARBDS', 2), 'ARBDS3': ('ARBDS', 3)}


def mo(sel):
    m, o = METHODS[sel]
    return dict(method=m, order=o)


def value(v):
    a = np.asarray(v)
    if a.dtype.kind not in 'fiub' or a.size == 0:
        return None
    a = np.ascontiguousarray(a, dtype=float)
    r = a.ravel()
    return [hashlib.sha1(a.tobytes() + str(a.shape).encode()).hexdigest()[:12], str(a.shape)] + \
        fls(r[[0, r.size // 3, (2 * r.size) // 3, -1]]) + fls([np.sum(r[np.isfinite(r)])])


def observe(s):
    d = {}
    for n in sorted(s):
        v = s[n]
        if callable(v) or n in ('nfev', 'njev', 'nlu', 'status', 'message', 'success', 'sol') or isinstance(v, (str, dict, list)):
            continue
        x = value(v)
        if x:
            d[n] = x
    for n in ('logk2logP_s', 'logk2logP_t'):
        if n in s:
            d[n] = value([float(s[n](math.log(k))) for k in KS])
    return d


def queries(s, sel):
    d = {}
    for n, (m, o) in METHODS.items():
        for k, f in (('s', s.P_s_approx), ('t', s.P_t_approx)):
            r = attempt(lambda: [float(f(x, method=m, order=o)) for x in KS])
            d[n + k] = value(r.value) if r.ok else [r.exc]
    # whatever a query by another name gives, it gives on a fresh solution
    if sel == 'none':       # nothing selected since the calibration was copied
        return d
    for k, f in (('s', s.P_s_approx), ('t', s.P_t_approx), ('s2', s.P_s_approx)):
        r = attempt(lambda: [float(f(x, method='selected')) for x in KS])
        d['selected' + k] = value(r.value) if r.ok else [r.exc]
    return d


class Subject(object):
    """One background; fresh() gives equal solutions that have seen nothing."""

    def __init__(self, K, form):
        while True:
            B = self.B = bgs.background(R, bgs.pot(R, names=('StarobinskyPotential', 'QuadraticPotential', 'LinearPotential')),
                                        K, form, ic='sr' if K == 0 else 'start', curv=R.uniform(.5, 3.))
            s = B.sol
            if s.inflation_mask.any() and 57. < s.N_tot:
                break
        self.K = K
        self.refs = {}
        lo = float(s._N_end)
        at = lambda N: float(np.interp(lo - N, s._N, s._logaH))  # noqa: E731
        from primpy.units import c
        Ok = lambda N: -K * (c / (math.exp(at(N)) / K_STAR * .7e5))**2  # noqa: E731
        if K == 0:
            self.donor = B.make()
            self.donor.calibrate_scale_factor(N_star=44.)
            probe = B.make()
            ns = []
            for N in (25., 50.):
                probe.calibrate_scale_factor(N_star=N)
                ns.append(float(probe.n_s))
            t = ns[0] + .4 * (ns[1] - ns[0])
            tr = dict(N_star_min=25., N_star_max=50.)
            self.do = dict(
                star50=lambda s, **k: s.calibrate_scale_factor(N_star=50., **k),
                star38=lambda s, **k: s.calibrate_scale_factor(N_star=38., **(k or mo('CGS1'))),
                starRho=lambda s, **k: s.calibrate_scale_factor(N_star=51., rho_reh_GeV=1e9, **(k or mo('LLMS'))),
                starDM=lambda s, **k: s.calibrate_scale_factor(calibration_method='reheating', DeltaN_minus1=-1.2, **(k or mo('ARBDS2'))),
                reheat=lambda s, **k: s.calibrate_scale_factor(calibration_method='reheating', w_reh=0., DeltaN_reh=6., **k),
                instant=lambda s, **k: s.calibrate_scale_factor(calibration_method='reheating', **(k or mo('STE'))),
                noStar=lambda s: s.calibrate_scale_factor(),
                farStar=lambda s: s.calibrate_scale_factor(N_star=5e3),
                overdet=lambda s: s.calibrate_scale_factor(N_star=50., w_reh=0., DeltaN_reh=3., rho_reh_GeV=1e9),
                noMethod=lambda s: s.calibrate_scale_factor(calibration_method='magic', N_star=50.),
                copy=lambda s: s.calibrate_scale_factor(N_star=44., background=self.donor),
                miscopy=lambda s: s.calibrate_scale_factor(N_star=45., background=self.donor),
                tilt=lambda s: s.set_ns(t, **tr),
                tiltRho=lambda s: s.set_ns(t + .1 * (ns[1] - ns[0]), rho_reh_GeV=1e10, **tr),
                lowTilt=lambda s: s.set_ns(.5, **tr))
        else:
            self.do = dict(
                curv=lambda s, **k: s.calibrate_scale_factor(Omega_K0=Ok(50.), h=.7, **k),
                curvLess=lambda s, **k: s.calibrate_scale_factor(Omega_K0=Ok(46.), h=.6, **(k or mo('ARBDS3'))),
                curvRho=lambda s, **k: s.calibrate_scale_factor(Omega_K0=Ok(51.), h=.65, rho_reh_GeV=1e9, **(k or mo('CGS2'))),
                instant=lambda s, **k: s.calibrate_scale_factor(calibration_method='reheating', h=.7, **(k or mo('LLMS'))),
                reheat=lambda s, **k: s.calibrate_scale_factor(calibration_method='reheating', h=.7, w_reh=0., DeltaN_reh=6., **k),
                noCurv=lambda s: s.calibrate_scale_factor(h=.7),
                badSign=lambda s: s.calibrate_scale_factor(Omega_K0=-Ok(50.), h=.7),
                farCurv=lambda s: s.calibrate_scale_factor(Omega_K0=Ok(50.) * 1e80, h=.7),
                overdet=lambda s: s.calibrate_scale_factor(Omega_K0=Ok(50.), h=.7, w_reh=0., DeltaN_reh=3.),
                noMethod=lambda s: s.calibrate_scale_factor(calibration_method='magic', h=.7),
                tilt=lambda s: s.set_ns(.96))
        for n in METHODS:
            self.do['pick' + n] = lambda s, n=n: s.derive_approx_power(**mo(n))
            self.do['ask' + n] = lambda s, n=n: [f(np.array(KS), **mo(n)) for f in (s.P_s_approx, s.P_t_approx)]
        self.do['askAll'] = lambda s: [f(np.array(KS), **mo(n)) for n in METHODS for f in (s.P_s_approx, s.P_t_approx)]

    def fresh(self):
        return self.B.make()

    def ref(self, st):
        """A fresh solution on which only the calibration in force was made, its spectrum selected right away."""
        n = st['last'] + '/' + st['sel']
        if n not in self.refs:
            s = self.fresh()
            last, sel = st['last'], st['sel']
            if last != 'none':
                if last in ('tilt', 'tiltRho', 'copy'):
                    self.do[last](s)
                    if sel != 'none' and not (last != 'copy' and sel == 'CGS3'):
                        s.derive_approx_power(**mo(sel))
                else:
                    self.do[last](s, **mo(sel))
            o = observe(s)
            self.refs[n] = (o, queries(s, sel) if last != 'none' else {})
        return n, self.refs[n]


subjects = {0: [Subject(0, 'T'), Subject(0, 'N')], 1: [Subject(-1, 'N'), Subject(1, 'T')]}
if THOROUGH:
    for K in (0, 1):
        subjects[K].append(Subject(K, 'NT'[K]))
long = [c for c in cases if len(c['ops']) > 2]
cases = [c for c in cases if len(c['ops']) <= 2] + R.sample(long, min(len(long), 1500 if THOROUGH else 200))
for i, c in enumerate(cases):
    S = R.choice(subjects[c['K']])
    s = S.fresh()
    exc, obs, refs = [], [], {}
    for op, st in zip(c['ops'], c['states']):
        o = attempt(S.do[op], s)
        exc.append(o.exc)
        obs.append(observe(s))
        n, (d, rq) = S.ref(st)
        refs[n] = d
    q = queries(s, st['sel']) if st['last'] != 'none' else {}
    fin = observe(s)
    out.emit('history', K=S.K, form=S.B.form, ops=c['ops'], exc=exc, obs=obs, refs=refs, q=q or {'-': ['x']},
             refq=rq or {'-': ['x']}, final=fin)
out.close()

"""P15/P16: standard Big Bang.  args: out which [cases]"""
import bgs
from bgs import *  # noqa: F401,F403
import primpy.bigbang as bb
import primpy.units as un
import primpy.parameters as pa
from primpy.events import UntilNEvent

out = Recorder(sys.argv[1])
WHICH = sys.argv[2]
R = rng('bigbang' + WHICH)


def num(f, *a, **k):
    o = attempt(f, *a, **k)
    return (fl(o.value) if o.ok else o.exc), o


def borders(om):
    """Lambda below which a universe of that much matter recollapses, and above which it had no Big Bang"""
    lo = 0. if om <= 1 else 4 * om * math.cos(math.acos((1 - om) / om) / 3 + 4 * math.pi / 3)**3
    hi = 4 * om * (math.cosh(math.acosh((1 - om) / om) / 3) if om < .5 else math.cos(math.acos((1 - om) / om) / 3))**3
    return lo, hi


def universe():
    """(h, Omega_m0, Omega_K0): mostly ordinary, also recollapsing and without Big Bang, and close to either border"""
    if R.random() < .3:
        h = R.uniform(.3, 1.)
        om = R.choice([R.uniform(.02, 1.), R.uniform(1., 6.), 10**R.uniform(0., 2.)])
        lo, hi = borders(om)
        Or = 4.2e-5 / h**2
        ol = R.choice([lo * R.uniform(0., 1.), lo + .003 * R.choice([-1, 1]), lo + R.choice([-1, 1]) * R.uniform(0., .5),
                       hi + R.choice([-1, 1]) * R.uniform(.003, .5), R.uniform(lo, hi)])
        return h, om, 1 - Or - om - ol
    h = R.uniform(.3, 1.) if R.random() < .8 else R.choice([R.uniform(.05, .3), R.uniform(1., 5.)])
    c = R.random()
    ok = 0. if c < .2 else R.choice([-1, 1]) * 10**R.uniform(-4, -.4)
    t = R.random()
    om = R.uniform(.05, .9) if t < .55 else R.uniform(0., .02) if t < .65 else R.uniform(.9, 2.5) if t < .85 else R.uniform(0., 6.)
    if R.random() < .15:
        ok = R.choice([-1, 1]) * R.uniform(.3, 3.)
    if R.random() < .06:
        om = 0.
    if R.random() < .04:
        om = -R.uniform(.01, 1.)
    return h, om, ok


def p15(cases):
    for name in ('mp_kg', 'tp_s', 'lp_m', 'Tp_K', 'mp_GeV', 'tp_iGeV', 'lp_iGeV', 'Mpc_m', 'a_B'):
        out.emit('constant', name=name, v=fl(getattr(un, name)))
    for name in ('K_STAR', 'K_STAR_lp', 'T_CMB_K', 'T_CMB_Tp', 'T_nu_TCMB', 'T_nu_K', 'T_nu_Tp', 'N_eff', 'z_BBN', 'g0',
                 'rho_gamma0_kg_im3', 'rho_nu0_kg_im3', 'rho_r0_kg_im3', 'rho_r0_mp_ilp3'):
        out.emit('constant', name=name, v=fl(getattr(pa, name)))
    fH = {'hubble': bb.Hubble_parameter, 'horizon': bb.comoving_Hubble_horizon}

    def evolve(kind, q, h, om, ok, u, N, asarray):
        x = np.array(N) if asarray else N[0]
        N = N if asarray else N[:1]
        o = attempt(fH[kind], N=x, Omega_m0=om, Omega_K0=ok, h=h, units=u)
        v, shape = [], True
        if o.ok:
            v = fls(o.value)
            shape = np.shape(o.value) == np.shape(x)
            v = v if len(v) == len(N) else ['nan'] * len(N)
        out.emit(kind, q=q, h=fl(h), om=fl(om), ok=fl(ok), units=u, N=fls(N), v=v, shape=bool(shape), exc=o.exc, mro=o.mro, warns=o.warns)

    for c in cases:
        for _ in range(30 if THOROUGH else 4):
            h, ok = R.choice([R.uniform(.3, 1.), R.uniform(.05, .3), R.uniform(1., 5.)]), c['curv'] * 10**R.uniform(-4, .5)
            u = c['units']
            if c['q'] == 'H0':
                v, o = num(bb.get_H0, h=h, units=u)
                out.emit('H0', h=fl(h), units=u, v=v, mro=o.mro)
            elif c['q'] == 'a0':
                v, o = num(bb.get_a0, h=h, Omega_K0=ok, units=u)
                out.emit('a0', h=fl(h), ok=fl(ok), units=u, v=v, mro=o.mro)
            elif c['q'] == 'H' or u != 'H0':   # 'H0' is no documented unit of the horizon
                N0 = math.log(bb.get_a0(h=h, Omega_K0=ok))
                evolve('hubble' if c['q'] == 'H' else 'horizon', c['q'], h, .3, ok, u, [N0 - R.uniform(0, 70) for _ in range(3)], R.random() < .5)
    for _ in range(20000 if THOROUGH else 1000):
        h, om, ok = universe()
        N0 = 0. if ok == 0 else math.log(float(bb.get_a0(h=h, Omega_K0=ok)))
        N = [N0 - R.choice([0., R.uniform(0, 3), R.uniform(0, 20), R.uniform(0, 130), -R.uniform(0, 3)]) for _ in range(4)]
        if R.random() < .1 and om:
            om = 10**R.uniform(-15, -3)
        kind, q, us = R.choice([('hubble', 'H', ['planck', 'H0', 'SI']), ('horizon', 'cHH', ['planck', 'Mpc', 'SI'])])
        for u in us if THOROUGH else [R.choice(us)]:
            evolve(kind, q, h, om, ok, u, N, R.random() < .7)
        if om >= 0:
            o = attempt(lambda: (bb.Hubble_parameter(N0, om, ok, h), bb.comoving_Hubble_horizon(N0, om, ok, h, units='Mpc')))
            if o.ok:
                out.emit('today', h=fl(h), om=fl(om), ok=fl(ok), H=fl(o.value[0]), cHH=fl(o.value[1]), Or=num(bb.get_Omega_r0, h)[0],
                         rho=num(bb.get_rho_crit_kg_im3, h)[0], N_BBN=num(bb.get_N_BBN, h, ok)[0])
    for om in [0., .5, 1., 1e-3, -1e-3, -1., .5 - 1e-9, .5 + 1e-9, 1 - 1e-9, 1 + 1e-9, 2., 10.] + \
            [R.uniform(0., 1.) for _ in range(40)] + [R.uniform(1., 5.) for _ in range(40)] + [10**R.uniform(-6, 2) for _ in range(40)] + \
            [10**R.uniform(-17, -6) for _ in range(40)]:
        for name, f in (('no Big Bang', bb.no_Big_Bang_line), ('recollapse', bb.expand_recollapse_line)):
            v, o = num(f, om)
            out.emit('line', line=name, om=fl(om), v=v if o.ok else 'nan', exc=o.exc, mro=o.mro)
    for _ in range(30):
        N1 = R.uniform(50, 80)
        N2 = N1 + R.choice([R.uniform(.5, 60), R.uniform(.5, 60), 10**R.uniform(-6, 0), -10**R.uniform(-6, 1.5)])
        l1, l2 = R.uniform(-60, 10), R.uniform(-60, 10)
        w, D = bb.get_w_delta_reh(N_end=N1, N_reh=N2, log_cHH_end=l1, log_cHH_reh=l2)
        out.emit('reh', N1=fl(N1), N2=fl(N2), l1=fl(l1), l2=fl(l2), w=fl(w), D=fl(D))


def one(f, *a, **k):
    v = f(*a, **k)
    return fl(np.ravel(v)[0])


def p16():
    T = bb.conformal_time
    for _ in range(1500 if THOROUGH else 50):
        h, om = R.uniform(.4, .9), R.uniform(.05, .6)
        ok = R.choice([0., 1., 1., -1.]) * 10**R.choice([R.uniform(-4, -.9), R.uniform(-20, -4)])
        k = dict(Omega_m0=om, Omega_K0=ok, h=h)
        N0 = 0. if ok == 0 else math.log(float(bb.get_a0(h=h, Omega_K0=ok)))
        a, b, c = [N0 + x for x in sorted([R.uniform(-80, 2), R.uniform(-30, 2), R.choice([0., R.uniform(-8, 3)])])]
        arr = T(N_start=a, N=np.array([b, c]), **k)
        if R.random() < .3:
            a = float(round(a))
        ab, bc, ac = one(T, a, b, **k), one(T, b, c, **k), one(T, a, c, **k)
        arr = T(N_start=a, N=np.array([b, c]), **k)
        mixed = T(N_start=a, N=np.array([c, b, a, c]), **k)
        m = R.uniform(min(a, c), max(a, c))     # times on either side of the start
        around = T(N_start=m, N=np.array([a, m, c, b]), **k)
        lists = []
        for size in (0, 1, R.randint(2, 6)):    # arrays of every length, in any order
            ns = [R.choice([a, b, c, m, R.uniform(min(a, c), max(a, c))]) for _ in range(size)]
            got = T(N_start=m, N=np.array(ns), **k)
            lists.append(dict(shape=list(np.shape(got)), got=fls(np.ravel(got)), want=[one(T, m, q, **k) for q in ns]))
        out.emit('eta', lists=lists, mid=fl(m), around=fls(around), singles=[one(T, m, q, **k) for q in (a, m, c, b)], h=fl(h), om=fl(om), ok=fl(ok), N1=fl(a), N2=fl(c), m=max(3, int(math.ceil(c - a))), v=ac, ab=ab, bc=bc, back=one(T, c, a, **k),
                 arr=fls(arr), mixed=fls(mixed), zero=one(T, a, a, **k))
        o = attempt(T, N_start=a, N=R.choice([[b, c], (b, c), None, 'x']), **k)
        out.emit('eta_type', mro=o.mro)
    for _ in range(20):
        h, om, ok = universe()
        if om < 0:
            continue
        N0 = 0. if ok == 0 else math.log(float(bb.get_a0(h=h, Omega_K0=ok)))
        o = attempt(T, N_start=N0 - 1., N=N0, Omega_m0=om, Omega_K0=ok, h=h)
        out.emit('eta_fate', h=fl(h), om=fl(om), ok=fl(ok), mro=o.mro)

    n = 0
    while n < (240 if THOROUGH else 20):
        K, form = [0, 0, 1, -1][n % 4], 'TN'[(n // 2) % 2]
        P = bgs.pot(R)
        phi = bgs.phi_i(R, P)
        curv = R.uniform(.3, 3.)
        N_i = None

        def make(x_end=None, N_i=None):
            """forward and backward integrations from one state"""
            eq = EQ[form](K=K, potential=P.obj, track_eta=True, **({} if form == 'T' else dict(track_time=False)))
            crit = -.5 * math.log(float(P.obj.V(phi)) / 2)
            N = crit + curv if N_i is None else N_i
            ick = dict(eta_i=0.)
            if form == 'T':
                ick['t_i'] = 1e4
            kw = dict(method='DOP853', rtol=1e-11, atol=1e-18)
            f = solve(ic=InflationStartIC(eq, phi_i=phi, N_i=N, **ick),
                      events=[InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)], **kw)
            b = None
            if form == 'T':
                b = solve(ic=InflationStartIC(eq, phi_i=phi, N_i=N, x_end=1., **ick), events=[UntilNEvent(eq, N - .8)], **kw)
            return f, b

        h, om = R.uniform(.5, .9), R.uniform(.1, .5)
        if K == 0:
            spec = R.choice([dict(N_star=R.uniform(45., 58.)), dict(calibration_method='reheating')])
        else:
            spec = R.choice([dict(calibration_method='reheating', h=h),
                             dict(calibration_method='Omega_K0', Omega_K0=-K * 10**R.uniform(-3, -1.2), h=h)])
        vals = []
        for g in range(2):
            N_i = R.uniform(-20., 40.) if K == 0 else None
            f, b = make(N_i=N_i)
            o = attempt(f.calibrate_scale_factor, **spec)
            if not o.ok:
                break
            ok = 0. if K == 0 else float(f.Omega_K0)
            if not abs(ok) < .3:
                break
            for back in ([None, b] if b is not None else [None]):
                q = attempt(bb.conformal_time_ratio, Omega_m0=om, Omega_K0=ok, h=h, b_forward=f, **({} if back is None else dict(b_backward=back)))
                ne, n0 = float(f.N_end), float(f.N0)
                out.emit('ratio', h=fl(h), om=fl(om), ok=fl(ok), K=K, form=form, eta_beg=fl(f.eta[0] if back is None else back.eta[-1]),
                         eta_end=fl(f.eta[-1]), delta=fl(f.delta_N_calib), N_end=fl(ne), m=int(math.ceil(n0 - ne)), exc=q.exc, v=fl(q.value) if q.ok else q.exc,
                         back=back is not None)
                if back is None:
                    vals.append(q.value if q.ok else float('nan'))
            if K:
                break
        if len(vals) == 2:
            out.emit('gauge', v1=fl(vals[0]), v2=fl(vals[1]))
        n += 1


if WHICH == 'P15':
    p15([json.loads(x) for x in open(sys.argv[3])])
else:
    p16()
out.close()

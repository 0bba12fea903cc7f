"""P23: several objects in one session.  args: out cases.  Every session, and every reference, runs in a process of its own."""
import hashlib
import multiprocessing
import os
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[v] = '1'
import bgs  # noqa: E402
from bgs import *  # noqa: F401,F403,E402
import primpy.potentials as pp  # noqa: E402
import primpy.bigbang as bb  # noqa: E402
from primpy.time.perturbations import PerturbationT  # noqa: E402
from primpy.efolds.perturbations import PerturbationN  # noqa: E402
from primpy.initialconditions import ISIC_Nt, SlowRollIC  # noqa: E402
PERT = {'T': PerturbationT, 'N': PerturbationN}
from primpy.parameters import K_STAR  # noqa: E402
from cobaya_wrapper import powerlaw_pps as law, feature_pps as feature  # noqa: E402
import logging  # noqa: E402
logging.disable(logging.CRITICAL)

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('session')


def value(v):
    a = np.asarray(v)
    if a.dtype.kind not in 'fiub' or a.size == 0:
        return [str(a.dtype), str(a.shape)]
    a = np.ascontiguousarray(a, dtype=float)
    r = a.ravel()
    return [hashlib.sha1(a.tobytes() + str(a.shape).encode()).hexdigest()[:12], str(a.shape)] + fls(r[:12]) + fls(r[-3:])


def put(d, n, f, *a, **k):
    o = attempt(f, *a, timeout=20, **k)
    d[n] = value(o.value) if o.ok else [o.exc]


# -- the recipes: plain data; each makes one object and asks it ------------------
def mk_potential(c):
    return getattr(pp, c['cls'])(**c['kw'])


def ask_potential(o, c):
    d = {}
    x = np.array(c['x'])
    for n in ('V', 'dV', 'd2V', 'd3V', 'd4V', 'get_epsilon_1V', 'get_epsilon_2V', 'sr_phi2N'):
        put(d, n, getattr(o, n), x)
    for n in ('phi_end', 'Lambda'):
        put(d, n, getattr, o, n)
    put(d, 'inv', lambda: o.inv_V(o.V(x[:1])))
    for N in (20., 50.):
        put(d, 'N2phi%g' % N, o.sr_N2phi, N)
    put(d, 'As2Lambda', o.sr_As2Lambda, A_s=2e-9, N_star=50., phi_star=None)
    kw = {k: c['kw'][k] for k in ('p', 'phi0') if k in c['kw']}
    for n, a in (('sr_Nstar2ns', dict(N_star=50.)), ('sr_Nstar2r', dict(N_star=50.)), ('sr_ns2Nstar', dict(n_s=.96))):
        if hasattr(o, n):
            put(d, n, getattr(o, n), **a, **kw)
    return d


def mk_background(c):
    P = pp.__dict__[c['cls']](Lambda=c['Lambda'])
    kw = dict(track_eta=False)
    if c['form'] == 'N':
        kw['track_time'] = False
    eq = EQ[c['form']](K=c['K'], potential=P, **kw)
    k = {} if c['form'] == 'N' else dict(t_i=1e4)
    ic = InflationStartIC(eq, phi_i=c['phi'], N_i=c['N_i'], **k)
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    b = solve(ic=ic, events=ev, method='DOP853', rtol=1e-9, atol=1e-18)
    if c['K'] == 0:
        b.calibrate_scale_factor(N_star=c['N_star'])
    else:
        b.calibrate_scale_factor(Omega_K0=-c['K'] * c['ok'], h=c['h'])
    return b


def ask_background(b, c):
    d = {}
    for n in ('_N', 'phi', '_logaH', 'N_tot', 'V_end', 'N_star', 'N0', 'A_s', 'n_s', 'n_run', 'r', 'cHH_end_Mpc', 'k_iMpc', 'logk'):
        put(d, n, getattr, b, n)
    ks = np.array([1e-3, K_STAR, .6])
    for m, o in (('CGS', 3), ('STE', 3), ('LLMS', 3), ('ARBDS', 2)):
        put(d, m + str(o), b.P_s_approx, ks, method=m, order=o)
    k = math.exp(float(b._logaH[b._logaH.size // 3]))
    for f in (k, 30 * k):
        o = attempt(PERT[c['form']], background=b, k=f)
        for what in ('scalar', 'tensor'):
            m = getattr(o.value, what, None)
            for n in ('ms_frequency', 'ms_damping'):
                put(d, '%s%s%g' % (what, n, f / k), lambda: np.stack([np.real(getattr(m, n)), np.imag(getattr(m, n))]))
            for n in ('get_vacuum_ic_RST', 'get_vacuum_ic_k', 'get_vacuum_ic_HD'):
                put(d, '%s%s%g' % (what, n, f / k), lambda: np.array([[complex(z).real, complex(z).imag] for z in getattr(m, n)()]))
    return d


SHARED = {}     # objects of one recipe, or of nearly the same one, share their equations and event trackers within a session


def mk_setup(c):
    k = (c['cls'], c['Lambda'], c['K'], c['form'])
    if k not in SHARED:
        eq = EQ[c['form']](K=c['K'], potential=pp.__dict__[c['cls']](Lambda=c['Lambda']), track_eta=False, **({} if c['form'] == 'T' else dict(track_time=False)))
        SHARED[k] = eq, [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    eq, ev = SHARED[k]
    t = {} if c['form'] == 'N' else dict(t_i=1e4)
    if c['ic'] == 'search':
        ic = ISIC_Nt(eq, N_tot=c['N_tot'], phi_i_bracket=[c['phi'] * .8, c['phi'] * 1.25], N_i=c['N_i'], **t)
    else:
        ic = dict(start=InflationStartIC, slow=SlowRollIC)[c['ic']](eq, phi_i=c['phi'], N_i=c['N_i'], **t)
    return eq, ic, ev


def ask_setup(o, c):
    d = {}
    eq, ic, ev = o
    r = attempt(solve, ic, events=ev, method='DOP853', rtol=1e-9, atol=1e-18, timeout=30)
    if not r.ok:
        return {'-': [r.exc]}
    b = r.value
    for n in ('x', 'phi', '_N', 'H', 'w', 'N_tot', '_N_beg', '_N_end', 'phi_end', 'V_end', '_logaH', 'Omega_K', 'x_ini'):
        put(d, n, getattr, b, n)
    for e in b.x_events:
        put(d, e, lambda: b.x_events[e])
    for n in ('phi_i', 'N_i', 'Omega_Ki', 'aH_i', 'H_i'):
        put(d, 'ic_' + n, getattr, ic, n)
    put(d, 'rhs', eq, b.x[3], b.y[:, 3])
    for i, e in enumerate(ev):
        put(d, 'ev%d' % i, e, b.x[5], b.y[:, 5])
    return d


def mk_universe(c):
    return c


def ask_universe(c, _):
    d = {}
    k = dict(Omega_m0=c['om'], Omega_K0=c['ok'], h=c['h'])
    put(d, 'H0', bb.get_H0, c['h'], units=c['units'])
    put(d, 'a0', bb.get_a0, c['h'], c['ok'], units='Mpc')
    put(d, 'BBN', bb.get_N_BBN, c['h'], c['ok'])
    put(d, 'Or', bb.get_Omega_r0, c['h'])
    N0 = 0. if c['ok'] == 0 else math.log(float(bb.get_a0(h=c['h'], Omega_K0=c['ok'])))
    N = N0 - np.array([0., 1., 7.])
    put(d, 'H', bb.Hubble_parameter, N, units=c['units'], **k)
    put(d, 'cHH', bb.comoving_Hubble_horizon, N, **k)
    put(d, 'line', bb.no_Big_Bang_line, c['om'])
    put(d, 'recollapse', bb.expand_recollapse_line, c['om'])
    put(d, 'eta', bb.conformal_time, N0 - 5., float(N0), **k)
    put(d, 'etas', bb.conformal_time, N0 - 5., N, **k)
    return d


def mk_law(c):
    t = getattr(feature if 'Osc' in c['cls'] or 'Cut' in c['cls'] else law, c['cls'])(standalone=True)
    return t


def ask_law(t, c):
    d = {}
    o = attempt(t.check_cache_and_compute, dict(c['par']), want_derived=True)
    if not (o.ok and o.value):
        return {'-': [o.exc]}
    for n, f in (('s', t.get_primordial_scalar_pk), ('t', t.get_primordial_tensor_pk)):
        p = attempt(f)
        if p.ok and p.value:
            for q in ('kmin', 'kmax', 'Pk'):
                put(d, n + q, p.value.get, q)
    return d


MK = dict(setup=mk_setup, potential=mk_potential, background=mk_background, universe=mk_universe, law=mk_law)
ASK = dict(setup=ask_setup, potential=ask_potential, background=ask_background, universe=ask_universe, law=ask_law)


def near(x):
    return x * (1 + R.choice([-1, 1]) * 10**R.uniform(-6, -1.7))


def recipes(fam):
    u = R.uniform
    if fam == 'potential':
        cls, kw = R.choice([('DoubleWellPotential', dict(phi0=u(12, 30), p=R.choice([2, 2.5, 3, 4]))), ('DoubleWell2Potential', dict(phi0=u(12, 30))),
                            ('DoubleWell4Potential', dict(phi0=u(15, 30))), ('NaturalPotential', dict(phi0=u(15, 60))),
                            ('MonomialPotential', dict(p=u(.5, 4))), ('TmodelPotential', dict(p=u(.6, 3), alpha=u(.3, 10))),
                            ('RadionGaugePotential', dict(p=u(1.5, 4), alpha=u(.3, 10))), ('RadionGauge2Potential', dict(alpha=u(.3, 10))),
                            ('StarobinskyPotential', {}),
                            ('StarobinskyGaussianDipPotential', dict(phi_feature=u(4, 6), a_feature=u(.02, .3), b_feature=u(.2, .8))),
                            ('StarobinskyTanhStepPotential', dict(phi_feature=u(4, 6), a_feature=u(.02, .3), b_feature=u(.2, .8)))])
        kw['Lambda'] = 10**u(-3, -1)
        x = [u(3., 9.) for _ in range(3)]
        b, c = dict(kw), dict(kw)
        n = R.choice([q for q in kw if q != 'Lambda' or len(kw) == 1])
        b[n] = near(kw[n])
        c['Lambda'] *= 1.7
        if 'phi0' in c and R.random() < .5:
            c['phi0'] *= 1.3
        other = dict(DoubleWell2Potential='NaturalPotential', NaturalPotential='DoubleWell2Potential', DoubleWell4Potential='DoubleWell2Potential',
                     MonomialPotential='MonomialPotential').get(cls, cls)
        if R.random() < .5:
            b, c = c, b
        return [dict(cls=cls, kw=kw, x=x), dict(cls=cls, kw=b, x=x), dict(cls=other, kw=c, x=x)]
    if fam == 'background':
        K = R.choice([0, 0, 1, -1])
        cls = R.choice(['QuadraticPotential', 'StarobinskyPotential', 'LinearPotential'])
        L = 10**u(-3.2, -2.2)
        phi = u(*bgs.PHI[cls])
        V = float(pp.__dict__[cls](Lambda=L).V(phi))
        a = dict(cls=cls, Lambda=L, phi=phi, K=K, form=R.choice('TN'), N_i=-.5 * math.log(V / 2) + u(.8, 3.), N_star=u(30., 40.), ok=10**u(-3, -1.5), h=u(.6, .8))
        b, c = dict(a), dict(a)
        n = R.choice(['phi', 'Lambda', 'N_i', 'N_star' if K == 0 else 'ok'])
        b[n] = near(a[n])
        c['K'] = R.choice([k for k in (-1, 0, 1) if k != K])
        return [a, b, c]
    if fam == 'setup':
        cls = R.choice(['QuadraticPotential', 'StarobinskyPotential', 'LinearPotential'])
        L = 10**u(-3.2, -2.2)
        phi = u(*bgs.PHI[cls])
        V = float(pp.__dict__[cls](Lambda=L).V(phi))
        form = R.choice('TNN')
        a = dict(cls=cls, Lambda=L, phi=phi, K=R.choice([0, 1, -1]), form=form, N_i=-.5 * math.log(V / 2) + u(.8, 3.), ic=R.choice(['start', 'slow'] + ['search'] * (form == 'N')), N_tot=u(35., 60.))
        b, c = dict(a), dict(a)
        n = R.choice(['phi', 'N_i', 'N_tot'])
        b[n] = near(a[n])
        c['ic'] = R.choice(['start', 'slow'])
        c['phi'] *= 1.1
        if R.random() < .3:
            c['K'] = R.choice([-1, 0, 1])
        return [a, b, c]
    if fam == 'universe':
        a = dict(h=u(.5, .9), om=u(.1, .5), ok=R.choice([0., u(-.1, .1), 10**u(-4, -2)]), units=R.choice(['planck', 'SI', 'H0']))
        b, c = dict(a), dict(a)
        n = R.choice(['h', 'om'] + (['ok'] if a['ok'] else []))
        b[n] = near(a[n])
        c['units'] = R.choice([q for q in ('planck', 'SI', 'H0') if q != a['units']])
        c['ok'] = -a['ok'] if R.random() < .5 else 0.
        return [a, b, c]
    cls = R.choice(['PowerLawPPS', 'LogOscillationPPS', 'LinOscillationPPS', 'CutoffPPS'])
    par = dict(A_s=10**u(-9, -8), n_s=u(.94, .99), r=10**u(-3, -1), n_run=u(-.01, .01))
    par.update({'Log': dict(A_log=u(.1, .5), w_log=u(1., 9.), p_log=u(0, 1)), 'Lin': dict(A_lin=u(.1, .5), w_lin=u(.1, 9.), p_lin=u(0, 1)),
                'Cut': dict(k_cut=10**u(-4, -2), s_cut=u(1, 6)), 'Pow': {}}[cls[:3]])
    a = dict(cls=cls, par=par)
    b, c = dict(cls=cls, par=dict(par)), dict(cls=cls, par=dict(par))
    n = R.choice(list(par))
    b['par'][n] = near(par[n])
    c['par'].update(n_s=1.1)
    del c['par']['n_run']
    return [a, b, c]


def run(job):
    """one session in this process: [(op, fam, recipe, obj)] -> answers"""
    objs, ans = {}, []
    for op, fam, c, i in job:
        if op == 'make':
            objs[i] = attempt(MK[fam], c)
        else:
            o = objs[i]
            ans.append(ASK[fam](o.value, c) if o.ok else {'-': [o.exc]})
    return ans


R.shuffle(cases)
want = 1800 if THOROUGH else 260
sessions, todo = [], []
for c in cases:
    fams = {o['fam'] for o in c['ops']}
    if 'background' in fams and sum('background' in s[0] for s in sessions) >= want // 6:
        continue
    if 'setup' in fams and sum('setup' in s[0] for s in sessions) >= want // 5:
        continue
    if len(fams) > 1 and R.random() < .8:
        continue        # mostly objects of one kind
    rec = {f: recipes(f) for f in fams}
    job = [(o['op'], o['fam'], rec[o['fam']][o['var'] - 1], o['obj']) for o in c['ops']]
    sessions.append((fams, job, c['ops']))
    if len(sessions) == want:
        break
refs, keys = {}, []
for _, job, _ in sessions:
    for op, fam, c, i in job:
        k = json.dumps([fam, c], sort_keys=True)
        if k not in refs:
            refs[k] = len(keys)
            keys.append([('make', fam, c, 1), ('ask', fam, c, 1)])
with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
    res = pool.map(run, keys + [s[1] for s in sessions], chunksize=1)
alone, together = res[:len(keys)], res[len(keys):]
for (fams, job, ops), ans in zip(sessions, together):
    q = [dict(fam=f, var=o['var'], ref=alone[refs[json.dumps([f, c], sort_keys=True)]][0], obs=a)
         for (op, f, c, i), o, a in zip([j for j in job if j[0] == 'ask'], [o for o in ops if o['op'] == 'ask'], ans)]
    out.emit('session', ops=ops, recipes=[[f, c] for _, f, c, _ in job], q=q)
out.close()

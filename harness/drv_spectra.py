"""P12: approximate spectra of finely sampled real backgrounds.  args: out"""
import bgs
from bgs import *  # noqa: F401,F403
from primpy.parameters import K_STAR

out = Recorder(sys.argv[1])
R = rng('spectra')
LK = math.log(K_STAR)
METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('STE', 3), ('LLMS', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]
REP = ['A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r']


def fine(K, form, P=None, h=None):
    """A background sampled every h e-folds or so."""
    while True:
        B = bgs.background(R, P or bgs.pot(R), K, form, ic='sr' if K == 0 and R.random() < .5 else 'start', dense_output=True)
        s = B.sol
        if s.inflation_mask.any() and s.N_tot > 30.:
            break
    h = h or R.uniform(.008, .02)
    Ns = np.arange(s._N[0], s._N[-1], h)
    if form == 'N':
        x = Ns
    else:
        # times belonging to those e-folds
        tt = s.t
        xs = np.concatenate([np.linspace(a, b, 12, endpoint=False) for a, b in zip(tt[:-1], tt[1:])] + [tt[-1:]])
        NN = B.sol.sol(xs)[B.eq.idx['_N']]
        x = np.interp(Ns, NN, xs)
        x[0] = tt[0]
    x = np.unique(np.clip(x, s.x[0], s.x[-1]))
    B.kw['dense_output'] = False
    B.make = lambda: solve(ic=B.ic, events=B.ev, t_eval=x, **B.kw)
    B.sol = B.make()
    return B


def node(B, i):
    s = B.sol
    return dict(N=fl(s._N[i]), phi=fl(s.phi[i]), dphi=fl(getattr(s, dphi_name(B.form))[i]), l=fl(s._logaH[i]))


def query(s, m, o, k):
    kw = dict(method=m, order=o)
    # what is left out is the default
    if m == 'CGS' and R.random() < .5:
        del kw['method']
    if o == 3 and R.random() < .5:
        del kw['order']
    f, g = attempt(s.P_s_approx, k, **kw), attempt(s.P_t_approx, k, **kw)
    return dict(m=m, o=o, s=fl(f.value) if f.ok else f.exc, t=fl(g.value) if g.ok else g.exc)


def calibrate(B, N_star, **kw):
    s = B.sol
    if B.K == 0:
        return attempt(s.calibrate_scale_factor, N_star=N_star, **kw)
    # the curvature today that puts the pivot there
    lH = np.interp(s._N_end - N_star, s._N, s._logaH)
    h = .7
    a0_Mpc = math.exp(lH) / K_STAR
    from primpy.units import c
    return attempt(s.calibrate_scale_factor, Omega_K0=-B.K * (c / (a0_Mpc * h * 1e5))**2, h=h, **kw)


def one(B):
    s = B.sol
    N_star = R.choice([R.uniform(4., 9.), R.uniform(9., 25.), R.uniform(25., min(60., s.N_tot - 3.))])
    m, o = R.choice(METHODS)
    kw = {} if m == 'CGS' and o == 3 and R.random() < .5 else dict(method=m, order=o)
    if R.random() < .3:
        kw.update(method=m, order=o)
    c = calibrate(B, N_star, **kw)
    base = dict(K=B.K, form=B.form, pot=B.P.rec, exc=c.exc, N_star=fl(N_star))
    if not c.ok:
        out.emit('refused', **base)
        return
    if not kw:
        m, o = 'CGS', 3
    elif c.ok and R.random() < .3:
        # anew, the options in either order, defaults left out
        kw = {n: v for n, v in kw.items() if v not in ('CGS', 3)}
        c = attempt(s.derive_approx_power, **kw)
        if not c.ok:
            out.emit('refused', **dict(base, exc=c.exc))
            return
    js = np.flatnonzero(s.inflation_mask)
    lk = np.array(s.logk)
    # local series at nodes: anywhere, but mostly where they mean something
    pick = sorted(set(R.sample(range(js.size), 3) + R.sample(range(int(.6 * js.size), js.size), 3)))
    for j in pick:
        k = s.k_iMpc[j]
        out.emit('local', n=node(B, int(js[j])), q=[query(s, a, b, k) for a, b in METHODS if a in ('CGS', 'STE')],
                 sel=dict(m=m, o=o, s=fl(s.P_scalar_approx[j]), t=fl(s.P_tensor_approx[j])), **base)
    # expansions about the pivot
    for Nq in (float(s._N_cross),):
        i = int(np.searchsorted(s._N[js], Nq)) - 1
        near = [j for j in range(js.size) if abs(lk[j] - LK) < 3.]
        for j in [i] + R.sample(near, min(3, len(near))):
            k = s.k_iMpc[j]
            out.emit('pivot', n=node(B, int(js[i])), Nc=fl(Nq), lk=fl(lk[j]), h=fl(s._N[js[i + 1]] - s._N[js[i]]),
                     q=[query(s, a, b, k) for a, b in METHODS if a in ('LLMS', 'ARBDS')],
                     sel=dict(m=m, o=o, s=fl(s.P_scalar_approx[j]), t=fl(s.P_tensor_approx[j])), **base)
    # what is reported: value and derivatives at the pivot of the selected spectrum.  The spline is one
    # cubic between two neighbouring nodes.
    i = int(np.searchsorted(lk, LK)) - 1
    if 3 < i < lk.size - 4:
        a, b = lk[i], lk[i + 1]
        x = a + (b - a) * np.array([.02, .35, .65, .98])
        ps = [(attempt(s.P_s_approx, math.exp(u), method=m, order=o), attempt(s.P_t_approx, math.exp(u), method=m, order=o)) for u in x]
        e = query(s, m, o, K_STAR)
        out.emit('reported', m=m, o=o, x=fls(x), ps=[fl(p[0].value) if p[0].ok else p[0].exc for p in ps],
                 pt=[fl(p[1].value) if p[1].ok else p[1].exc for p in ps], at=e,
                 ls=fls([s.logk2logP_s(u) for u in x]), lt=fls([s.logk2logP_t(u) for u in x]),
                 rep={n: fl(getattr(s, n)) for n in REP}, **base)


def beyond(B):
    """What lies outside the range of scales, by the interpolation options of the last calibration."""
    s = B.sol
    N_star = R.uniform(10., min(45., s.N_tot - 5.))
    for ext in R.sample(['zeros', 'raise', 'extrapolate', 'const'], 4 if THOROUGH else 3) + [None]:
        order = R.choice([None, 3, 4, 5])
        kw = {} if ext is None else dict(ext=ext)
        if order:
            kw['k'] = order
        # the options belong to the family of approximations selected
        sm, so = R.choice(METHODS)
        kw.update(method=sm, order=so)
        via = R.random() < .5
        if not calibrate(B, N_star, **({} if via else kw)).ok:
            return
        if via:
            attempt(s.derive_approx_power, **kw)
        lk = np.array(s.logk)
        q = []
        for side, e in ((-1, lk[0]), (1, lk[-1])):
            for m, o in METHODS:
                if m != sm:
                    continue
                for f in (s.P_s_approx, s.P_t_approx):
                    at = attempt(f, math.exp(e), method=m, order=o)
                    far = [attempt(f, math.exp(e + side * d), method=m, order=o) for d in (1e-3 * np.arange(1, 9)).tolist() + [.5, 6.]]
                    q.append(dict(m=m, o=o, side=side, at=fl(at.value) if at.ok else at.exc, far=[fl(z.value) if z.ok else z.exc for z in far],
                                  mro=[z.mro for z in far]))
        out.emit('beyond', ext=ext or 'const', order=order or 3, q=q)


def tilt(B):
    s = B.sol
    lo, hi = R.uniform(5., 20.), R.uniform(45., min(70., s.N_tot - 2.))
    if B.K != 0:
        o = attempt(s.set_ns, R.uniform(.9, .97))
        out.emit('tilt', K=B.K, exc=o.exc, mro=o.mro, lo='none', hi='none', target='none', inside=False)
        return
    ends = []
    for N in (lo, hi):
        if not attempt(s.calibrate_scale_factor, N_star=N).ok:
            return
        ends.append(float(s.n_s))
    for target in (R.uniform(min(ends), max(ends)), min(ends) - R.uniform(.001, .1), max(ends) + R.uniform(.001, .1), ends[0], ends[1]):
        rho = R.choice([None, None, 1e9])
        o = attempt(s.set_ns, target, N_star_min=lo, N_star_max=hi, rho_reh_GeV=rho)
        out.emit('tilt', K=B.K, exc=o.exc, mro=o.mro, lo=fl(ends[0]), hi=fl(ends[1]), target=fl(target),
                 inside=bool(min(ends) <= target <= max(ends)), n_s=fl(s.n_s), N_star=fl(s.N_star), N_lo=fl(lo), N_hi=fl(hi),
                 rho=fl(rho), rho_reh=fl(s.rho_reh_GeV))


for i in range(36 if THOROUGH else 9):
    K = (0, -1, 1)[i % 3]
    B = fine(K, 'TN'[(i // 3) % 2])
    for _ in range(9 if THOROUGH else 5):
        one(B)
    beyond(B)
    tilt(B)
out.close()

"""P19: spectrum requests.  args: out stub cases | out real"""
import hashlib
import pickle
import sys
import types
REAL = sys.argv[2] == 'real'
CALLS = []
if not REAL:
    # a stand-in for the oscillator: its answer is a function of everything handed to it
    def fake_solve(ts, ws, gs, ti, tf, x0, dx0, t_eval=[], logw=False, logg=False, order=3, rtol=1e-4, atol=0., h=1., full_output='',
                   even_grid=False, check_grid=False):
        import numpy as np
        import random
        w = np.exp(np.asarray(ws)) if logw else np.asarray(ws)
        g = np.exp(np.asarray(gs)) if logg else np.asarray(gs)
        CALLS.append(dict(ts=np.array(ts), w=np.array(w), g=np.array(g), ti=float(ti), tf=float(tf), x0=x0, dx0=dx0, rtol=rtol, even=even_grid))
        key = hashlib.sha256(b'|'.join([np.asarray(ts, dtype=float).tobytes(), np.asarray(w, dtype=complex).tobytes(),
                                        np.asarray(g, dtype=complex).tobytes(), repr((complex(x0), complex(dx0))).encode()])).hexdigest()
        r = random.Random(key)
        e = complex(r.gauss(0, 1), r.gauss(0, 1))
        o = dict(t=[ti, tf] + [tf] * 5, types=[0] * 7, sol=[complex(x0), complex(r.gauss(0, 1))] + [e] * 5, dsol=[complex(dx0)] + [0j] * 6)
        if t_eval is not None and len(t_eval):
            o['x_eval'] = [complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in t_eval]
            o['dx_eval'] = [0j] * len(t_eval)
        return o
    m = types.ModuleType('pyoscode')
    m.solve = fake_solve
    sys.modules['pyoscode'] = m
import os  # noqa: E402
import signal  # noqa: E402
import bgs  # noqa: E402
from bgs import *  # noqa: F401,F403,E402
from primpy.oscode_solver import solve_oscode  # noqa: E402

out = Recorder(sys.argv[1])
R = rng('pipeline' + sys.argv[2])
TAGS = {'none': None}


def vac_of(name):
    return None if name == 'none' else tuple(name.split())


def calibrated(K, form, ic='start', fine=False, **kw):
    while True:
        P = bgs.pot(R, names=('QuadraticPotential', 'StarobinskyPotential', 'LinearPotential'))
        k = {}
        if fine:
            k['fine'] = 4000
        a = attempt(make, P, K, form, ic, timeout=20, **k, **kw)
        if a.ok and a.value is not None:
            return a.value


def make(P, K, form, ic, fine=None, curv=None):
    B = bgs.background(R, P, K, form, ic=ic, curv=R.uniform(.2, 2.) if curv is None else curv)
    if not B.sol.success:
        return None
    if fine:
        # a finely sampled copy of the same run, as the oscillator interpolates linearly
        x = B.sol.x
        t = np.linspace(x[0], x[-1], fine) if form == 'N' else np.logspace(np.log10(x[0]), np.log10(x[-1]), fine)
        t[0], t[-1] = x[0], x[-1]
        kw = dict(B.kw, rtol=1e-10, atol=1e-14)
        B.sol = solve(ic=B.ic, events=B.ev, t_eval=t, **kw)
    c = dict(N_star=50.) if K == 0 else dict(h=.7, Omega_K0=-K * 10**R.uniform(-3, -1.2))
    B.sol.calibrate_scale_factor(**c)
    return B


def power(o, vacs, i=None):
    """{vacuum: scalar and tensor power} at position i of a spectrum, or of a single mode"""
    r = {}
    for v in vacs:
        s, t = ('P_s_' + v, 'P_t_' + v)
        if i is None:
            r[v] = dict(s=fl(getattr(o.scalar, s)), t=fl(getattr(o.tensor, t)))
        else:
            r[v] = dict(s=fl(getattr(o, s)[i]), t=fl(getattr(o, t)[i]))
    return r


def request(B, ks, vac, drop, tol, dtype=float, solver=solve_oscode, **kw):
    vacs = vac or ('RST',)
    base = dict(K=B.K, form=B.form, vacs=list(vacs), drop=drop, ks=fls(ks), tol=tol, lstar=fl(B.sol._logaH_star))
    k = dict(kw, vacuum=vac)
    if not drop or R.random() < .5:
        k['drop_closed_large_scales'] = drop
    alone = []
    for x in ks:
        a = attempt(solver, B.sol, np.array([x], dtype=float), **k)
        alone.append(power(a.value, vacs, 0) if a.ok else {v: dict(s=a.exc, t=a.exc) for v in vacs})
    o = attempt(solver, B.sol, np.array(ks, dtype=dtype), **k)
    rec = dict(base, exc=o.exc, alone=alone, res=[], k_iMpc=[])
    if o.ok:
        rec.update(res=[power(o.value, vacs, i) for i in range(len(ks))], k_iMpc=fls(o.value.k_iMpc))
    out.emit('request', **rec)
    o = attempt(solver, B.sol, dtype(ks[0]), **k)
    out.emit('single', exc=o.exc, alone=alone[:1], res=[power(o.value, vacs)] if o.ok else [], **{a: base[a] for a in ('K', 'form', 'vacs', 'drop', 'ks', 'tol')})


def stub():
    cases = [json.loads(x) for x in open(sys.argv[3])]
    R.shuffle(cases)
    if not THOROUGH:
        cases = cases[:500]
    pool = {}
    for K in (0, 1, -1):
        for form in 'TN':
            pool[K, form] = [calibrated(K, form, ic=('start', 'fast')[n % 2]) for n in range(4 if THOROUGH else 2)]
    for c in cases:
        B = R.choice(pool[c['K'], c['form']])
        s = B.sol
        aH = math.exp(float(s._logaH_beg) if np.isfinite(s._logaH_beg) else float(s._logaH.min()))
        wave = dict(long=R.uniform(.05, .95) * (1 if c['K'] else aH), edge=1. * (1 if c['K'] else aH), mid=aH * R.uniform(1., 60.), short=aH * 10**R.uniform(2, 5))
        if c['K']:
            wave['mid'] = float(R.randint(2, 40))
        request(B, [wave[x] for x in c['req']], vac_of(c['vac']), c['drop'], '1e-10', fac_beg=R.choice([0, 0, 20.]))
    for B in sum(pool.values(), []):
        if B.K:
            big = [R.randint(2097152, 30000000) for _ in range(2)] + [R.randint(1, 50)]
            R.shuffle(big)
            request(B, big, None, True, '1e-10', dtype=int)
    # epochs
    for n in range(200 if THOROUGH else 50):
        B = R.choice(pool[[0, 1, -1][n % 3], 'TN'[n // 3 % 2]])
        s = B.sol
        lk = R.uniform(float(s._logaH.min()) - 3, float(s._logaH.max()) - (R.uniform(0, 9) if n % 5 else 0))
        if n % 7 == 6:
            lk = float(s._logaH.max()) - R.uniform(-2., 5.)
        fb, fe = R.choice([0, 0, 1., 10., 100., 3.7]), R.choice([100, 100, 5., 30., 1000.])
        if n % 4 == 0:
            # not yet far enough inside the horizon at the start, where inflation has not begun
            B = R.choice([b for b in sum(pool.values(), []) if b.sol._logaH[0] > b.sol._logaH.min() + .05])
            s = B.sol
            fb = R.choice([1., 10., .2])
            lk = math.log(fb) + R.uniform(float(s._logaH.min()), float(s._logaH[0]))
        k = math.exp(lk)
        kw = {}
        if fb or R.random() < .5:
            kw['fac_beg'] = fb
        if fe != 100 or R.random() < .5:
            kw['fac_end'] = fe
        if R.random() < .3:
            kw['num_eval'] = 5
        rtol = R.choice([None, 1e-6, 3e-4])
        if rtol:
            kw['rtol'] = rtol
        y0 = None
        if R.random() < .3:
            y0 = (R.uniform(.5, 2.), R.uniform(-1., 1.), R.uniform(-.3, .3), R.uniform(.5, 2.))
            kw['y0'] = y0
        del CALLS[:]
        o = attempt(solve_oscode, s, np.array([k]), **kw)
        calls = []
        x = np.asarray(s.x)

        def idx(v):
            j = np.flatnonzero(x == v)
            return int(j[0]) + 1 if j.size else -1
        for c in CALLS:
            ts = c['ts']
            b, e = idx(ts[0]), idx(ts[-1])
            grid = b > 0 and e > 0 and ts.size == c['w'].size == c['g'].size == e - b + 1 and bool(np.array_equal(ts, x[b - 1:e]))
            calls.append(dict(beg=b, end=e, ti=idx(c['ti']), tf=idx(c['tf']), grid=grid))
        out.emit('epochs', exc=o.exc, Ns=fls(s._N), ls=fls(s._logaH), lk=fl(lk), fb=fl(fb), fe=fl(fe), calls=calls)
        hs = []
        for c in CALLS:
            j = idx(c['ts'][0]) - 1
            pts = []
            for q in sorted({0, c['w'].size // 3, c['w'].size - 1}):
                f2 = complex(c['w'][q])**2
                pts.append(dict(N=fl(s._N[j + q]), phi=fl(s.phi[j + q]), dphi=fl(s[bgs.dphi_name(B.form)][j + q]), f2re=fl(f2.real), f2im=fl(f2.imag),
                                d=fl(complex(c['g'][q]).real)))
            hs.append(dict(pts=pts, x0=fl(c['x0']), d0=fl(c['dx0']), rtol=fl(c['rtol'])))
        if o.ok:
            out.emit('handed', K=B.K, form=B.form, pot=B.P.rec, k=fl(k), calls=hs, rtol=fl(rtol or 5e-5), y0=fls(y0) if y0 else [])


def forked(seconds):
    """solve_oscode in a child that is given up on after a while; a run that never returns is the library's, not judged"""
    def run(*a, **k):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                o = attempt(solve_oscode, *a, timeout=0, **k)
                if o.ok:
                    v = o.value
                    keep = dict(vars(v)) if hasattr(v, 'k_iMpc') else {m: {q: z for q, z in vars(getattr(v, m)).items() if q.startswith('P_')} for m in ('scalar', 'tensor')}
                    keep.pop('background', None)
                    b = pickle.dumps((True, keep))
                else:
                    b = pickle.dumps((False, (o.exc, o.msg)))
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
            finally:
                os._exit(0)
        os.close(w)
        import select
        buf = b''
        ok = True
        while True:
            if not select.select([r], [], [], seconds)[0]:
                ok = False
                break
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
        os.close(r)
        if not ok:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        if not ok or not buf:
            raise GaveUp()
        good, v = pickle.loads(buf)
        if not good:
            raise RuntimeError('%s %s' % v)
        if 'scalar' in v:
            return types.SimpleNamespace(scalar=types.SimpleNamespace(**v['scalar']), tensor=types.SimpleNamespace(**v['tensor']))
        return types.SimpleNamespace(**v)
    return run


class GaveUp(Exception):
    pass


def real():
    go = forked(25)
    skipped = 0
    n = 0
    todo = [(K, form) for K in (0, 1, -1) for form in 'TN'] * (6 if THOROUGH else 1)
    for K, form in todo:
        B = calibrated(K, form, fine=True)
        s = B.sol
        aH = math.exp(float(s._logaH[0]))
        ks = ([float(R.randint(3, 30)), R.uniform(1.5, 60.)] if K else [aH * R.uniform(3, 80.)]) + [aH * 10**R.uniform(1., 2.5)]
        R.shuffle(ks)
        vac = R.choice([('RST', 'k', 'HD'), ('HD', 'RST'), None])
        vacs = vac or ('RST',)
        o = attempt(go, s, np.array(ks), vacuum=vac, timeout=120)
        if not o.ok and o.exc == 'GaveUp':
            skipped += 1
            continue
        alone, late = [], False
        for x in ks:
            a = attempt(go, s, np.array([x]), vacuum=vac, timeout=120)
            late = late or a.exc == 'GaveUp'
            alone.append(power(a.value, vacs, 0) if a.ok else {v: dict(s=a.exc, t=a.exc) for v in vacs})
        if late:
            skipped += 1
            continue
        out.emit('request', K=K, form=form, vacs=list(vacs), drop=True, ks=fls(ks), tol='1e-6', lstar=fl(s._logaH_star), exc=o.exc, alone=alone,
                 res=[power(o.value, vacs, i) for i in range(len(ks))] if o.ok else [], k_iMpc=fls(o.value.k_iMpc) if o.ok else [])
        if not o.ok:
            continue
        # end to end: against the specification's own integration from the same instant
        for i, k in enumerate(ks):
            fb = 20. if R.random() < .5 else 0.
            e = attempt(go, s, np.array([k]), vacuum=('RST', 'k', 'HD'), fac_beg=fb, rtol=1e-5, timeout=120)
            if not e.ok:
                if e.exc == 'GaveUp':
                    skipped += 1
                else:
                    out.emit('single', exc=e.exc, alone=[], res=[], K=K, form=form, vacs=[], drop=True, ks=fls([k]), tol='1')
                continue
            b = np.flatnonzero(math.log(k) - s._logaH > math.log(fb)) if fb else []
            b = int(b[-1]) if len(b) else 0
            at = dict(N=fl(s._N[b]), phi=fl(s.phi[b]), dphi=fl(s[bgs.dphi_name(form)][b]))
            if k / math.exp(float(s._logaH[b])) > 400:
                continue
            for v in ('RST', 'k', 'HD'):
                for what, tag in (('scalar', 's'), ('tensor', 't')):
                    p = float(getattr(e.value, 'P_%s_%s' % (tag, v))[0])
                    if math.isfinite(p) and (THOROUGH or R.random() < .4):
                        out2.emit('spectrum', tol='1e-2', K=K, form=form, pot=B.P.rec, k=fl(k), what=what, vac=v, at=at, P=fl(p), fb=fl(fb))
    if skipped > len(todo):
        raise SystemExit('oscillator kept not returning: %d' % skipped)


out2 = Recorder(sys.argv[3]) if REAL else None
real() if REAL else stub()
out.close()
if REAL:
    out2.close()

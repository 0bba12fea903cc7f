"""P08-P10: calibrations of real backgrounds.  args: out cases which"""
import bgs
from bgs import *  # noqa: F401,F403
import sys
from scipy.interpolate import interp1d
from primpy.units import mp_GeV, lp_iGeV
from primpy.reheating import is_instant_reheating

out = Recorder(sys.argv[1])
WHICH = sys.argv[2]
cases = [json.loads(x) for x in open(sys.argv[3])] if len(sys.argv) > 3 else []
R = rng('calib' + WHICH)
NAMES = ['a0', 'a0_Mpc', 'N0', 'delta_N_calib', '_N_cross', 'N_cross', '_logaH_star', 'N_star', 'N_dagg', 'N_beg', 'N_end',
         'N_reh', '_N_reh', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1', 'rho_reh_GeV', 'rho_reh_mp4', 'Omega_K0', 'cHH_end_Mpc',
         '_N_end']
KW = dict(Ok='Omega_K0', h='h', Ns='N_star', DN='DeltaN_reh', w='w_reh', rho='rho_reh_GeV', dm1='DeltaN_minus1', g='g_th')


def val(x):
    return None if x is None else float(x)


class Case(object):
    """A background with what the specification needs to know about it."""

    def __init__(self, B):
        s = self.s = B.sol
        self.B = B
        self._N, self.l = np.array(s._N), np.array(s._logaH)
        self.mask = np.array(s.inflation_mask)
        self.idx = np.flatnonzero((s._N > s._N_beg) & (s._N < s._N_end))
        # inflating samples whose ln(aH) no other sample shares
        o = np.argsort(self.l)
        gap = np.full(o.size + 1, np.inf)
        gap[1:-1] = np.diff(self.l[o])
        alone = np.zeros(o.size, dtype=bool)
        alone[o] = np.minimum(gap[:-1], gap[1:]) > 1e-9
        self.alone = int(alone[self.idx].sum())
        self.raw = dict(N_beg=fl(s._N_beg), N_end=fl(s._N_end), lH_beg=fl(s._logaH_beg), lH_end=fl(s._logaH_end),
                        V_end=fl(s.V_end), N_tot=fl(s.N_tot), lo_in=fl(self.l[self.idx].min()), hi_in=fl(self.l[self.idx].max()),
                        N_in=fl(self._N[self.idx[0]]), pot=B.P.rec)

    def bracket(self, N):
        """index pair around e-fold N inside the inflating part"""
        i = int(np.searchsorted(self._N, N)) - 1
        return max(0, min(i, self._N.size - 2))

    def sample(self, i):
        s = self.s
        return dict(N=fl(self._N[i]), phi=fl(s.phi[i]), dphi=fl(getattr(s, dphi_name(self.B.form))[i]), l=fl(self.l[i]))

    def args(self, **a):
        d = dict(method='default', Ok=None, h=None, Ns=None, bg=None, DN=None, w=None, rho=None, dm1=None, g=None)
        d.update(a)
        return d

    def call(self, a, ref=None, full=True, extra=None, approx=None, **tags):
        s = self.s
        kw = {KW[x]: a[x] for x in KW if a[x] is not None}
        kw.update(approx or {})
        if a['method'] != 'default':
            kw['calibration_method'] = a['method']
        if ref is not None:
            kw['background'] = ref
        o = attempt(s.calibrate_scale_factor, **kw)
        rec = dict(K=self.B.K, form=self.B.form, exc=o.exc, mro=o.mro, warns=o.warns, b=self.raw, full=full,
                   a={x: ('none' if a[x] is None else a[x] if x == 'method' else fl(a[x])) for x in a if x != 'g'},
                   g=fl(a['g'] if a['g'] is not None else 100.))
        rec.update(tags)
        if self.B.K == 0 and a['Ns'] is not None and 0 < a['Ns'] <= s.N_tot:
            i = self.bracket(float(self.raw['N_end']) - a['Ns'])
            rec['cr'] = [self.sample(i), self.sample(i + 1)]
        if o.ok:
            rec['r'] = {n: fl(getattr(s, n, None)) if hasattr(s, n) else 'absent' for n in NAMES}
            if full:
                i = self.bracket(float(getattr(s, '_N_cross')))
                rec['br'] = [self.sample(i), self.sample(i + 1)]
                rec['smp'] = [dict(N_=fl(self._N[j]), N=fl(s.N[j]), l=fl(self.l[j]), cHH=fl(s.cHH_Mpc[j]))
                              for j in sorted(R.sample(range(self._N.size), min(5, self._N.size)))]
                ks = np.flatnonzero(s.inflation_mask)
                js = sorted(set([0, ks.size - 1] + R.sample(range(ks.size), min(4, ks.size))))
                rec['msk'] = [dict(N_=fl(self._N[ks[j]]), l=fl(self.l[ks[j]]), logk=fl(s.logk[j]), k=fl(s.k_iMpc[j]),
                                   k_=fl(s._k[j]), cHH=fl(s.cHH_Mpc[ks[j]])) for j in js]
                rec['n'] = dict(mask=int(ks.size), logk=int(np.size(s.logk)), k=int(np.size(s.k_iMpc)), k_=int(np.size(s._k)),
                                strict=int(self.idx.size), alone=self.alone, N=int(np.size(s.N)), all=int(self._N.size), cHH=int(np.size(s.cHH_Mpc)))
        if ref is not None:
            rec['ref'] = {n: fl(getattr(ref, n, None)) if hasattr(ref, n) else 'absent' for n in NAMES}
        if extra:
            rec.update(extra)
        out.emit('calib', **rec)
        return o


def backgrounds(n, Ks=(-1, 0, 1), **k):
    res = []
    for i in range(n):
        K = Ks[i % len(Ks)]
        form = 'TN'[(i // len(Ks)) % 2]
        P = bgs.pot(R)
        ic = 'fast' if i // len(Ks) % 4 >= 2 and P.cls in bgs.PHI and bgs.PHI[P.cls] else \
            'sr' if K == 0 and R.random() < .5 else 'start'
        res.append(Case(bgs.background(R, P, K, form, ic=ic, **k)))
    return res


def good(K, c):
    """A request that should be served, with numbers."""
    h = R.uniform(.5, .9) if R.random() < .7 else R.choice([R.uniform(.05, .5), R.uniform(.9, 4.)])
    if K == 0:
        m = R.choice(['N', 'Nw', 'Nrho', 'inst', 'wDN', 'wrho', 'dm1', 'dm1rho', 'instw', 'instDN', 'instdm'])
    else:
        m = R.choice(['Ok', 'Okrho', 'inst', 'wDN', 'wrho', 'instw', 'instDN', 'instdm'])
    w = R.choice([-.3, -.1, 0., .1, .25, .4, .7, 1., 1 / 3 + R.choice([-1, 1]) * 10**R.uniform(-7, -3)])
    DN = R.choice([R.uniform(.1, 12.), 10**R.uniform(-3, 0), 10**R.uniform(-9, -3)])
    hot = float((1.5 * c.s.V_end * mp_GeV / lp_iGeV**3)**.25)
    rho = R.choice([10**R.uniform(0, 14), 10**R.uniform(0, 14), hot * math.exp(-R.uniform(0., 1.))])
    a = {}
    if m[0] == 'N':
        a.update(Ns=R.uniform(40., min(62., c.s.N_tot - 1)), method=R.choice(['default', 'N_star']))
        if m == 'Nw':
            a['w'] = w
        if m == 'Nrho':
            a['rho'] = rho
    elif m[:2] == 'Ok':
        a.update(Ok=-K * 10**R.uniform(-5, -.5), h=h, method=R.choice(['default', 'Omega_K0']))
        if m == 'Okrho':
            a['rho'] = rho
    else:
        a['method'] = 'reheating'
        if K:
            a['h'] = h
        if m == 'wDN':
            a.update(w=w, DN=DN)
        if m == 'wrho':
            a.update(w=w, rho=rho)
        if m == 'dm1':
            a.update(dm1=R.choice([R.uniform(-4, 4), R.uniform(-4, 4), R.choice([-1, 1]) * 10**R.uniform(-9, -1)]))
        if m == 'dm1rho':
            a.update(dm1=R.choice([R.uniform(-4, 4), R.choice([-1, 1]) * 10**R.uniform(-3, -.3)]), rho=rho)
        if m == 'instw':
            a.update(w=1 / 3)
        if m == 'instDN':
            a.update(DN=0.)
        if m == 'instdm':
            a.update(dm1=0.)
    if R.random() < .3:
        a['g'] = R.choice([10.75, 106.75, 228.75])
    return m, c.args(**a)


if WHICH == 'P08':
    for c in backgrounds(36 if THOROUGH else 12):
        for j in range(40 if THOROUGH else 10):
            c.call(good(c.B.K, c)[1])
    # densely tabulated backgrounds
    for c in backgrounds(6 if THOROUGH else 3):
        c.B.kw['t_eval'] = np.linspace(c.s.x[0], c.s.x[-1] * (1 - 1e-9) + c.s.x[0] * 1e-9, R.choice([60000, 120000]))
        c.B.sol = c.B.make()
        c = Case(c.B)
        for j in range(3):
            c.call(good(c.B.K, c)[1])
    # thinly tabulated backgrounds, also ones that go on past the end of inflation
    for i, c in enumerate(backgrounds(24 if THOROUGH else 6)):
        x0, x1 = float(c.s.x[0]), float(c.s.x[-1])
        past = i % 2
        n = R.choice([1500, 4000])
        if past:
            c.B.ic.x_end = x1 * 1.05 if c.B.form == 'T' else x1 + 1.2
            c.B.kw['events'] = [InflationEvent(c.B.eq, +1, terminal=False), InflationEvent(c.B.eq, -1, terminal=False)]
        end = c.B.ic.x_end if past else x1 * (1 + 1e-3)
        c.B.kw['t_eval'] = np.geomspace(x0, end, n) if c.B.form == 'T' else np.linspace(x0, end, n)
        c.B.sol = c.B.make()
        c = Case(c.B)
        for j in range(5 if THOROUGH else 3):
            c.call(good(c.B.K, c)[1])
    for c in backgrounds(24 if THOROUGH else 6):
        # pivots outside the inflating range
        if c.B.K == 0:
            for Ns in (c.s.N_tot + .5, c.s.N_tot * 2, c.s.N_tot - 1.5, .5):
                c.call(c.args(Ns=Ns))
            for w, DN in ((1., 120.), (1., 60.), (0., 120.), (-.3, 60.), (.1, 200.)):
                c.call(c.args(method='reheating', w=w, DN=DN))
        else:
            for p in (-60, -50, -20, -12, -8, -6, .5):
                c.call(c.args(Ok=-c.B.K * 10.**p, h=.7))
            for w, DN in ((1., 120.), (1., 60.), (0., 120.), (-.3, 60.), (.1, 200.)):
                c.call(c.args(method='reheating', h=R.choice([.7, R.uniform(.1, 2.)]), w=w, DN=DN))
        if c.B.K == 0:
            ref = c.B.make()
            kw = R.choice([{}, dict(rho_reh_GeV=1e9), dict(w_reh=0.)])
            o = attempt(ref.calibrate_scale_factor, N_star=55. if 'w_reh' not in kw else 50., **kw)
            if o.ok:
                c.call(c.args(Ns=float(ref.N_star), bg=float(ref.N_star)), ref=ref)

if WHICH == 'P09':
    # the flat and curved tables of the model, with numbers that suit the background
    bc = {K: [Case(bgs.background(R, bgs.pot(R), K, f, ic='sr' if K == 0 else 'start')) for f in 'TN'] for K in (-1, 0, 1)}
    refs = {}
    for c in bc[0]:
        r = c.B.make()
        r.calibrate_scale_factor(N_star=50)
        refs[id(c)] = r
    oks = [x for x in cases if x['ok']]
    R.shuffle(oks)
    rest = [x for x in cases if not x['ok']]
    R.shuffle(rest)
    if not THOROUGH:
        # some of the served ones; of the others, first those that one change of one argument would make served:
        # a few for every kind of change, whatever else is said
        key = lambda K, a: (K,) + tuple(sorted(a.items()))
        served = {key(x['K'], x['a']) for x in oks}
        vals = {n: sorted({x['a'][n] for x in cases}) for n in oks[0]['a']}
        near, count = [], {}
        for x in rest:
            for n in vals:
                for v in vals[n]:
                    if v != x['a'][n] and key(x['K'], dict(x['a'], **{n: v})) in served:
                        g = (x['K'], x['a']['method'] if n != 'method' else v, n, x['a'][n], v, x['a']['rho'] != 'none',
                             x['a']['bg'] != 'none')
                        count[g] = count.get(g, 0) + 1
                        if count[g] <= 3:
                            near.append(x)
        near = list({key(x['K'], x['a']): x for x in near}.values())
        oks, rest = oks[:700], near + rest[:max(2000, 9000 - len(near))]
    for x in oks + rest:
        K, m = x['K'], dict(x['a'])
        c = R.choice(bc[K])
        a = {n: (None if v == 'none' else v if n == 'method' else float(v)) for n, v in m.items()}
        if a['Ok'] and K != 0:
            a['Ok'] *= 10**R.uniform(-2, 0)
        ref = None
        if a['bg'] is not None:
            ref = refs[id(c)]
            if a['bg'] == 49.:
                a['bg'] = 50.
                if a['Ns'] == 50.:
                    a['Ns'] = 49.
            elif a['Ns'] == 500.:
                pass
        c.call(c.args(**a), ref=ref, full=False)
    # pivots just within and just beyond the e-folds there are
    for c in bc[0]:
        for d in (-1e-3, -.01, -.1, -.4, 1e-6, 1e-3, .01, .1, .4, .9):
            c.call(c.args(Ns=float(c.s.N_tot) + d, method=R.choice(['default', 'N_star'])), full=False)
            if d > 0:
                c.call(c.args(Ns=float(c.s.N_tot) + d, w=R.choice([0., .2])), full=False)
    # the predicate for instantaneous reheating, on its own
    for Ns in (None, 55.):
        for rho in (None, 1e9):
            for w in (None, 1 / 3, .2, -.5, 0., 1 / 3 + 1e-9, 1 / 3 - 1e-7):
                for DN in (None, 0., 3., -1., 1e-9):
                    for d in (None, 0., 1.5, -1e-9):
                        o = attempt(is_instant_reheating, Ns, rho, w, DN, d)
                        out.emit('instant', exc=o.exc, value=bool(o.value) if o.ok else False, isbool=isinstance(o.value, bool),
                                 a=dict(Ns=fl(Ns), rho=fl(rho), w=fl(w), DN=fl(DN), dm1=fl(d)))

if WHICH == 'P10':
    for c in backgrounds(30 if THOROUGH else 9):
        K = c.B.K
        for j in range(30 if THOROUGH else 8):
            m, a = good(K, c)
            if m in ('N', 'Ok', 'dm1'):
                continue
            o = c.call(a, full=False)
            if not o.ok or m[:4] == 'inst':
                if o.ok:
                    first = {n: fl(getattr(c.s, n)) for n in NAMES}
                    for b in ({}, dict(w=1 / 3), dict(DN=0.), dict(dm1=0.), dict(w=1 / 3, DN=0., dm1=0.)):
                        c.call(c.args(method='reheating', h=a['h'], g=a['g'], **b), full=False, same=first)
                continue
            s = c.s
            first = {n: fl(getattr(s, n)) for n in NAMES}
            v = dict(w=float(s.w_reh), DN=float(s.DeltaN_reh), rho=float(s.rho_reh_GeV), dm1=float(s.DeltaN_minus1),
                     Ns=float(s.N_star), Ok=float(s.Omega_K0))
            if not (.02 < v['DN'] < 150. and v['w'] > -1 / 3 and abs(v['w'] - 1 / 3) > .01):
                continue
            alts = [dict(method='reheating', w=v['w'], DN=v['DN']), dict(method='reheating', w=v['w'], rho=v['rho'])]
            if K == 0:
                alts += [dict(method='N_star', Ns=v['Ns'], w=v['w']), dict(method='N_star', Ns=v['Ns'], rho=v['rho']),
                         dict(method='reheating', dm1=v['dm1'], rho=v['rho'])]
            else:
                alts += [dict(method='Omega_K0', Ok=v['Ok'], rho=v['rho'])]
            for b in alts:
                if K:
                    b['h'] = a['h']
                c.call(c.args(g=a['g'], **b), full=False, same=first)
        # undetermined reheating
        und = [dict(Ns=R.uniform(45, 60)), dict(method='reheating', dm1=R.uniform(-3, 3))] if K == 0 else \
            [dict(Ok=-K * 10**R.uniform(-4, -1), h=.7)]
        for b in und * 2:
            c.call(good(K, c)[1], full=False)
            c.call(c.args(**b), full=False)
        # reheating that barely ends before it begins, or barely after today
        if K == 0:
            g = R.choice([None, 10.75])
            Ns = R.uniform(45., min(58., c.s.N_tot - 1))
            if c.call(c.args(Ns=Ns, rho=1e9, g=g), full=False).ok:
                s, rho = c.s, 1e9
                for x in (float(s.DeltaN_reh) + 10**R.uniform(-5, -1), float(s.DeltaN_reh) - 10**R.uniform(-5, -1),
                          float(s.N_reh - s.N0) - 10**R.uniform(-3, 0), float(s.N_reh - s.N0) + 10**R.uniform(-3, 0)):
                    # a density e**x as large ends x e-folds earlier
                    c.call(c.args(Ns=Ns, rho=rho * math.exp(x), g=g), full=False)
        # reheating that ends before it begins or after today
        if K == 0:
            for b in (dict(Ns=58., rho=1e17), dict(Ns=45., rho=1e-20), dict(method='reheating', w=1., DN=60.),
                      dict(method='reheating', w=.25, DN=80.)):
                c.call(c.args(**b), full=False)
        else:
            for b in (dict(Ok=-K * .1, rho=1e17), dict(Ok=-K * .01, rho=1e-20), dict(method='reheating', w=.25, DN=80.)):
                c.call(c.args(h=.7, **b), full=False)
out.close()

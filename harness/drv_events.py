"""P04: event root functions at random states, names and flags, detection histories, real integrations."""
import sys
from states import *  # noqa: F401,F403
import primpy.events as ev
from primpy.solver import solve
from primpy.initialconditions import SlowRollIC, InflationStartIC
from scipy.integrate import solve_ivp

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
R = rng('P04')
CLS = dict(UntilT=ev.UntilTEvent, UntilN=ev.UntilNEvent, Inflation=ev.InflationEvent,
           AfterInflationEnd=ev.AfterInflationEndEvent, Collapse=ev.CollapseEvent, Phi0=ev.Phi0Event,
           ModeExit=ev.ModeExitEvent)
POTS = [p for p in pots.make(1.) if p.rec['feature'] == 'none'] + [p for p in pots.make(3e-5) if p.cls in (
    'QuadraticPotential', 'StarobinskyPotential')]


def make(eq, kind, value=None, direction=None, terminal=None, **k):
    kw = dict(k)
    if value is not None:
        kw['value'] = value
    if direction is not None:
        kw['direction'] = direction
    if terminal is not None:
        kw['terminal'] = terminal
    return CLS[kind](eq, **kw)


def qty(kind, eq, x, y):
    """The watched quantity as the real equations report it (only used to place values near the crossing)."""
    if kind == 'UntilT':
        return float(eq.t(x, y))
    if kind == 'UntilN':
        return float(eq._N(x, y))
    if kind == 'Inflation':
        return float(eq.inflating(x, y))
    if kind == 'AfterInflationEnd':
        return float(eq.w(x, y))
    if kind == 'Collapse':
        return float(eq.H2(x, y))
    if kind == 'Phi0':
        return float(eq.phi(x, y))
    return float(eq._N(x, y) + 0.5 * math.log(abs(float(eq.H2(x, y)))))


# -- root functions ----------------------------------------------------------
for n in range(12000 if THOROUGH else 1500):
    P = R.choice(POTS)
    K = R.choice([-1, 0, 1])
    form = R.choice('TN')
    kind = R.choice(list(CLS))
    N, phi, phit, H2 = random_state(R, P, K)
    if kind == 'Collapse' and K == 1 and form == 'T' and R.random() < .5:
        N -= R.uniform(0.1, 3.)      # beyond the collapse: H2 < 0
    kw = dict(track_eta=bool(R.getrandbits(1)))
    if form == 'N':
        kw['track_time'] = True
    eq = EQ[form](K=K, potential=P.obj, **kw)
    dn = 'dphidt' if form == 'T' else 'dphidN'
    dphi = phit if form == 'T' else phit / math.sqrt(H2)
    t = 10**R.uniform(-2, 5)
    y = np.zeros(len(eq.idx))
    for a, b in (('phi', phi), (dn, dphi), ('_N', N), ('t', t), ('eta', .3)):
        if a in eq.idx:
            y[eq.idx[a]] = b
    x = t if form == 'T' else N
    q = qty(kind, eq, x, y)
    size = dict(UntilT=abs(t), UntilN=1., Inflation=float(P.obj.V(phi)), AfterInflationEnd=1., Collapse=abs(H2),
                Phi0=abs(phi), ModeExit=1.)[kind]
    for where in ('at', 'above', 'below', 'zero'):
        off = dict(at=0., above=1., below=-1., zero=0.)[where] * size * 10**R.uniform(-4, 0.5)
        if where == 'zero':
            if kind in ('UntilT', 'UntilN', 'ModeExit'):
                continue
            v = None
        elif kind == 'ModeExit':
            v = math.exp(q + off)
        else:
            v = q + off
        far = (math.exp(q + 1) if kind == 'ModeExit' else q + size)
        d = R.choice([None, -1, 0, 1])
        tm = R.choice([None, True, False])
        # an exempt starting time other than the present one changes nothing, on either side of it
        kt = dict(t_i=x * R.choice([.5, 2.]) + R.choice([-1., 1.]) * 1e-3) if kind == 'Inflation' and R.random() < .5 else {}
        o = attempt(lambda: (fl(make(eq, kind, v, d, tm, **kt)(x, y)), fl(make(eq, kind, far, **kt)(x, y))))
        rt, fr = o.value if o.ok else (o.exc, o.exc)
        out.emit('root', form=form, K=K, pot=P.rec, ev=kind, value=fl(v if v is not None else 0.), N=fl(N), phi=fl(phi),
                 dphi=fl(dphi), t=fl(t), root=rt, far=fr, at=(where == 'at'))

# scales watched far outside the range of the state: very many e-folds, very large and very small values
for n in range(600 if THOROUGH else 60):
    P = R.choice(POTS)
    K = R.choice([-1, 0, 1])
    form = R.choice('TN')
    N, phi, phit, H2 = random_state(R, P, 0)
    N = R.choice([R.uniform(100., 700.), R.uniform(700., 5000.)])
    kw = dict(track_time=True) if form == 'N' else {}
    eq = EQ[form](K=K, potential=P.obj, **kw)
    dn = 'dphidt' if form == 'T' else 'dphidN'
    dphi = phit if form == 'T' else phit / math.sqrt(H2)
    y = np.zeros(len(eq.idx))
    for a, b in (('phi', phi), (dn, dphi), ('_N', N), ('t', 5.)):
        if a in eq.idx:
            y[eq.idx[a]] = b
    v = 10**R.choice([R.uniform(-140, -5), R.uniform(-5, 5), R.uniform(5, 140)])
    o = attempt(lambda: fl(make(eq, 'ModeExit', v)(5. if form == 'T' else N, y)))
    out.emit('root', form=form, K=K, pot=P.rec, ev='ModeExit', value=fl(v), N=fl(N), phi=fl(phi), dphi=fl(dphi), t='5.0',
             root=o.value if o.ok else o.exc, far='1.0', at=False)

# -- flags and names -----------------------------------------------------------
DEF = dict(UntilT=(0, True), UntilN=(0, True), Inflation=(0, False), AfterInflationEnd=(1, True), Collapse=(0, True),
           Phi0=(0, True), ModeExit=(0, True))
for form in 'TN':
    eq = EQ[form](K=0, potential=POTS[0].obj)
    cfgs = []
    for kind in CLS:
        for d in (None, -1, 0, 1):
            for tm in (None, True, False):
                for v in ([None] if kind not in ('UntilT', 'UntilN', 'ModeExit') else [1.5]
                          if kind != 'ModeExit' else [1.5, 2.5e3, 2.5e3 * (1 + R.choice([1e-1, 1e-2, 1e-3])), 1e-4, 1e-9, 3e-9, 1e60, 2e60]):
                    o = attempt(lambda: make(eq, kind, v, d, tm))
                    dd, tt = DEF[kind]
                    dd = dd if d is None else d
                    tt = tt if tm is None else tm
                    e = o.value
                    out.emit('meta', ev=kind, dir=dd, term=tt, exc=o.exc, direction=int(e.direction) if o.ok else 99,
                             terminal=bool(e.terminal) if o.ok else 'missing')
                    if o.ok and kind not in ('UntilT', 'UntilN', 'Collapse'):
                        cfgs.append(dict(ev=kind, dir=dd, term=tt, value=fl(v), name=e.name))
                    elif o.ok and d is None and tm is None:
                        cfgs.append(dict(ev=kind, dir=dd, term=tt, value=fl(v), name=e.name))
    out.emit('names', cfgs=cfgs)

# -- detection over the model's sign histories ------------------------------------


class Stub(object):
    """Equations whose watched quantity follows a prescribed history of signs at integer times."""

    def __init__(self, g):
        self.g = g

    def inflating(self, x, y):
        return float(np.interp(x, np.arange(len(self.g)), self.g))


for c in cases:
    g = [float(s) for s in c['signs']]
    if abs(g[0]) == 1.:
        g[0] *= 1e-14
    if c['knows'] and len(g) > 1:
        pass
    eq = Stub(g)

    def go():
        e = ev.InflationEvent(eq, direction=c['dir'], terminal=c['term'], t_i=0. if c['knows'] else None)
        # a stopped history is continued to the end of the samples given
        s = solve_ivp(lambda x, y: np.zeros(1), (0., len(g) - 1.), np.zeros(1), events=[e], max_step=1., first_step=1.)
        assert s.success, s.message
        return s
    o = attempt(go)
    if not c['knows'] and 1 in c['fired']:
        continue      # spurious firing of an uninformed tracker: allowed, position is round-off
    out.emit('detect', dir=c['dir'], term=c['term'], knows=c['knows'], signs=c['signs'], fired=c['fired'], exc=o.exc,
             msg=o.msg, times=[fl(v) for v in o.value.t_events[0]] if o.ok else [],
             last=fl(o.value.t[-1]) if o.ok else 'nan')

# -- real integrations -----------------------------------------------------------------
REAL = [p for p in POTS if p.cls in ('QuadraticPotential', 'StarobinskyPotential', 'NaturalPotential', 'LinearPotential',
                                     'DoubleWell2Potential')]
for n in range(90 if THOROUGH else 24):
    P = R.choice(REAL)
    K = R.choice([-1, 0, 1])
    form = 'TN'[n % 2]
    kw = dict(track_time=True) if form == 'N' else {}
    eq = EQ[form](K=K, potential=P.obj, **kw)
    dn = 'dphidt' if form == 'T' else 'dphidN'
    phi = P.lo + (P.hi - P.lo) * R.uniform(.45, .8)
    V = float(P.obj.V(phi))
    Ni = -0.5 * math.log(V / 2) + R.uniform(.3, 3.)
    start = R.random() < .6
    ti = R.choice([1., 7.5])
    x0 = ti if form == 'T' else Ni
    o = attempt(lambda: (InflationStartIC if start else SlowRollIC)(eq, phi_i=phi, N_i=Ni, t_i=ti,
                **(dict(x_end=Ni + R.uniform(60, 80)) if form == 'N' else {})))
    if not o.ok:
        continue
    ic = o.value
    dirs = [R.choice([-1, 1]) for _ in range(4)]
    know = R.random() < .7
    lk = Ni + 0.5 * math.log(V / 2) + R.uniform(1., 20.)
    evs = [('Inflation', dict(direction=1, terminal=False, t_i=x0 if know else None)),
           ('Inflation', dict(direction=-1, terminal=False, t_i=x0 if know else None)),
           ('Inflation', dict(direction=-1, terminal=R.random() < .7,
                              value=-R.uniform(0, 1.5) * float(P.obj.V(P.obj.phi_end)))),
           ('Phi0', dict(direction=dirs[0], terminal=False)), ('Phi0', dict(direction=0, terminal=False, value=phi * .8)),
           ('ModeExit', dict(value=math.exp(lk), direction=dirs[1], terminal=False)),
           ('ModeExit', dict(value=math.exp(lk + 1.5), direction=0, terminal=False)),
           ('UntilN', dict(value=Ni + R.uniform(1., 75.), terminal=R.random() < .5)),
           ('UntilT', dict(value=ti * 10**R.uniform(.5, 4), terminal=False)),
           ('AfterInflationEnd', dict(value=R.uniform(-.2, .4), terminal=True)), ('Collapse', {})]
    objs = []
    for k, a in evs:
        a = dict(a)
        a2 = {q: v for q, v in a.items() if v is not None}
        objs.append(CLS[k](eq, **a2))
    o = attempt(lambda: solve(ic, events=objs, rtol=1e-8, atol=1e-10), timeout=12)
    if not o.ok:
        if o.exc != 'Timeout':
            out.emit('meta', ev='solve', dir=0, term=False, exc=o.exc, msg=o.msg, direction=0, terminal=False)
        continue
    s = o.value
    names = [e.name for e in objs]
    step = max(1, len(s.x) // 400)
    ii = sorted(set(range(0, len(s.x), step)) | {len(s.x) - 1})
    smp = [dict(x=fl(s.x[i]), t=fl(s.t[i]), N=fl(s._N[i]), phi=fl(s.phi[i]), dphi=fl(getattr(s, dn)[i])) for i in ii]
    for j, ((k, a), e) in enumerate(zip(evs, objs)):
        if names.count(e.name) > 1:
            continue
        nm = e.name
        xs = s.x_events[nm]
        cr = [dict(x=fl(xs[i]), t=fl(s.t_events[nm][i]), N=fl(s._N_events[nm][i]), phi=fl(s.phi_events[nm][i]),
                   dphi=fl(getattr(s, dn + '_events')[nm][i])) for i in range(len(xs))][:60]
        # how fast the quantity changes over a rounding error of x
        slope = []
        for i in range(min(60, len(xs))):
            m = int(np.clip(np.searchsorted(s.x, xs[i]), 1, len(s.x) - 1))
            qa, qb = (qty(k, eq, s.x[q], s.y[:, q]) for q in (m - 1, m))
            slope.append(fl(abs(qb - qa)))
        out.emit('solve', form=form, K=K, pot=P.rec, ev=k, value=fl(a.get('value', 0.)), dir=int(e.direction),
                 term=bool(a.get('terminal', DEF[k][1])), ti=bool(know and k == 'Inflation' and a.get('value') is None),
                 smp=smp, cr=cr, slope=slope, tol='1e-6', sub=step > 1)
out.close()

"""P03: replay registries, event requests and integrator options of the model in the real code."""
import sys
import ivp
from common import *  # noqa: F401,F403
from primpy.equations import Equations
from primpy.events import Event, InflationEvent, CollapseEvent
from primpy.initialconditions import ISIC_Nt
from primpy.solver import solve
from primpy.time.inflation import InflationEquationsT
from primpy.efolds.inflation import InflationEquationsN
import primpy.potentials as pp

out = Recorder(sys.argv[1])
cases = [json.loads(x) for x in open(sys.argv[2])]
opts = [json.loads(x) for x in open(sys.argv[3])]
R = rng('P03')
NCASE, NOPT = (3000, 10**6) if THOROUGH else (250, 400)


class Toy(Equations):
    def __init__(self, calls, dyn, indep):
        super().__init__()
        self.dyn = dyn
        self._set_independent_variable(indep)
        for c in calls:
            self.add_variable(*c)

    def __call__(self, x, y):
        dy = np.zeros_like(y)
        for n, v in self.dyn.items():
            dy[self.idx[n]] = v['A'] * v['om'] * np.cos(v['om'] * (x - 0.5) + v['ph'])
        return dy


class Level(Event):
    def __init__(self, equations, var, value, direction, terminal, k):
        super().__init__(equations, direction, terminal, value)
        self.var = var
        self.name = 'Level_%s_%d' % (var, k)

    def __call__(self, x, y):
        return getattr(self.equations, self.var)(x, y) - self.value


class IC(object):
    def __init__(self, eq, x0, x1, y0):
        self.equations, self.x_ini, self.x_end, self.start = eq, x0, x1, y0

    def __call__(self, y0, **kw):
        for n, v in self.start.items():
            y0[self.equations.idx[n]] = v


def toy(calls, indep):
    names = [n for c in calls for n in c]
    dyn = {n: dict(c=R.uniform(-2, 2), A=R.uniform(.5, 2) * R.choice([-1, 1]), om=R.uniform(.6, 2.),
                   ph=R.uniform(0, 6.28)) for n in names}
    eq = Toy(calls, dyn, indep)
    return names, dyn, eq


def level(v, which):
    # the range of y is c - A sin(ph) + [-|A|, |A|]
    mid = v['c'] - v['A'] * math.sin(v['ph'])
    return mid + abs(v['A']) * {'never': 1.7, 'low': -0.43, 'high': 0.57}[which]


R.shuffle(cases)
for case in cases[:NCASE]:
    indep = R.choice(['tau', '_N'])
    x0, x1 = 0.5, 9.
    names, dyn, eq = toy(case['calls'], indep)
    evs = [dict(e, value=level(dyn[e['var']], e['level'])) for e in case['evs']]
    events = [Level(eq, e['var'], e['value'], e['dir'], bool(e['term']), k) for k, e in enumerate(evs)]
    rec = dict(calls=case['calls'], indep=indep, span=[fl(x0), fl(x1)], evs=[dict(e, value=fl(e['value'])) for e in evs],
               dyn={n: {k: fl(x) for k, x in v.items()} for n, v in dyn.items()}, idx=dict(eq.idx))

    def go():
        probe = np.array([11., 22., 33., 44.][:len(names)])
        d = dict(probe=fls(probe), acc={n: fl(getattr(eq, n)(77., probe)) for n in names},
                 acc2={n: fl(getattr(eq, n)(77., np.stack([probe, probe], axis=1))[1]) for n in names},
                 accx=fl(getattr(eq, indep)(77., probe)), indep_attr=eq.independent_variable)
        del ivp.calls[:]
        s = solve(IC(eq, x0, x1, {n: dyn[n]['c'] for n in names}), events=events)
        d['y0'] = fls(ivp.calls[-1]['y0'])
        d['x'] = fls(s.x)
        d['xnamed'] = fls(getattr(s, indep))
        d['series'] = {n: fls(getattr(s, n)) for n in names}
        keys = [e.name for e in events]
        tabs = [s.x_events, getattr(s, indep + '_events'), s.y_events] + [getattr(s, n + '_events') for n in names]
        d['tables_ok'] = all(sorted(t) == sorted(keys) for t in tabs) and s.independent_variable == indep
        d['evout'] = [dict(x=fls(s.x_events[k]), xn=fls(getattr(s, indep + '_events')[k]),
                           y=[fls(row) for row in s.y_events[k]] if len(s.x_events[k]) else [],
                           vals={n: fls(getattr(s, n + '_events')[k]) for n in names}) for k in keys]
        return d
    a = attempt(go)
    out.emit('case', exc=a.exc, msg=a.msg, **rec, **(a.value or {}))

R.shuffle(opts)
for u in opts[:NOPT]:
    names, dyn, eq = toy([['alpha', 'beta']], 'tau')
    te = np.linspace(0.5, 3., 7)
    kw = {}
    for o in ('rtol', 'atol', 'max_step', 'first_step'):
        if u[o] != 'absent':
            kw[o] = float(u[o])
    if u['method'] != 'absent':
        kw['method'] = u['method']
    args = ()
    if u['t_eval']:
        kw['t_eval'] = te
    if u['dense_output']:
        kw['dense_output'] = True
    if u['vectorized']:
        kw['vectorized'] = True

    def go():
        del ivp.calls[:]
        s = solve(IC(eq, 0.5, 3., {n: dyn[n]['c'] for n in names}), *args, **kw)
        c = ivp.calls[-1]
        m = c['method']
        return dict(method=m if isinstance(m, str) else m.__name__, rtol=fl(c.get('rtol')), atol=fl(c.get('atol')),
                    t_eval=c.get('t_eval') is not None and np.array_equal(c['t_eval'], te),
                    x_is_t_eval=len(s.x) == len(te) and np.array_equal(s.x, te),
                    dense_output=bool(c.get('dense_output')), vectorized=bool(c.get('vectorized')),
                    max_step=fl(c.get('max_step')), first_step=fl(c.get('first_step')), ncalls=len(ivp.calls))
    a = attempt(go)
    out.emit('options', user=u, exc=a.exc, msg=a.msg, got=a.value or {})

# a search integrates many times: every time with the tolerances asked, and the last time with the method asked
for i in range(12 if THOROUGH else 4):
    K, form = R.choice([-1, 1]), 'TN'[i % 2]
    pot = pp.QuadraticPotential(Lambda=.002)
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)
    ic = ISIC_Nt(eq, N_tot=R.uniform(20., 30.), phi_i_bracket=[8., 14.], N_i=-.5 * float(np.log(pot.V(8.) / 2)) + R.uniform(.2, 2.), **(dict(t_i=1e4) if form == 'T' else {}))
    u = dict(rtol=R.choice(['absent', '1e-08', '1e-12', '3e-11']), atol=R.choice(['absent', '1e-10', '1e-14', '1e-09']),
             method=R.choice(['absent', 'DOP853', 'RK45']))
    kw = {o: v if o == 'method' else float(v) for o, v in u.items() if v != 'absent'}

    def go():
        del ivp.calls[:]
        solve(ic, events=[InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq)], **kw)
        m = ivp.calls[-1]['method']
        return dict(rtol=sorted({fl(c.get('rtol')) for c in ivp.calls}), atol=sorted({fl(c.get('atol')) for c in ivp.calls}),
                    method=m if isinstance(m, str) else m.__name__, ncalls=len(ivp.calls))
    a = attempt(go)
    out.emit('search', user=u, exc=a.exc, msg=a.msg, got=a.value or {})

for K in (-1, 0, 1):
    for te in (False, True):
        for form, tt in (('T', False), ('N', False), ('N', True)):
            eq = (InflationEquationsT(K, pp.QuadraticPotential(Lambda=1.), track_eta=te) if form == 'T' else
                  InflationEquationsN(K, pp.QuadraticPotential(Lambda=1.), track_time=tt, track_eta=te))
            y = np.arange(1., 1 + len(eq.idx))
            tables = all(getattr(eq, n)(5., y) == y[i] for n, i in eq.idx.items())
            tables = bool(tables and getattr(eq, eq.independent_variable)(5., y) == 5.)
            out.emit('registry', form=form, tt=tt, te=te, K=K, names=list(eq.idx), idx=dict(eq.idx),
                     indep=eq.independent_variable, tables=tables)
out.close()

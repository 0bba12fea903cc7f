"""Real integrated backgrounds in every geometry and formulation."""
from states import *  # noqa: F401,F403
from primpy.solver import solve
from primpy.events import InflationEvent
from primpy.initialconditions import SlowRollIC, InflationStartIC

PHI = {'QuadraticPotential': (15.6, 18.5), 'StarobinskyPotential': (5.45, 6.3), 'NaturalPotential': None,
       'LinearPotential': (11.2, 13.5), 'TmodelPotential': None, 'DoubleWell2Potential': None, 'QuarticPotential': (22.5, 25.),
       'MonomialPotential': None}


class Bg(object):
    pass


def pot(R, names=('QuadraticPotential', 'StarobinskyPotential', 'LinearPotential', 'QuarticPotential', 'NaturalPotential'),
        Lambda=None):
    name = R.choice(names)
    L = Lambda or 10**R.uniform(-3.2, -2.)
    ps = [p for p in pots.make(L) if p.cls == name]
    P = R.choice(ps)
    return P


def phi_i(R, P, N=(62., 85.)):
    """A field value with about that many e-folds left."""
    if PHI.get(P.cls):
        return R.uniform(*PHI[P.cls])
    return float(P.obj.sr_N2phi(R.uniform(*N)))


class FastRollIC(SlowRollIC):
    """A start dominated by kinetic energy: inflation begins some way into the solution."""

    fast = 10.     # kinetic term dphidt^2 in units of the potential (inflation has less than 1)

    def __call__(self, y0, **ivp_kwargs):
        super().__call__(y0, **ivp_kwargs)
        eq = self.equations
        V = float(eq.potential.V(self.phi_i))
        H2 = (self.fast * V / 2 + V) / 3 - eq.K * math.exp(-2 * self.N_i)
        dphidt = -math.sqrt(self.fast * V)
        y0[eq.idx['dphidt' if 'dphidt' in eq.idx else 'dphidN']] = dphidt if 'dphidt' in eq.idx else dphidt / math.sqrt(H2)


def background(R, P, K, form, ic='start', track=False, t_eval=None, curv=None, phi=None, method=None, **kw):
    """One background; curv = e-folds of initial size above the critical one."""
    B = Bg()
    B.P, B.K, B.form = P, K, form
    phi = phi_i(R, P) if phi is None else phi
    if ic == 'fast':
        phi += .9
    eqk = dict(track_eta=track)
    if form == 'N':
        eqk['track_time'] = track
    eq = EQ[form](K=K, potential=P.obj, **eqk)
    crit = -.5 * math.log(float(P.obj.V(phi)) / 2)
    N_i = crit + (R.uniform(.3, 4.) if curv is None else curv)
    if K == 0 and R.random() < .6:
        N_i = R.uniform(-30., 60.)
    ick = {}
    if form == 'T' or track:
        ick['t_i'] = 1e4 if form == 'T' else 0.
    if track:
        ick['eta_i'] = 0.
    if ic == 'start':
        c = InflationStartIC(eq, phi_i=phi, N_i=N_i, **ick)
    elif ic == 'fast':
        c = FastRollIC(eq, phi_i=phi, N_i=N_i, **ick)
        c.fast = R.choice([1.5, 5., 20.])
    else:
        c = SlowRollIC(eq, phi_i=phi, N_i=N_i, **ick)
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    k = dict(method='DOP853', rtol=R.choice([1e-8, 1e-10]), atol=1e-18) if method is None else dict(method)
    k.update(kw)
    B.eq, B.ic, B.ev, B.kw = eq, c, ev, k
    B.make = lambda: solve(ic=c, **{**dict(events=ev), **k})
    B.sol = B.make()
    return B


def dphi_name(form):
    return 'dphidt' if form == 'T' else 'dphidN'

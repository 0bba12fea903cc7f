"""Random background states: every term of the equations matters somewhere."""
import math
from common import *  # noqa: F401,F403
import pots
from primpy.time.inflation import InflationEquationsT
from primpy.efolds.inflation import InflationEquationsN

EQ = {'T': InflationEquationsT, 'N': InflationEquationsN}


def random_state(R, P, K, edge=None):
    """(N, phi, phidot, H2) with H2 > 0; kinetic share and curvature share are log-uniform."""
    for _ in range(1000):
        phi = P.lo + (P.hi - P.lo) * R.random()
        if P.neg and R.random() < 0.3:
            phi = -phi
        V = float(P.obj.V(phi))
        if not V > 0:
            continue
        kin = 10**R.uniform(-3, 0.9)        # phidot^2 / V
        if edge is not None:
            kin = 1. + edge
        sgn = 1 if R.random() < 0.4 else -1
        phit = sgn * math.sqrt(kin * V)
        cur = 10**R.uniform(-3, 0.5)        # e^{-2N} / (rho/3)
        N = -0.5 * math.log(cur * (kin * V / 2 + V) / 3)
        H2 = (kin * V / 2 + V) / 3 - K * math.exp(-2 * N)
        if H2 > 0.02 * (kin * V / 2 + V) / 3:
            return N, phi, phit, H2
    raise RuntimeError('no state')

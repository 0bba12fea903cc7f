"""Interposes on scipy.integrate.solve_ivp (imported before primpy): records what reaches the integrator and can
answer with a prepared result instead of integrating."""
import inspect
import scipy.integrate
from common import *  # noqa: F401,F403

_real = scipy.integrate.solve_ivp
_sig = inspect.signature(_real)
calls = []
prepared = []          # results to hand out instead of integrating


def solve_ivp(*args, **kwargs):
    b = _sig.bind(*args, **kwargs)
    b.apply_defaults()
    a = dict(b.arguments)
    opts = a.pop('options', {})
    a.update(opts)
    calls.append(a)
    if prepared:
        return prepared.pop(0)(a)
    return _real(*args, **kwargs)


scipy.integrate.solve_ivp = solve_ivp
try:
    scipy.integrate._ivp.ivp.solve_ivp = solve_ivp
except AttributeError:
    pass

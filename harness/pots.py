"""The potentials under test: constructors, specification records and sampling ranges."""
from common import fl, np
import primpy.potentials as pp


class Pot(object):
    def __init__(self, cls, obj, rec, lo, hi, L, neg=False, tag=''):
        self.cls = cls          # implementation class name
        self.obj = obj
        self.rec = rec          # specification record
        self.lo, self.hi = lo, hi   # inflationary branch sampled
        self.L = L              # phi -> field scale
        self.neg = neg          # also defined for negative phi
        self.tag = tag


def _rec(cls, Lambda, **k):
    r = {'cls': cls, 'Lambda': fl(Lambda), 'feature': 'none'}
    r.update({a: (b if isinstance(b, str) else fl(b)) for a, b in k.items()})
    return r


def make(Lambda=1., only=None):
    """All potential classes with several parameter values each."""
    ps = []

    def add(cls, kw, rec, lo, hi, L, neg=False):
        obj = getattr(pp, cls)(Lambda=Lambda, **kw)
        tag = cls + ''.join('_%s%g' % (k, v) for k, v in sorted(kw.items()))
        ps.append(Pot(cls, obj, rec, lo, hi, L, neg, tag))

    for p in (2 / 3, 1, 4 / 3, 2, 2.5, 3, 4, 6):
        add('MonomialPotential', dict(p=p), _rec('Monomial', Lambda, p=p), 0.05, 20, lambda x: abs(x), True)
    for c, p in (('LinearPotential', 1), ('QuadraticPotential', 2), ('CubicPotential', 3), ('QuarticPotential', 4)):
        add(c, {}, _rec('Monomial', Lambda, p=p), 0.05, 20, lambda x: abs(x), True)
    add('StarobinskyPotential', {}, _rec('Starobinsky', Lambda), 0.1, 10, lambda x: 1.2)
    for phi0 in (4., 10., 30., 100.):
        add('NaturalPotential', dict(phi0=phi0), _rec('Natural', Lambda, phi0=phi0), 0.02 * phi0, 0.97 * phi0,
            lambda x, f=phi0: f / 3.)
    for phi0, p in ((10., 2), (20., 3), (15., 4), (8., 2.5), (30., 6), (12., 1.5), (25., 1)):
        add('DoubleWellPotential', dict(phi0=phi0, p=p), _rec('DoubleWell', Lambda, phi0=phi0, p=p), 0.1 * phi0,
            0.9 * phi0, lambda x, f=phi0: (f - x))
    for phi0 in (5., 12., 40.):
        add('DoubleWell2Potential', dict(phi0=phi0), _rec('DoubleWell', Lambda, phi0=phi0, p=2), 0.1 * phi0,
            0.9 * phi0, lambda x, f=phi0: (f - x))
    for phi0 in (12., 25.):
        add('DoubleWell4Potential', dict(phi0=phi0), _rec('DoubleWell', Lambda, phi0=phi0, p=4), 0.1 * phi0,
            0.9 * phi0, lambda x, f=phi0: (f - x))
    for p, a in ((1, 1.), (2, 0.5), (1, 10.), (3, 1.), (0.5, 2.), (1.5, 0.1)):
        s = (6 * a)**.5
        add('TmodelPotential', dict(p=p, alpha=a), _rec('Tmodel', Lambda, p=p, alpha=a), 0.1 * s, 4 * s,
            lambda x, s=s: min(s, abs(x)))
    for p, a in ((2, 1.), (4, 0.3), (3, 10.), (1.5, 2.), (2, 50.)):
        add('RadionGaugePotential', dict(p=p, alpha=a), _rec('RadionGauge', Lambda, p=p, alpha=a), 0.1, 8.,
            lambda x: abs(x))
    for a in (0.2, 1., 20.):
        add('RadionGauge2Potential', dict(alpha=a), _rec('RadionGauge', Lambda, p=2, alpha=a), 0.1, 8.,
            lambda x: abs(x))
    for cls, f in (('StarobinskyGaussianDipPotential', 'dip'), ('StarobinskyTanhStepPotential', 'step')):
        for pf, a, b in ((5.6, 0.05, 0.3), (4., 0.3, 0.8), (5., -0.1, 0.5)):
            add(cls, dict(phi_feature=pf, a_feature=a, b_feature=b),
                dict(_rec('Starobinsky', Lambda, phi_feature=pf, a_feature=a, b_feature=b), feature=f),
                1.0, 8., lambda x, b=b: b)
    if only:
        ps = [p for p in ps if p.cls in only]
    return ps

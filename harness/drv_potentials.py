"""P13: record potential evaluations."""
import sys
from common import *  # noqa: F401,F403
import pots

out = Recorder(sys.argv[1])
R = rng('P13')
NPT = 40 if THOROUGH else 10


def close_arr(f, xs, vals):
    a = np.asarray(f(np.array(xs)), dtype=float)
    if a.shape == ():
        a = np.full(len(xs), float(a))
    return a.shape == (len(xs),) and bool(np.allclose(a, vals, rtol=1e-8, atol=1e-12 * max(map(abs, vals)), equal_nan=True))


for Lambda in (1., 0.7, 3e-3, R.uniform(1e-4, 1e-1), 1e-9, 1e-12, 1e3) if THOROUGH else (1., R.uniform(1e-3, 1e-1), 10**R.choice([R.uniform(-12, -5), R.uniform(1, 4)])):
    for P in pots.make(Lambda):
        o = P.obj
        feature = P.rec['feature']
        xs = [float(P.lo), float(P.hi)] + [P.lo + (P.hi - P.lo) * R.random() ** 1.5 for _ in range(NPT)]
        if feature != 'none':
            xs += [o.phi_feature, o.phi_feature + 0.3 * o.b_feature, o.phi_feature - 1.7 * o.b_feature]
        if P.neg:
            xs += [-x for x in xs[:6]]
        if P.cls == 'StarobinskyPotential':
            xs += [-0.3, -1.1]
        fns = ('V', 'dV', 'd2V', 'd3V', 'd4V')
        a = attempt(lambda: {f: [float(np.asarray(getattr(o, f)(x))) for x in xs] for f in fns})
        eps = attempt(lambda: {n: [float(getattr(o, 'get_epsilon_%dV' % n)(x)) for x in xs] for n in (1, 2, 3, 4)})
        if not (a.ok and eps.ok):
            out.emit('exc', pot=P.rec, tag=P.tag, exc=a.exc + '/' + eps.exc, msg=a.msg + eps.msg)
            continue
        arr = attempt(lambda: all(close_arr(getattr(o, f), xs, a.value[f]) for f in fns) and
                      all(close_arr(getattr(o, 'get_epsilon_%dV' % n), xs, eps.value[n]) for n in (1, 2, 3, 4)))
        for i, x in enumerate(xs):
            inv = 'skip'
            if x > 0 and a.value['V'][i] > 0:
                r = attempt(lambda: float(o.inv_V(a.value['V'][i])))
                inv = fl(r.value) if r.ok else r.exc
            out.emit('point', pot=P.rec, feature=feature, cls=P.cls, tag=P.tag, phi=fl(x), L=fl(P.L(x)),
                     arr=bool(arr.ok and arr.value), inv=inv, V=fl(a.value['V'][i]),
                     dV=fl(a.value['dV'][i]), d2V=fl(a.value['d2V'][i]), d3V=fl(a.value['d3V'][i]),
                     d4V=fl(a.value['d4V'][i]), e1=fl(eps.value[1][i]), e2=fl(eps.value[2][i]),
                     e3=fl(eps.value[3][i]), e4=fl(eps.value[4][i]))
            if feature != 'none':
                g = (x, o.phi_feature, o.a_feature, o.b_feature)
                r = attempt(lambda: [float(getattr(o, f)(*g)) for f in ('F', 'dF', 'd2F', 'd3F', 'd4F')])
                if r.ok:
                    out.emit('feat', pot=P.rec, phi=fl(x), **dict(zip(('F', 'dF', 'd2F', 'd3F', 'd4F'), map(fl, r.value))))
                else:
                    out.emit('exc', pot=P.rec, tag=P.tag, exc=r.exc, msg=r.msg)
        if feature == 'none':
            for x in [10**R.uniform(-3, -1) for _ in range(4)]:
                for x in ((x, -x) if P.neg else (x,)):
                    r = attempt(lambda: [fl(float(np.asarray(getattr(o, f)(x)))) for f in fns])
                    v = r.value if r.ok else [r.exc] * 5
                    out.emit('small', pot=P.rec, cls=P.cls, tag=P.tag, phi=fl(x), L=fl(P.L(x)), **dict(zip(fns, v)))
            end = float(o.phi_end)
            for x in [end + (P.hi - end) * R.random() for _ in range(NPT)] + [P.hi]:
                r = attempt(lambda: [fl(getattr(o, 'get_epsilon_%d' % n)(x)) for n in (1, 2, 3, 4)])
                out.emit('flow', pot=P.rec, tag=P.tag, phi=fl(x), f=r.value if r.ok else [r.exc] * 4)
        r = attempt(lambda: float(o.phi_end))
        out.emit('end', pot=P.rec, feature=feature, cls=P.cls, tag=P.tag, exc=r.exc, phi_end=fl(r.value))
out.close()

ASSUMPTIONS = ["states and initial conditions are sampled (seeded), covering kinetic-, potential- and curvature-dominated ones",
               "agreement of integrated samples is judged up to integration error (1e-7 per step, 1e-5 between formulations)"]


def check(c):
    c.validate('TraceBackground', c.drive('drv_background.py', args=('rhs',)))

ASSUMPTIONS = ["points are seeded samples; reheating within 0.4% of a limit is not judged for acceptance",
               "w_reh without rho_reh_GeV, and n_s together with both, are outside the judged requests"]


def check(c):
    c.validate('TracePoint', c.drive('drv_point.py'), cfg='TracePoint.cfg', workers=8)

ASSUMPTIONS = ["field values, e-folds and amplitudes are seeded samples; constructor argument sets are enumerated"]


def check(c):
    m = c.model('MC_Ctor')
    c.validate('TraceSlowRoll', c.drive('drv_slowroll.py', args=[m['cases']]))

ASSUMPTIONS = ["crossings closer together than the recorded samples are not counted as missed; scipy's root refinement is exercised, not specified"]


def check(c):
    a = c.model('MC_Detect')
    c.validate('TraceEvents', c.drive('drv_events.py', args=(a['cases'],)))

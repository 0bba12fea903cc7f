ASSUMPTIONS = ["states are sampled (seeded) with all terms of comparable size; equality is judged relative to the natural size of each derivative"]


def check(c):
    c.validate('TraceBackground', c.drive('drv_background.py', args=('help',)))

ASSUMPTIONS = ["field values are sampled on the inflationary branch of each potential, away from its zeros"]


def check(c):
    t = c.drive('drv_potentials.py')
    c.validate('TracePotentials', t, cfg='Trace.cfg')

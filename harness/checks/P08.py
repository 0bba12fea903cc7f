ASSUMPTIONS = ["backgrounds are seeded samples of potentials, geometries and formulations"]


def check(c):
    a = c.model('MC_Calib')
    c.validate('TraceCalib', c.drive('drv_calib.py', args=('P08', a['cases'])))

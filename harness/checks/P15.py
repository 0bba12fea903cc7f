ASSUMPTIONS = ["density parameters, h and e-folds are seeded samples; units and quantities are enumerated"]


def check(c):
    m = c.model('MC_BigBang')
    c.validate('TraceBigBang', c.drive('drv_bigbang.py', args=['P15', m['cases']]))

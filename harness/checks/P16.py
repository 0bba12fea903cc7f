ASSUMPTIONS = ["intervals, densities and backgrounds are seeded samples"]


def check(c):
    c.model('MC_BigBang')
    c.validate('TraceBigBang', c.drive('drv_bigbang.py', args=['P16']))

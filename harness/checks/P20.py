ASSUMPTIONS = ["which parameters are given is enumerated; their values are seeded samples"]


def check(c):
    m = c.model('MC_Sampler')
    c.validate('TraceSampler', c.drive('drv_sampler.py', args=[m['cases']]))

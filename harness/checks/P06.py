ASSUMPTIONS = ["requests are enumerated in their discrete structure; field values, sizes and densities are seeded"]


def check(c):
    a = c.model('MC_Initial')
    c.validate('TraceInitial', c.drive('drv_initial.py', args=(a['cases'],)))

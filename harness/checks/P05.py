ASSUMPTIONS = ["histories are those a universe with up to 3 transitions can produce under every set of trackers; the states at the marks are seeded"]


def check(c):
    a = c.model('MC_Classify')
    c.validate('TraceClassify', c.drive('drv_classify.py', args=(a['cases'],)))

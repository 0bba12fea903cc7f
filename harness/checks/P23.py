ASSUMPTIONS = ["the objects of each family are representatives: pairs that differ in one parameter, in order, in type"]


def check(c):
    n = c.model('MC_Session')
    c.validate('TraceHistory', c.drive('drv_session.py', args=[n['cases']]))

ASSUMPTIONS = ["the numbers used by each operation are representatives; a few backgrounds per run"]


def check(c):
    m = c.model('MC_History')
    c.validate('TraceHistory', c.drive('drv_history.py', args=[m['cases']]))

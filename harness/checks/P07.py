ASSUMPTIONS = ["profiles of three segments across the bracket; real searches are seeded; a search that exceeds its time budget is not judged"]


def check(c):
    a = c.model('MC_Shoot')
    c.validate('TraceShooting', c.drive('drv_shoot.py', args=(a['cases'],)))

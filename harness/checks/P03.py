ASSUMPTIONS = ["the dynamics used to tell components apart are synthetic (sinusoids); events and options are enumerated by the model, numbers are seeded"]


def check(c):
    a = c.model('MC_Solution')
    b = c.model('MC_Options')
    c.validate('TraceSolution', c.drive('drv_solution.py', args=(a['cases'], b['cases'])))

ASSUMPTIONS = ["backgrounds, wavenumbers and points are seeded samples"]


def check(c):
    c.model('MC_Modes', workers=8)
    c.validate('TraceModes', c.drive('drv_modes.py', args=['P18']))

ASSUMPTIONS = ["backgrounds, pivots and wavenumbers are seeded samples; e4 = 0 in the third order of ARBDS as in the code"]


def check(c):
    c.model('MC_Spectra')
    c.validate('TraceSpectra', c.drive('drv_spectra.py'))

import os

ASSUMPTIONS = ["request lists are enumerated (quick: a seeded subset is replayed); wavenumbers and backgrounds are seeded",
               "runs in which the oscillator library does not return within its time limit are not judged"]


def check(c):
    m = c.model('MC_Pipeline')
    c.validate('TracePipeline', c.drive('drv_pipeline.py', name='stub', args=['stub', m['cases']]))
    spectra = os.path.join(c.work, 'spectra.ndjson')
    c.validate('TracePipeline', c.drive('drv_pipeline.py', name='real', args=['real', spectra], oscode=True))
    c.validate('TraceSpectrum', spectra, cfg='TraceSpectrum.cfg', workers=8)

ASSUMPTIONS = ["versions have numbers 0, 1, 2, 9, 10 and pre-release numbers 0, 1",
               "whether a pre-release series may skip to a far larger base is not laid down",
               "the tools run in scratch repositories with git, sed and grep of the sandbox"]


def check(c):
    m = c.model('MC_Release')
    c.validate('TraceRelease', c.drive('drv_release.py', args=[m['cases']]))

TT = 'TLA+ trace validation with TLC: '
SMP = 'Every recorded event is judged by the specification; the real-valued inputs are sampled (seeded), not enumerated.'
NOTE['P01'] = (TT + 'recorded right-hand sides and integrated backgrounds against the Friedmann/Klein-Gordon transition system', SMP)
NOTE['P02'] = (TT + 'recorded derivative helpers against Taylor series of the flow computed in the specification', SMP)
NOTE['P03'] = ('TLC enumerates variable sets, event tables and option sets; each is replayed through the real projection, recorded and validated by TLC', 'Layouts, event tables and option sets are enumerated to the bounds of MC_Solution/MC_Options; numbers in the arrays are seeded.')
NOTE['P05'] = ('TLC enumerates the event histories a universe can produce and checks the classification against ground truth; each history is replayed into the real post-processing and validated by TLC', 'Histories up to 3 transitions under every tracker set; states at the marks are seeded.')
NOTE['P13'] = (TT + 'recorded potential evaluations against V written once as a Taylor series',
  'Every evaluated point is judged against the exact derivatives of the specified potential; field values and parameters are sampled (seeded), not enumerated.')
NOTE['P04'] = ('TLC checks the crossing-detection rule over every history of signs and emits the histories; they are replayed through the real trackers, and recorded root functions, names, flags and event tables are validated by TLC', 'Sign histories up to length 6 are enumerated; states and integrations are seeded.')
NOTE['P06'] = ('TLC enumerates every kind of request and its outcome; each is made to the real builders up to the integrator and the recorded state is validated by TLC', SMP)
NOTE['P07'] = ('TLC enumerates every profile of outcomes across a bracket and states when a search must succeed or fail; each is answered in place of the integrator and the recorded search is validated by TLC', 'Profiles of three segments over twelve kinds are enumerated (quick: a seeded subset is replayed); real searches are seeded.')
NOTE['P08'] = ('TLC checks the calibration decision table; recorded calibrations of real backgrounds are validated by TLC against the placement of the pivot, the calibration identities and a re-integration around the crossing', SMP)
NOTE['P09'] = ('TLC enumerates every combination of geometry, method and arguments (111 600) and its set of admissible outcomes; the combinations are made to the real calibration and each outcome is validated by TLC', 'Argument combinations are enumerated (quick: all served ones up to 700 and a seeded subset of the refused ones; thorough: all); the numbers used are representatives.')
NOTE['P10'] = ('TLC validates recorded calibrations against entropy conservation and the dilution of the reheating fluid, and that equivalent requests give one history', SMP)
NOTE['P12'] = ('TLC checks that the specified series of all methods expand one function (order by order); recorded approximate spectra of finely sampled real backgrounds are validated by TLC against those series at parameters the specification derives itself', SMP)
NOTE['P11'] = ('TLC enumerates every sequence of calibrations (also refused ones), queries, spectrum selections, tilt settings and background copies; each is replayed on one real solution, compared with a fresh solution, and the recorded behaviour validated by TLC', 'Histories up to length 3 over 20 operations (quick: seeded subset of length-3 histories); the numbers used are representatives.')
NOTE['P14'] = ('TLC enumerates every set of constructor arguments of every class and what it must lead to; recorded constructions, slow-roll maps and observables are validated by TLC against the attractor integrated in the specification', 'Argument sets are enumerated; field values, e-folds and amplitudes are seeded samples.')
NOTE['P15'] = ('TLC follows universes step by step to a zero of the Hubble rate and checks the specified fate of each; recorded Hubble rates, horizons, boundaries and constants are validated by TLC against that specification', 'Quantities and units are enumerated; densities, h and e-folds are seeded samples.')
NOTE['P16'] = (TT + 'recorded conformal times and ratios against the integral of the specified comoving horizon, in one calibration', SMP)
NOTE['P17'] = ('TLC follows modes along inflation with the constraint system and with the second-order equation eliminated from it and checks they agree; recorded frequencies and dampings are validated by TLC against that elimination in both formulations', SMP)
NOTE['P18'] = (TT + 'recorded vacuum states, and spectra combined from arbitrary pairs of solutions, against the canonically normalised vacua of the specified modes', SMP)
NOTE['P19'] = ('TLC enumerates every request (wavenumbers, order, repetition, vacua, dropping) and its admissible answer; each is made to the real solver over a recording stand-in for the oscillator and validated by TLC; spectra of the real oscillator are validated against modes TLC evolves step by step', 'Requests are enumerated up to three wavenumbers (quick: a seeded subset is replayed); backgrounds and wavenumbers are seeded.')
NOTE['P20'] = ('TLC enumerates every combination of given and left-out parameters of every spectrum (12 096) and its outcome; each is asked of the real theory as a sampler would, and the delivered tables are validated by TLC', 'Presence combinations are enumerated (quick: a seeded subset of 3000 is replayed, thorough: all); parameter values are seeded.')
NOTE['P21'] = ('TLC follows the inflation of each sampled model step by step, derives pivot, reheating and verdict of every requested point from it, and validates the recorded answers of the real theory against them', 'Models and points are seeded samples; every point is judged against a trajectory the specification evolves itself.')
NOTE['P22'] = ('TLC enumerates 875 versions, checks every step a maintainer can take against the successor relation and judges the real tools on all pairs of releases; bumps and the branch gate run in scratch repositories and are validated by TLC', 'Version numbers 0, 1, 2, 9, 10 with pre-releases; all pairs of releases (thorough: all pairs).')
NOTE['P23'] = ('TLC enumerates every sequence of creations, questions and runs over pairs of similar objects; each is replayed in one process of the real library, every answer compared with that of a fresh process, and the recorded behaviour validated by TLC', 'Sequences of bounded length over representative objects (quick: seeded subset of the longest ones).')

"""Generates /verif/properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0] if len(files) == 1 else ", ".join(files)}
                                     for m in mech.split(", ")]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

prop("P01", "Every background solution obeys the Friedmann and Klein-Gordon equations",
 "For any potential, curvature and choice of independent variable, the right-hand sides that are integrated, and every sample of a returned background, satisfy the Friedmann, Raychaudhuri and Klein-Gordon equations together with dt/dN=1/H and d(eta)/dN=1/(aH) for tracked times. "
 "The reported Hubble rate, comoving Hubble rate, curvature density, equation of state and inflation indicator are the functions of that same state that their names say, so the indicator is positive exactly when w<-1/3 and vanishes exactly when w=-1/3. "
 "A solution in cosmic time and one in e-folds started from the same state describe the same universe.",
 ["inputs", "configurations"], "all potentials x K in {-1,0,+1} x {cosmic time, e-folds} x tracked variables x phase-space points, including kinetic-dominated and curvature-dominated ones",
 "Tests integrate a handful of fixed initial conditions and compare T and N solutions loosely (rtol 1e-2..1e-4) on slow-roll trajectories, where the kinetic and curvature terms are negligible.",
 ["primpy/inflation.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"],
 "InflationEquationsT/N.__call__, H2, w, inflating, InflationEquations.sol",
 [("phi, dphi, N, K", "background state"), ("H, _logaH, Omega_K, w", "derived series on a solution")])

prop("P02", "Hubble-rate and field derivative helpers are exact derivatives of the flow",
 "At every background state, the helpers for the first to third derivatives of the Hubble rate and the second to fourth derivatives of the inflaton return the exact derivatives (in the formulation's own variable) of the solution of the background equations through that state, for flat and curved universes. "
 "The Hubble-flow parameters, in both supported conventions, and the field-acceleration parameters have the same value whether computed in cosmic time or in e-folds, and equal their definitions as logarithmic derivatives.",
 ["inputs", "configurations"], "all phase-space points, potentials, K in {-1,0,+1}, both formulations, both epsilon conventions",
 "Tests compare the two formulations along two or three slow-roll trajectories, with tolerances that hide curvature and higher-order terms; several helpers are never compared for curved universes.",
 ["primpy/inflation.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"],
 "get_dH, get_dH_H, get_d2H, get_d3H, get_d2phi, get_d3phi, get_d4phi, get_epsilon_{1,2,3}H, get_delta_{1,2,3}")

prop("P03", "Solution records project the integrator's output faithfully by name",
 "Each named variable of a solution (and of the equations object) is exactly its own component of the integrated state, the independent variable appears both under its own name and generically, and distinct variables never share a component. "
 "Each requested event appears under its own name with its own crossing points and the state at those crossings, in every per-variable event table, an event with no crossings giving an empty entry. "
 "Integrator options given by the user reach the integrator unchanged and the documented default method and tolerances apply otherwise.",
 ["inputs", "configurations", "histories"], "all sets/orders of variables, all event lists (including none, several of one kind, and events that never fire), all option combinations",
 "Tests look up one or two variables and events on fixed set-ups.",
 ["primpy/equations.py", "primpy/solver.py", "primpy/events.py"],
 "Equations.add_variable/idx/sol, solver.solve", [("idx", "name to component map"), ("x_events, y_events, <name>_events", "event tables")])

prop("P04", "Events fire exactly at the physical crossings they are named for",
 "Every event's root function vanishes exactly at the crossing it describes (given time, given e-folds, start or end of inflation, equation of state w, vanishing squared Hubble rate, field zero, mode exit at given comoving wavenumber) shifted by its offset, and has the sign that makes its direction mean what it says. "
 "Its direction and terminal flags are those requested and its name identifies kind, direction and terminal flag so that inflation, after-end, field-zero and mode-exit trackers of different configuration never share a name. "
 "A start/end-of-inflation tracker told the starting time never fires spuriously there.",
 ["inputs", "configurations"], "all event classes x directions x terminal x offsets x states on both sides of the crossing x K x formulation",
 "Tests call each event at one state with default offsets.",
 ["primpy/events.py"], "Event.__call__, Event.name")

prop("P05", "Inflation start and end are classified correctly from the event history",
 "From any event history, the reported start of inflation is undefined if the universe collapsed, the initial point if it inflates there, the first transition into inflation otherwise, and undefined (with a warning only on request) if there is none. "
 "The reported end is the first tracked transition out of inflation (terminal tracker first), undefined (with a warning only on request) if none was tracked, and field, potential, Hubble rate and comoving Hubble rate at start and end all belong to that same point. "
 "The total number of e-folds is end minus start, and the inflating portion of the solution is exactly the samples strictly between them.",
 ["histories", "inputs", "configurations"], "all combinations of fired/unfired/untracked trackers, collapse, initial phase, orders and multiplicities of crossings, verbosity, formulation, K",
 "The existing tests integrate a few trajectories and only check that warnings are emitted; multiple crossings, collapse after inflation, untracked directions and the terminal/non-terminal precedence are not reached.",
 ["primpy/inflation.py", "primpy/exceptionhandling.py"],
 "postprocessing_inflation_start/_end, InflationEquations.sol, InflationStartWarning/InflationEndWarning",
 [("_N_beg, _N_end, N_tot, inflation_mask", "phase boundaries")])

prop("P06", "Initial-condition builders produce the state they promise or refuse",
 "Slow-roll initial conditions start on the slow-roll attractor of the Friedmann equation, and start-of-inflation initial conditions start exactly at w=-1/3 with the requested size or requested curvature density, in either formulation and for every curvature; the missing one of size and curvature density is derived consistently. "
 "The initial state vector handed to the integrator has every tracked variable in its own slot with the advertised value, and integration starts and ends at the advertised points. "
 "Contradictory or unphysical requests (both or neither of size and curvature density, curvature sign not matching the geometry, curvature too large to start inflating) are refused with the documented error instead of producing a state.",
 ["inputs", "configurations"], "all potentials, field values, sizes, curvature densities, K, formulations, tracked variables",
 "Tests check a few fixed values, mostly flat, and only some of the refusals.",
 ["primpy/initialconditions.py"], "SlowRollIC, InflationStartIC")

prop("P07", "Shooting initial conditions hit the requested target or raise",
 "Whenever the initial-condition search for a total number of e-folds succeeds, integrating from it inflates for exactly the requested number of e-folds, within solver tolerance; whenever the search for a number of e-folds after horizon crossing with given present-day curvature succeeds, calibrating the integrated solution to that curvature yields exactly that number. "
 "The search chooses nothing but the initial field value: size or curvature, tracked times and the onset of inflation are those of the request. "
 "If the target cannot be reached in the given bracket the search raises one of the package's documented errors rather than returning an arbitrary state or failing with an unrelated error.",
 ["inputs", "configurations"], "all reachable and unreachable targets, brackets, potentials, K, formulations, size- or curvature-specified starts",
 "Tests shoot for one or two targets per class and do not exercise unreachable targets.",
 ["primpy/initialconditions.py"], "ISIC_Nt, ISIC_NsOk")

prop("P08", "Calibration pins the pivot scale and keeps all scale factors consistent",
 "After every successful calibration the calibrated e-folds are the raw ones plus one constant for every sample and every marked instant, the pivot scale crosses the Hubble horizon exactly at the reported crossing, and the e-folds before and after crossing add up to the total. "
 "Wavenumbers, comoving Hubble horizons and today's scale factor then follow from that constant in mutually consistent units, for curved universes with today's curvature density tied to today's scale factor and Hubble parameter. "
 "A pivot scale outside the inflating range is refused as insufficient inflation.",
 ["inputs", "histories", "configurations"], "all backgrounds x calibration methods x parameter values, flat, open and closed",
 "Tests compare a few numbers for a few parameter choices; the identities must hold for every calibration.",
 ["primpy/inflation.py"], "calibrate_scale_factor", [("delta_N_calib, _N_cross, _logaH_star, a0, a0_Mpc, N0, logk, k_iMpc, cHH_Mpc", "calibration record")])

prop("P09", "Calibration accepts exactly the consistent argument combinations",
 "For every combination of geometry, calibration method and supplied parameters, calibration either performs the documented mode or refuses with the documented error class; under- or over-determined reheating, wrong-sign curvature, non-positive Hubble parameter, missing or impossible pivot e-folds, unknown methods and mismatching reference backgrounds are never silently accepted. "
 "The test for instantaneous reheating accepts exactly the combinations that describe it and refuses the inconsistent ones.",
 ["inputs", "configurations"], "every presence/absence/value-class combination of the calibration parameters, for flat, open and closed universes",
 "Tests sample about a dozen of the several thousand combinations.",
 ["primpy/inflation.py", "primpy/reheating.py"], "calibrate_scale_factor, is_instant_reheating")

prop("P10", "Reheating quantities obey energy and entropy conservation in every mode",
 "In every calibration mode that determines reheating, the reheating energy density, duration and equation of state satisfy rho_reh = (3/2) V_end exp(-3(1+w)DeltaN), the reheating correction to the pivot equals DeltaN(1-3w)/4, and the end of reheating satisfies entropy conservation to today's temperature and degrees of freedom. "
 "Re-expressing one reheating history through any other supported pair of parameters gives the same calibration, in flat and curved universes, and quantities a mode leaves undetermined are reported as undefined rather than as numbers.",
 ["inputs", "configurations"], "all reheating parametrisations and values, flat, open and closed",
 "Tests cross-check selected pairs at selected values, and the curved density-plus-equation-of-state mode only where duration does not matter.",
 ["primpy/inflation.py", "primpy/reheating.py"], "reheating branches of calibrate_scale_factor")

prop("P11", "A calibration's outcome does not depend on earlier calls on the same solution",
 "After any sequence of calibrations, spectrum queries and spectral-index settings on a solution, every reported quantity and every spectrum query equals what a fresh solution gives after only the last successful calibration (and spectrum selection). "
 "Refused calibrations and queries never change reported quantities, and calibrating again with the same arguments changes nothing.",
 ["histories"], "all sequences of calibrate / query / set operations on one solution object",
 "Every test uses each solution once or in one fixed order; state carried across calls only shows in sequences.",
 ["primpy/inflation.py"], "calibrate_scale_factor, derive_approx_power, P_s_approx, P_t_approx, set_ns",
 [("P_*_approx_* closures, logk2logP_*", "cached spectra on the solution")])

prop("P12", "Approximate spectra implement the published expansions and their pivot values",
 "Each slow-roll approximation returns, at each wavenumber, the published series for that method and order evaluated from the exact Hubble-flow or field-acceleration parameters of the background, and the lower orders of different methods agree with one another to their truncation order. "
 "Amplitudes, tilts, runnings and tensor-to-scalar ratio reported after calibration are value and logarithmic derivatives at the pivot of the spectrum of the selected method and order. "
 "Setting the scalar tilt yields that tilt or raises, and works for flat universes only. "
 "Outside the range of scales a spectrum is what the interpolation options ask for, scalar and tensor alike.",
 ["inputs", "configurations"], "all backgrounds x methods x orders x wavenumbers",
 "Tests compare methods to each other at percent level for two potentials, so a wrong higher-order coefficient goes unnoticed.",
 ["primpy/inflation.py"], "derive_approx_power_{CGS,LLMS,STE,ARBDS}, P_s_approx, P_t_approx, set_ns")

prop("P13", "Potentials: derivatives, inverse and slow-roll parameters all match V",
 "For every potential and admissible parameter and field value, the first to fourth derivatives are the derivatives of the potential, the inverse maps each potential value back to its field value on the inflationary branch, and the potential slow-roll parameters equal their definitions from those derivatives, the Hubble-flow parameters inferred from them those of the slow-roll attractor to the order used. "
 "The reported field at the end of inflation is where the first slow-roll parameter equals one, and adding a feature multiplies the base potential by the feature in every derivative.",
 ["inputs", "configurations"], "all potential classes x parameters x field values (both signs where defined)",
 "Tests use finite differences at a few points with loose tolerance and skip feature potentials' higher derivatives.",
 ["primpy/potentials.py"], "V, dV, d2V, d3V, d4V, inv_V, get_epsilon_nV, phi_end of every class")

prop("P14", "Slow-roll maps and potential amplitude are mutually consistent",
 "The maps from field value to remaining e-folds and back are inverse to each other, vanish at the end of inflation and have slope V/V'; those between remaining e-folds and spectral index or tensor ratio are inverse to each other where both are offered. "
 "A potential built for a given scalar amplitude has exactly the amplitude that yields it at leading slow-roll order at the given field value or e-folds; contradictory, insufficient or unknown parameters are refused.",
 ["inputs", "configurations"], "all potential classes x parameters x field values / e-folds / observables",
 "Tests check a few round trips at single values with loose tolerance.",
 ["primpy/potentials.py"], "sr_phi2N, sr_N2phi, sr_Nstar2ns, sr_ns2Nstar, sr_Nstar2r, sr_r2Nstar, sr_As2Lambda, constructors")

prop("P15", "Standard Big Bang: Hubble rate, horizon and curvature agree in all units",
 "Today's Hubble parameter, its inverse horizon and today's scale factor agree across unit systems, curvature, matter, radiation and dark energy densities sum to one, and the Hubble rate and comoving Hubble horizon at any scale factor satisfy the Friedmann equation for those densities with radiation fixed by the CMB temperature. "
 "The curvature-domination, no-Big-Bang and expansion boundaries in parameter space, and the e-fold of nucleosynthesis, satisfy their defining equations. "
 "Models without a Big Bang or with unphysical parameters are refused or warned about exactly when they are unphysical.",
 ["inputs", "configurations"], "all density parameters, h, units, scale factors",
 "Tests evaluate one or two parameter sets.",
 ["primpy/bigbang.py", "primpy/units.py", "primpy/parameters.py"], "get_H0, get_a0, get_N_BBN, Hubble_parameter, comoving_Hubble_horizon, no_Big_Bang_line, expansion_of_universe boundary functions")

prop("P16", "Conformal time is additive, equals its integral, and ratios use one gauge",
 "Elapsed conformal time between two scale factors equals the integral of the comoving Hubble horizon over e-folds, is additive over adjacent intervals, antisymmetric under exchange and independent of unit choice. "
 "The conformal time available before versus after the end of inflation is compared in one common calibration of the scale factor, for flat as well as curved universes.",
 ["inputs", "configurations"], "all intervals, densities, h, backgrounds",
 "Tests compare two fixed integrals and check the ratio only for finiteness or a single curved case.",
 ["primpy/bigbang.py"], "conformal_time, conformal_time_ratio")

prop("P17", "Mode equations agree between formulations and reduce to Mukhanov-Sasaki",
 "At every background point and wavenumber the squared frequency and damping handed to the oscillator for scalar and tensor modes are those of the (curved) Mukhanov-Sasaki and tensor equations, in both formulations, so the two are related by the change of variable. "
 "For flat universes they reduce to the textbook flat equations.",
 ["inputs", "configurations"], "all backgrounds, K, wavenumbers, formulations, scalar and tensor",
 "Tests compare final spectra of both formulations at 1e-3 or so for a few modes; terms suppressed in slow roll or by small curvature are invisible.",
 ["primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"],
 "CurvaturePerturbationT/N, ScalarMode*/TensorMode* mukhanov_sasaki_frequency_damping")

prop("P18", "Vacuum initial conditions and power-spectrum normalisation are formulation-free",
 "For each supported vacuum the mode's initial value and derivative satisfy that vacuum's definition (canonical Wronskian normalisation with the background at the initial instant) and describe the same physical state in both formulations. "
 "The final spectrum is the normalised squared modulus of that linear combination of the two integrated solutions which matches the vacuum's initial value and derivative, with the standard scalar and tensor prefactors including two tensor polarisations, so it does not depend on the basis of initial conditions used to integrate.",
 ["inputs", "configurations"], "all backgrounds, K, wavenumbers, vacua, formulations, integration bases",
 "Tests check approximate agreement of final spectra on a few cases.",
 ["primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"],
 "get_vacuum_ic_*, Perturbation/Mode.oscode_postprocessing")

prop("P19", "Each wavenumber of a spectrum is solved independently and reported in place",
 "Each requested wavenumber's result is the result of solving that mode alone: it depends neither on the other wavenumbers in the request nor on their order, and is reported at the position of its wavenumber, scalar and tensor alike. Requested initial values and tolerance reach every solution that is integrated. "
 "Integration of a mode starts and ends at the requested epochs relative to its horizon crossing (or start/end of inflation), a mode that never was that far inside the horizon is started with the background, a request whose background does not reach far enough outside the horizon is refused rather than reported unfrozen, and for closed universes the unphysical largest scales are dropped to negligible power in every requested vacuum when asked.",
 ["inputs", "configurations", "histories"], "all wavenumber lists, vacua, epoch options, backgrounds",
 "Tests compute spectra for fixed sorted wavenumber arrays.",
 ["primpy/oscode_solver.py", "primpy/perturbations.py"], "solve_oscode")

prop("P20", "Cobaya wrapper spectra match the primordial power-law and feature definitions",
 "The power-law and feature theory wrappers deliver, for any parameter values, exactly the defined spectrum: power law with running about the pivot times the configured oscillation or cut-off (which modulates scalars and tensors alike), with tensors following r or the inflationary consistency relation. "
 "Optional parameters that are left out take their neutral values, and inconsistent combinations of tensor parameters are refused.",
 ["inputs", "configurations"], "all parameter values and presence combinations, all feature kinds",
 "There are no tests of the wrappers.",
 ["cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py"], "PowerLawPPS.calculate, feature classes")

prop("P21", "Slow-roll sampler wrapper reports a self-consistent inflation model",
 "Whenever the slow-roll theory wrapper accepts a parameter point, the spectra and derived parameters it delivers belong to one background whose scalar amplitude equals the requested one and whose reheating satisfies the stated relations; unphysical points (reheating hotter than the end of inflation, or reheating outside its allowed range, or no viable pivot) are rejected rather than reported, and physical ones are not rejected.",
 ["inputs", "configurations"], "all sampled amplitudes, pivot e-folds, reheating densities, potentials",
 "There are no tests of the wrapper.",
 ["cobaya_wrapper/slowroll_pps.py"], "SlowRollPPS.calculate")

prop("P22", "Release tooling accepts exactly single-step version increments",
 "A release version is a valid successor of another exactly when one of major, minor and patch is raised by one with all lower parts reset to zero and all higher parts unchanged; a pre-release series starts at zero on a raised base, counts up by one or moves to a later stage at zero, and ends in the release of its base; the bump tool produces precisely such a successor in every file that carries the version and no other change.",
 ["inputs", "configurations"], "all pairs of release-version triples and all bump kinds",
 "The test only compares the current version with the previous commit.",
 ["bin/utils.py", "bin/bump_version.py", ".github/workflows/check_version.py", "primpy/__version__.py"], "unit_incremented, bump")

prop("P23", "Objects answer from what they were made of, whatever else a session does",
 "Potentials, equations, event trackers, initial conditions and their searches, backgrounds, perturbations, universes and sampler theories answer from what they were constructed with alone. "
 "Making, asking, solving or calibrating other objects in the same session, however similar, does not change what an object reports; objects handed to another (a potential, equations, initial conditions, trackers) come out of it unchanged and can be handed over again; "
 "asking the same question again gives the same answer, equal to that of a process which asked nothing else.",
 ["histories"], "all sequences of creations, questions and runs over pairs of similar objects in one process",
 "A test builds its objects afresh; caches, defaults and arguments shared between objects only show when several live in one process and are used in some order.",
 ["primpy/potentials.py", "primpy/equations.py", "primpy/events.py", "primpy/initialconditions.py", "primpy/solver.py", "primpy/inflation.py", "primpy/perturbations.py", "primpy/oscode_solver.py", "primpy/bigbang.py", "cobaya_wrapper"],
 "constructors; methods of every class; solve; solve_oscode; must_provide/calculate of the theories",
 [("module-level and class-level state", "defaults, caches and objects shared between instances")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))

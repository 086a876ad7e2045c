#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PL = "src/core_astro/propagate_lagrangian.cpp"
prop("C01", "Kepler propagation lands on the right point of the same orbit, always",
 "Propagating a Cartesian state for a signed time of flight returns the state of the same Kepler orbit whose mean anomaly has advanced by exactly mean motion times that time, for ellipses and hyperbolae, forwards and backwards, over any number of revolutions and in any consistent system of units. "
 "Any sequence of such propagations ends where one propagation by the summed time would, and a sum of zero returns to the start.",
 ["inputs", "histories"],
 "every non-rectilinear, non-parabolic state (0<=e<=0.999 or 1.001<=e<=20, any orientation and length/time scale), every signed time of flight, every sequence of legs",
 "propagate_lagrangian_test and propagate_keplerian_test compare against a second in-house propagator or against its inverse on uniformly random states near unit scale, so a fault shared by both, or confined to a regime (near-parabolic, exact apse, long arc, other units, negative hyperbolic arc), passes.",
 [PL, "include/kep3/core_astro/kepler_equations.hpp", "include/kep3/core_astro/special_functions.hpp"],
 [("Lagrange coefficients from the eccentric/hyperbolic anomaly difference", PL + ": propagate_lagrangian"),
  ("Kepler equations in DE, DH and their derivatives", "include/kep3/core_astro/kepler_equations.hpp")],
 [("mean anomaly", "phase of the craft along its orbit, counted in ticks"), ("revolutions", "whole turns completed")],
 ["return of propagate_lagrangian"])

prop("C02", "Every propagator and its vectorised form describe one and the same motion",
 "The Lagrange-coefficient, universal-variable and element-based propagators all return the same final state for the same initial state, signed time of flight and gravitational parameter, within the precision each documents or attains, and may be freely interleaved on one trajectory. "
 "The vectorised propagator returns, for each entry of its time grid and in order, exactly what a separate call would return, with the state transition matrix present exactly when it was requested.",
 ["inputs", "histories"],
 "every state and time of flight as in C01 (the element-based one on inclined non-circular orbits), every interleaving of the propagators, every time grid including empty, unsorted, repeated and negative entries",
 "tests draw states near unit semi-major axis, and the vectorised form is compared on a single grid; the universal-variable propagator silently returned wrong states for any |a| far from one until fixed here.",
 [PL, "src/core_astro/ic2par2ic.cpp", "include/kep3/core_astro/convert_anomalies.hpp"],
 [("universal variables", PL + ": propagate_lagrangian_u"), ("element based", PL + ": propagate_keplerian"),
  ("vectorised", PL + ": propagate_lagrangian_v")], None, ["returns of the four propagators"])

prop("C03", "State transition matrices are the tangent map of the motion",
 "Both state-transition-matrix algorithms return the derivative of the final state with respect to the initial state along the propagated arc: moving the initial state within its own orbit moves the final state likewise, changing the orbit's shape or orientation changes the final orbit likewise, and a change of semi-major axis shears the phase in proportion to the elapsed time. "
 "The matrices of consecutive arcs multiply to the matrix of the whole, a zero arc gives the identity, and going back inverts it; asking for the matrix never changes the returned state.",
 ["inputs", "histories"],
 "every elliptic or hyperbolic state, every signed arc (less or more than one revolution), every sequence of arcs, both algorithms",
 "stm_test checks the identity STM(2->0)*STM(1->2)=STM... and numerical agreement of the two in-house algorithms on random unit-scale states only; it has no independent derivative, and no hyperbolic/negative-time/multi-revolution split.",
 ["src/core_astro/stm.cpp", PL, "include/kep3/linalg.hpp", "src/linalg.cpp"],
 [("differentiated Lagrange coefficients", "src/core_astro/stm.cpp: stm_lagrangian"), ("Reynolds' closed form", "src/core_astro/stm.cpp: stm_reynolds, _compute_Y")],
 [("tangent", "first-order displacement expressed in orbital elements and phase")], ["matrices returned by propagate_lagrangian(stm=true), stm_reynolds, propagate_stm_reynolds"])

prop("C04", "Cartesian and classical elements describe the same orbit, in the right quadrants",
 "Converting a Cartesian state to classical elements yields the semi-major axis (negative for hyperbolae), eccentricity, inclination in [0,pi], and node, pericentre and true anomaly in [0,2pi] of that very orbit in the right quadrant, including at exact apses, nodes and axis-aligned geometries, and converting back returns the state. "
 "Converting elements to Cartesian is exact for every sign and winding of the angles, and refuses (with a domain error) elements whose semi-major axis and eccentricity disagree or whose true anomaly lies beyond the asymptotes, and no others.",
 ["inputs"],
 "every inclined, eccentric, non-parabolic orbit and every position on it, with particular weight on multiples of 90 degrees in each angle; every element set for the inverse and for the refusals",
 "ic2par2ic_test checks a few hand-picked states and random round trips that never hit an aligned geometry (exact apses returned NaN until fixed here), and a consistent error in both directions cancels in a round trip.",
 ["src/core_astro/ic2par2ic.cpp"], [("ic2par", "src/core_astro/ic2par2ic.cpp"), ("par2ic", "src/core_astro/ic2par2ic.cpp")],
 [("orbit", "shape, orientation (degrees), phase")], ["returns and exceptions of ic2par, par2ic"])

prop("C05", "Equinoctial, Cartesian and classical elements agree, direct and retrograde",
 "Conversions between Cartesian states, classical elements and modified equinoctial elements (direct and retrograde variant) commute: following any chain of conversions from one representation leads to the same orbit and position, for ellipses and hyperbolae, including circular and equatorial orbits where the equinoctial set stays regular. "
 "Classical elements obtained from equinoctial ones have inclination in [0,pi] and node and pericentre in [0,2pi].",
 ["inputs", "histories"],
 "every non-parabolic orbit away from the variant's own singularity (inclination pi for direct, 0 for retrograde), every chain of conversions among the representations, both variants",
 "ic2eq2ic_test and eq2par2eq_test are round trips of random elements and a few points; errors that cancel in a round trip, quadrant errors and the mixed chains Cartesian->equinoctial->classical->Cartesian are not settled.",
 ["src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/ic2par2ic.cpp"],
 [("ic2eq/eq2ic", "src/core_astro/ic2eq2ic.cpp"), ("eq2par/par2eq", "src/core_astro/eq2par2eq.cpp")], None, ["returns of the conversion functions"])

prop("C06", "Anomaly conversions are mutually consistent and keep quadrant and domain",
 "Mean, eccentric, true, hyperbolic-mean, hyperbolic and Gudermannian anomalies are converted into one another consistently: every chain of conversions between the same two anomalies gives the same point on the orbit, inverse pairs are inverses up to whole revolutions, results are monotone within a revolution and lie in the same half of the orbit as the argument. "
 "Conversions that do not exist for the given eccentricity return NaN.",
 ["inputs", "histories"],
 "every eccentricity in [0,1) and (1,20], every argument including multiples of pi, negative ones and thousands of revolutions, every chain of conversions",
 "convert_anomalies_test checks inverse pairs on uniformly random eccentricities and one revolution; e2f(f2e(x)) style identities hide errors that cancel and do not pin quadrants, large arguments or domain edges.",
 ["include/kep3/core_astro/convert_anomalies.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
 [("m2e/e2m/e2f/f2e/m2f/f2m/n2h/h2n/h2f/f2h/n2f/f2n/zeta2f/f2zeta", "include/kep3/core_astro/convert_anomalies.hpp")], None, ["return values"])

LB = "src/lambert_problem.cpp"
prop("C07", "Every Lambert solution really flies from r0 to r1 in the given time",
 "Each pair of terminal velocities returned for a Lambert problem belongs to one Kepler arc that leaves the first position with the first velocity, arrives at the second position with the second velocity after exactly the time of flight, turning prograde (about +z) or retrograde as requested, and completing the number of whole revolutions of its slot: none in slot 0, N in slots 2N-1 and 2N. "
 "This holds for elliptic, parabolic and hyperbolic arcs, transfer angles above and below 180 degrees, out-of-plane geometry and any consistent units.",
 ["inputs"],
 "every pair of non-collinear positions whose transfer plane is not polar, every positive time and gravitational parameter, both directions, every requested number of revolutions",
 "lambert_problem_test propagates the solutions of random planar-ish geometries with an absolute tolerance averaged over many problems and never checks the revolution count or the sense of motion of a slot.",
 [LB], [("time-of-flight equation, Householder iterations, velocity reconstruction", LB + ": lambert_problem::lambert_problem, x2tof, x2tof2, householder")],
 None, ["get_v0, get_v1, get_Nmax"])
prop("C08", "The Lambert solver finds every solution that exists, each exactly once, in order",
 "For a Lambert problem with at most M revolutions allowed, the number of revolutions reported is the smaller of M and the largest N for which an N-revolution arc with that time of flight exists, and exactly 2N+1 solutions are returned; any Kepler arc through the two positions with that flight time, direction and at most M whole turns appears in its slot, the zero-turn one first and for each N the two distinct N-turn ones side by side. "
 "Allowing fewer revolutions only truncates the list.",
 ["inputs", "configurations"],
 "every known Kepler arc (start, end, flight time, turns), every cap M, times of flight on both sides of each minimum-time threshold",
 "the tests take whatever the solver returns; a solution dropped, duplicated or put in the wrong slot, or a threshold moved, changes no assertion.",
 [LB], [("maximum revolutions from the minimum-time iteration", LB + ": Nmax detection with dTdx Halley iterations"), ("left/right branch guesses", LB + ": multi revolution section")],
 None, ["get_Nmax, get_v0, get_v1, get_x, get_iters"])
prop("C09", "Lambert problems refuse ill-posed data and are faithful immutable values",
 "Construction fails with a domain error exactly when the time of flight or the gravitational parameter is not positive or the geometry leaves the sense of rotation about z undefined, and otherwise succeeds. "
 "A constructed problem reports back the data it was built from, its solution lists all have the same length, and copies, assigned objects and objects saved and restored are indistinguishable from the original.",
 ["inputs", "histories"],
 "every combination of valid and invalid data (negative, zero), and every sequence of construct, copy, assign, save, restore",
 "the tests construct three bad problems and serialise one good one; combinations, boundary values and the full set of observables after restore are not covered.",
 [LB, "include/kep3/lambert_problem.hpp"], [("sanity checks", LB + ": constructor section 0-1"), ("serialize", "include/kep3/lambert_problem.hpp")], None, ["constructor outcome, getters, stream output, archives"])

SF = "src/leg/sims_flanagan.cpp"
SFS = ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp", "include/kep3/leg/sims_flanagan.hpp"]
prop("C10", "A low-thrust leg accepts exactly valid data; rejected updates change nothing",
 "A low-thrust leg can be built or updated only with a non-negative flight time, thrust, specific impulse and gravitational parameter, a cut in [0,1] and a non-empty list of throttle triplets; anything else is refused with an exception by the constructor, each setter and the all-at-once update alike. "
 "A refused update leaves every observable of the leg as it was; an accepted one changes only what it names, and the numbers of segments always satisfy total = throttles/3, forward = floor(total*cut), backward = total - forward.",
 ["histories", "inputs"],
 "every sequence of constructor, setter and all-at-once calls with valid and invalid values, including boundary values, NaN and changes of the number of throttles",
 "leg_sims_flanagan_test (which does not even build here) tries each setter once from a fresh object; no history of mixed accepted and refused updates, and the all-at-once update validated the old data instead of the new until fixed here.",
 SFS, [("setters and set", SF), ("checks", "src/leg/sf_checks.cpp")], [("cfg", "the last accepted value of each field")], ["getters after each call"])
prop("C11", "A leg's mismatch is the gap between its forward and backward flights",
 "For a low-thrust leg the mismatch is the state reached by flying the forward segments from departure minus the state reached by flying the backward segments back from arrival, where each segment coasts half its duration, receives an impulse of throttle times thrust times duration over the mass that side knows (before the impulse going forward, after it going backward), changes mass by the rocket equation and coasts the other half. "
 "So a leg assembled from a flown trajectory has zero mismatch (a ballistic one wherever it is cut), moving only the departure or arrival state shows up as exactly the corresponding discrepancy, and the throttle constraints are the squared throttle norms minus one.",
 ["inputs", "configurations"],
 "every trajectory, number of segments, cut in [0,1] (including 0, 1 and values that leave one side empty), flight time including zero, throttles including zero, any consistent units",
 "the tests compare single constructions to stored numbers at a few cuts; the timing of each impulse, the mass used on the backward side and the segment each throttle triplet acts on are not pinned for every segment count and cut.",
 SFS, [("compute_mismatch_constraints, compute_throttle_constraints", SF)], [("timeline", "sequence of coast/burn events with times, throttle index and mass")], ["compute_mismatch_constraints, compute_throttle_constraints"])
prop("C12", "Leg gradients are the derivatives of the leg's own constraints",
 "Every entry of the gradients a low-thrust leg returns - mismatch with respect to departure state and mass, arrival state and mass, each throttle component and flight time, and throttle constraints with respect to throttles - is the derivative of the corresponding constraint it returns (the norm of a zero throttle counting as flat), in the documented layout, finite, and exactly zero where the constraint does not depend on the variable. "
 "Computing gradients never changes the leg.",
 ["inputs", "configurations"],
 "every leg as in C11 with a positive flight time, including legs with zero throttles (coasting segments), every number of segments and cut",
 "the tests compare to finite differences for a handful of legs with random non-zero throttles; zero throttles gave NaN everywhere until fixed here.",
 SFS, [("compute_mc_grad, compute_tc_grad, gradients_multiple_impulses, gradients_bck", SF)], None, ["compute_mc_grad, compute_tc_grad"])
prop("C13", "A leg's answers depend only on its current settings, not on its history",
 "Whatever sequence of updates, refused updates, copies, saves and restores a low-thrust leg has been through, its constraints, gradients and printed form equal those of a leg freshly built from the values it currently reports. "
 "Copies are independent: updating one never changes another.",
 ["histories"],
 "every sequence of setters (in any order, shrinking and growing the throttles and moving the cut), all-at-once updates, copies, assignments, saves and restores",
 "the tests use a new object per assertion or one setter at a time; derived segment counts made stale by one particular order of updates would not be noticed.",
 SFS, [("derived segment counts", SF + ": set_throttles, set_cut, set"), ("serialize", "include/kep3/leg/sims_flanagan.hpp")], None, ["getters, constraints, gradients, archives"])

prop("C14", "Fly-by algebra respects the physics of the hyperbola",
 "The outgoing velocity of a fly-by has the incoming speed relative to the planet, is turned by exactly the angle the pericentre radius and gravity allow, and moves on a cone around the incoming one as the plane angle varies (90 degrees: away from the planet's velocity, in its plane). "
 "The fly-by constraints are zero and non-positive exactly for velocity pairs such a fly-by at or above the safe radius can produce, and the fly-by cost is the smallest impulse (never NaN), applied after a fly-by at or above the safe radius, that gives the outgoing velocity; the planet overloads use that planet's own parameters.",
 ["inputs"],
 "every incoming relative velocity, planet velocity, pericentre radius, plane angle and gravity, including aligned and opposite velocity pairs",
 "flyby_test compares a few stored numbers and is not built here; the link between the three functions, and aligned pairs (NaN until fixed here), are unchecked.",
 ["src/core_astro/flyby.cpp"], [("fb_con, fb_dv, fb_vout", "src/core_astro/flyby.cpp")], None, ["return values"])

EP = "src/epoch.cpp"
prop("C15", "Epochs count time exactly: calendar, Julian dates, arithmetic and order agree",
 "An epoch is an exact microsecond instant: the calendar constructor, the three Julian day counts, sums and differences with durations and the six comparisons all agree with the proleptic Gregorian calendar, across leap years, century rules, negative dates and day overflow in a month. "
 "Adding then subtracting a duration returns the same epoch, differences add up, and out-of-range months or days are refused.",
 ["inputs", "histories"],
 "every calendar date and time the calendar constructor accepts, every sequence of duration additions and subtractions, every pair compared",
 "epoch_test checks a couple of dozen dates against stored numbers and is not built here; leap-century rules, month overflow and long arithmetic histories are sampled at best.",
 [EP, "include/kep3/epoch.hpp"], [("make_tp, tp_from_days, operators", EP), ("jd/mjd/mjd2000", "include/kep3/epoch.hpp")], [("instant", "days and microseconds since 2000-01-01")], ["mjd2000/mjd/jd, differences, comparisons, get_tp"])
prop("C16", "Epoch strings parse to the instant they name and print back unchanged",
 "Parsing an ISO date string, complete or truncated at any allowed place and with one to six decimal digits, gives the instant it names; printing an epoch and parsing the result returns the same epoch. "
 "Only the separators are free: strings of any other length, and strings whose month, day or any digit group cannot be read, are refused with an exception rather than misread.",
 ["inputs"],
 "every date string of every allowed length in years 0000-9999, every number of decimals including leading zeros, and malformed strings",
 "epoch_test parses a few strings; digit groups with leading zeros, truncation lengths and the print-parse loop are unchecked for all values.",
 [EP], [("string constructor, as_utc_string", EP)], None, ["constructor from string, as_utc_string"])

prop("C17", "A planet answers with its user type's code, else with sound defaults",
 "For a planet built from a user type, every query returns what the user type provides when it provides it, and otherwise the documented default: unnamed parameters -1, name of the type, empty extra info, ephemerides of a grid equal to the individual ones in order, period and osculating elements derived from state and central-body parameter. "
 "When neither the user type nor the default can answer, and only then, a not-implemented error is raised; epoch arguments mean the same as the equivalent day number.",
 ["configurations", "inputs"],
 "every combination of the optional capabilities a user type may offer, every query, element type, epoch and orbit (ellipse or hyperbola, any units)",
 "planet_test covers a handful of the hundreds of capability combinations, one orbit each, and is not built here; mean-anomaly elements were refused for orbits smaller than one unit until fixed here.",
 ["include/kep3/planet.hpp", "src/planet.cpp"], [("planet_iface_impl dispatch", "include/kep3/planet.hpp"), ("period_from_energy, elements_from_posvel", "src/planet.cpp")], [("capabilities", "which optional methods the user type has")], ["planet queries"])
prop("C18", "Planets are values: copies, moves and archives behave like the original",
 "A planet copied, moved, assigned, or saved and restored answers every query like the original did, and changing the user object inside one planet never changes another. "
 "Extracting the user object yields it exactly when asked for its own type.",
 ["histories"],
 "every sequence of construct, copy, move, assign, mutate-through-extract, save and restore over several planet slots with different user types",
 "planet_test performs each operation once; aliasing after particular sequences is not covered.",
 ["include/kep3/planet.hpp", "src/planet.cpp"], [("planet wrap configuration and extract", "include/kep3/planet.hpp")], None, ["planet queries after each step"])
prop("C19", "Keplerian planets move on the orbit they were given",
 "A Keplerian planet built from a state or from any of the element types passes at its reference epoch through the state given and at every other epoch is at the place Kepler's laws put it; its period is 2pi*sqrt(a^3/mu) (NaN if unbound), and the elements it reports, in every type and whatever epoch is asked, describe that same orbit and the place on it at the reference epoch. "
 "Elements that describe no orbit (inconsistent, not a number, or beyond the asymptotes), element sets of type POSVEL, and mean anomalies of unbound orbits are refused.",
 ["inputs", "histories"],
 "every orbit (ellipse, hyperbola), element type, reference epoch and query epoch, any units",
 "udpla_keplerian_test covers a few constructions near the reference epoch and is not built here.",
 ["src/udpla/keplerian.cpp", "include/kep3/udpla/keplerian.hpp"], [("constructors, eph, period, elements", "src/udpla/keplerian.cpp")], None, ["eph, elements, period, exceptions"])
prop("C20", "The low-precision solar-system model follows its published element tables",
 "Each of the eight low-precision planets, whatever the letter case of its name, returns for every epoch strictly between the starts of 1800 and 2050 the heliocentric state given by its linear secular element table, with elements of every type describing that same state, and refuses epochs outside this range, its two ends included, and unknown names. "
 "Its name, its own and the Sun's gravity, its radius and its safe radius (1.1 radii, 9 for Jupiter) are those of that planet, and its period follows from the state.",
 ["inputs", "histories"],
 "every planet, name spelling, epoch inside and at the edges of the validity range, element type",
 "udpla_jpl_lp_test compares one or two epochs for some planets and is not built here; a wrong sign in one rate of one planet changes no assertion at the reference epoch.",
 ["src/udpla/jpl_lp.cpp", "include/kep3/udpla/jpl_lp.hpp"], [("tables, _f_elements, eph, elements", "src/udpla/jpl_lp.cpp")], None, ["eph, elements, getters, exceptions"])

prop("C21", "Shared integrator caches give every caller the one correct integrator",
 "The process-wide caches of Taylor integrators return, for each tolerance and model, the same single integrator configured for that tolerance and model however often and from however many threads they are asked, refuse invalid tolerances without leaving anything behind, and cached integrators are never modified by users working on copies. "
 "Looking up, building and counting cached integrators is free of races under any interleaving.",
 ["schedules", "histories"],
 "every interleaving of lookups, misses, inserts and size queries by several threads over several tolerances and models",
 "the ta tests call the getters from one thread; two size queries locked the wrong mutex until fixed here, which no sequential test can show.",
 ["src/ta/stark.cpp", "src/ta/cr3bp.cpp"], [("get_ta_*, get_ta_*_var, *_cache_dim", "src/ta/stark.cpp, src/ta/cr3bp.cpp")], [("cache", "tolerance -> integrator"), ("mutex", "owner")], ["getter results, cache sizes, lock/map access order"])
prop("C22", "Constant-thrust propagation depends only on its arguments and settings",
 "A Stark problem returns, for each call, the state obtained by integrating two-body motion with the given constant inertial thrust and the mass flow its own current effective velocity implies, with variations that are the derivatives of that map with respect to initial state and thrust, whatever was propagated before and however settings were changed in between. "
 "A zero initial mass is refused, and copies and restored objects behave like the original.",
 ["histories", "inputs"],
 "every sequence of propagations (forward, backward, with or without variations), setter calls, copies and restores",
 "stark_problem_test makes one or two propagations per object and is not built here; leftovers of one call in the shared integrators are not looked for.",
 ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"], [("propagate, propagate_var, setters", "src/stark_problem.cpp")], None, ["propagate, propagate_var, getters"])
prop("C23", "A high-fidelity leg's mismatch and history are those of its trajectory",
 "The high-fidelity low-thrust leg's mismatch constraints are the difference, at the cut, between the states flown from both ends under constant inertial thrust in each segment with the corresponding mass flow, zero for a flown trajectory at every cut and segment count; its throttle constraints are the squared throttle norms minus one. "
 "Its state history (and the derivative of it) samples that same trajectory segment by segment on the requested grid, from each end to the cut.",
 ["inputs"],
 "every number of segments, cut, throttle profile, thrust level, flight time and grid size",
 "leg_sims_flanagan_hf_test compares a few stored trajectories and is not built here; a state history with one segment read out of bounds until fixed here.",
 ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"], [("compute_mismatch_constraints, compute_throttle_constraints, get_state_history, get_state_history_grad", "src/leg/sims_flanagan_hf.cpp")], None, ["mismatch, throttle constraints, state histories"])
prop("C24", "Multi-gravity-assist encodings decode to the schedule they claim",
 "For a multiple-gravity-assist problem, the three time encodings of the decision vector decode to leg durations that respect the bounds of the encoding, conversions between encodings describe the same trajectory and cost the same, and the cost is the sum of the launch, fly-by and arrival impulses of the Lambert legs between the planets at the decoded epochs. "
 "Building or evaluating problems never alters the caller's arguments.",
 ["inputs", "histories", "configurations"],
 "every planet sequence length, encoding, bounds and decision vector, every sequence of problem constructions from shared argument lists",
 "test_trajopt.py evaluates a few stored vectors; conversions between the encodings and argument aliasing are untested.",
 ["pykep/trajopt/_mga.py"], [("_decode_tofs, alpha2direct, direct2alpha, eta2direct, direct2eta, fitness, get_bounds", "pykep/trajopt/_mga.py")], None, ["fitness, bounds, decoded durations, caller's lists"])
prop("C25", "High-fidelity leg gradients are the derivatives of its constraints",
 "The gradients of the high-fidelity leg's mismatch with respect to the start state and mass, the end state and mass, every throttle and the time of flight are the derivatives of that mismatch, and the throttle-constraint gradient is that of the squared norms, for every number of segments, cut, throttle profile and thrust level.",
 ["inputs"],
 "every cut, number of segments, throttle profile and thrust level",
 "the hf tests compare gradients with finite differences for unit thrust only and are not built here; a missing factor (the maximum thrust) survived until fixed here.",
 ["src/leg/sims_flanagan_hf.cpp"], [("compute_mc_grad, compute_tc_grad, compute_all_gradients, get_relevant_gradients", "src/leg/sims_flanagan_hf.cpp")], None, ["compute_mc_grad, compute_tc_grad"])
prop("C26", "A high-fidelity leg answers from its current settings and rejects bad ones whole",
 "After any sequence of constructor, setter and all-at-once calls, accepted or refused, the high-fidelity leg's mismatch, gradients and state history equal those of a leg freshly built from the values it currently reports, invalid values are refused, and refused calls change nothing. "
 "Copies are independent of their original and saving and restoring preserves the answers.",
 ["histories"],
 "every sequence of updates over all fields (flight time, thrust, impulse, gravity, tolerance, cut, throttles, states, masses), copies, saves and restores",
 "leg_sims_flanagan_hf_test builds fresh objects and is not built here; settings cached inside the integrators (thrust, impulse, gravity, tolerance) went stale until fixed here.",
 ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"], [("setters, set overloads, constructors, save, load", "src/leg/sims_flanagan_hf.cpp, include/kep3/leg/sims_flanagan_hf.hpp")], None, ["getters, mismatch, gradients, state history, archives, exceptions"])
prop("C27", "The CR3BP integrators follow the rotating-frame equations and their variations",
 "The integrators handed out for the circular restricted three-body problem propagate any state, forward or backward, along the solution of the rotating-frame equations for the mass parameter they are given, conserving the Jacobi constant, and the variational ones return the derivative of that map with respect to the initial state. "
 "The same holds for integrators built from the dynamics they export.",
 ["inputs", "histories"],
 "every mass parameter, initial state away from the primaries, time span and direction",
 "ta_cr3bp_test checks the Jacobi constant on one family of states and is not built here.",
 ["src/ta/cr3bp.cpp", "include/kep3/ta/cr3bp.hpp"], [("cr3bp_dyn, get_ta_cr3bp, get_ta_cr3bp_var", "src/ta/cr3bp.cpp")], None, ["propagated states, state transition matrices, constants of motion"])
prop("C28", "Analytical ephemerides planets are values that share code unnoticed",
 "A VSOP2013 planet, made for any of the nine bodies in any letter case with any finite non-negative threshold, returns at every epoch the state the theory gives for that body and threshold (converted from au, days and J2000 to SI units and MJD2000), from every thread and after any history of copies, moves, archives and other planets made before. "
 "Unknown bodies and invalid thresholds are refused and change nothing, and making, copying and asking such planets from several threads is free of races.",
 ["schedules", "histories", "inputs"],
 "every body, threshold, epoch; every interleaving of constructions and questions; every history of copies, assignments, moves, saves and restores",
 "udpla_vsop2013_test makes a few planets in one thread and is not built here; the process-wide cache of compiled code and the pointers into it are only right or wrong over histories and schedules.",
 ["src/udpla/vsop2013.cpp", "include/kep3/udpla/vsop2013.hpp"], [("vsop2013::vsop2013, impl, eph, save, load, get_name", "src/udpla/vsop2013.cpp")], [("state_dict", "(body, threshold) -> compiled code"), ("eval_f", "pointer into the object's own code")], ["eph, get_name, exceptions, data races"])
prop("C29", "Direct transcriptions are the optimisation problems they claim to be",
 "For a point-to-point or planet-to-planet low-thrust problem, bounds, numbers of constraints and sparsity follow from the settings; the fitness of any decision vector is the scaled final mass, the scaled mismatch of the Sims-Flanagan leg between the (moving) end states, the throttle constraints and the excess-velocity constraints; and the gradient lists, in the order of the sparsity, the derivatives of that fitness, with nothing changing outside the sparsity. "
 "Answers depend on settings and vector alone, whatever was evaluated, plotted, printed or copied before, and vectors and settings of the caller are left as they were.",
 ["inputs", "histories", "configurations"],
 "every number of segments, cut, bounds, scaling, end states or planets, decision vector and history of questions; gradients with respect to times for bodies attracted by the problem's own centre",
 "test_trajopt.py constructs the problems and compares one gradient of each with finite differences; the problems keep one leg inside and change it at each question.",
 ["pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"],
 [("fitness, gradient, gradient_sparsity, get_bounds, get_nec, get_nic, pretty, plot", "pykep/trajopt/_direct_point2point.py, pykep/trajopt/_direct_pl2pl.py")],
 [("leg", "the leg inside, set from each decision vector")], ["fitness, gradient, sparsity, bounds, counts, printed text"])
prop("C30", "Planets written in Python answer as their objects do, and share them rightly",
"A planet made from a Python object answers every query with what the object's methods return at that time (whatever the form of the epoch and of the numbers returned), with the documented default or the value following from state and central-body parameter for methods the object lacks, and with an error when a method raises, misses or returns the wrong amount of numbers; types, planets and objects without ephemerides are refused. "
"The planet and its copies refer to that very object and keep it alive, a deep copy refers to a copy of its own (shared only with what was deep-copied along with it), extract and is_ recognise exactly the type of the object inside (or any Python object), and planet_to_keplerian gives the Keplerian planet of the state, parameters and name the planet has at the epoch.",
["inputs", "histories", "configurations"],
"every combination of optional methods, their failures and return forms, every history of constructions, copies, deep copies, changes of object or class, extractions and deletions",
"pykep/test.py has four Python planets and one call of each method; it is not built here. A grid method returning too few numbers made planets read beyond the end of their memory, and deep copies shared their object, until fixed here.",
["pykep/python_udpla.cpp", "pykep/common_utils.hpp", "pykep/common_utils.cpp", "pykep/_patch_planet.py", "pykep/core.cpp", "pykep/udpla/_tle.py", "pykep/udpla/_spice.py", "pykep/utils/_planet_to_keplerian.py"],
[("python_udpla", "pykep/python_udpla.cpp"), ("extract, is_", "pykep/_patch_planet.py"), ("copies", "pykep/core.cpp"), ("planet_to_keplerian", "pykep/utils/_planet_to_keplerian.py")], None, ["answers of planets, identity and lifetime of the objects inside"])
prop("C31", "pykep's legs, problems, epochs and functions are faithful values in Python",
"Whatever mixture of positional, named and omitted arguments, of lists, tuples and arrays, and of later assignments a leg, Stark or Lambert problem is made with, its attributes read back exactly what was given (or the documented default), what the library refuses is refused, and its constraints, gradients (arrays of the documented shape and orientation), propagations and solutions are those of these settings; copies, deep copies and pickles are equal and independent, and lists and arrays passed in or handed out share no memory with the value or with each other. "
"Epochs made from numbers, strings or datetimes denote that time, moving them by days or timedeltas is exact to the microsecond and invertible, and the six comparisons agree with the order of times. "
"The anomaly conversions (also over broadcast arrays), element maps, Lagrangian propagators, fly-by functions and constants give in Python what they are documented to give, under their names.",
["inputs", "histories", "configurations"],
"every setting and calling form; every history of constructions, assignments, copies, pickles and kept results; all dates in two centuries to the microsecond; array shapes",
"pykep/test.py calls each function once with fixed arguments and is not built here; argument names and defaults, memory shared between arrays, layouts of matrices and exactness of dates show only over many forms and histories. Until fixed here, legs could not be pickled, timedeltas lost microseconds and DEG2RAD was the degrees of a radian.",
["pykep/core.cpp", "pykep/common_utils.hpp", "pykep/leg/__init__.py", "pykep/__init__.py"],
[("all bindings", "pykep/core.cpp"), ("names of the legs", "pykep/leg/__init__.py"), ("copy and pickle", "pykep/common_utils.hpp")], None, ["attributes, constraints, gradients, comparisons, repr, exceptions, contents of arrays kept"])
prop("C32", "Plots show the trajectories they are asked to show",
 "Each plotting function adds to the axes it is given (or to new ones of the requested size) exactly the curves its arguments call for, through the points the documentation defines in the requested units: planets at the epoch, orbits over the range or one period, Lambert arcs from the first position to the second in the solution's direction, ballistic arcs, both halves of every segment of low-thrust legs with the grid points, mid points and throttles that were switched on, and the pieces of MGA, direct and solar-system plots. "
 "Keyword arguments reach the curves, the axes are returned, arguments are left as they were, and requests that cannot be met (no such Lambert solution, no period) raise and draw nothing.",
 ["inputs", "configurations", "histories"],
 "every orbit, leg (any number of segments, cut and throttles), Lambert problem and solution, set of bodies, selection of legs, number of points, units and combination of switches",
 "no test calls any plotting function; clockwise arcs, legs cut at an end, units of combined plots, throttles of backward segments and Neptune were wrong until fixed here.",
 ["pykep/plot/_planet.py", "pykep/plot/_lambert.py", "pykep/plot/_ballistic.py", "pykep/plot/_sf_leg.py", "pykep/plot/__init__.py", "pykep/trajopt/_mga.py", "pykep/trajopt/_direct_pl2pl.py", "pykep/trajopt/_direct_point2point.py"],
 [("add_planet, add_planet_orbit, add_solar_system, add_lambert, add_ballistic_arc, add_sf_leg, add_sf_hf_leg, propagate_lagrangian_theta_v, plot", "pykep/plot/, pykep/trajopt/")],
 None, ["calls made on the axes: curves, points, keywords"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")

prop("C18", "Relativistic, tidal and drag forces are those of their equations",
     "The first, second and 2.5th order post-Newtonian accelerations of every pair are those of the harmonic-coordinate equations of motion, for both bodies alike; tides pull along the line of centres with equal and opposite forces; drag by gas opposes the velocity with the linear law below and the inverse-square law from the speed of sound on, and drag by a disk opposes the motion relative to it, vanishes for a star that moves along and falls off with height as the disk's Gaussian. Pairs add up, whatever the number and order of the bodies and the representation of the system, on top of what other forces contributed.",
     ["inputs", "configurations"], "all masses, positions, velocities, body parameters and particle systems, any number of bodies",
     "tests have none of these forces; a wrong sign or index in one of some sixty terms changes nothing they look at",
     ["src/interaction/post-newtonian.hpp", "src/interaction/tidal.hpp", "src/interaction/static-gas-drag.hpp", "src/interaction/disk-capture-star.hpp", "src/interaction/alpha-disk.hpp", "src/interaction/magneto-disk.hpp", "src/interaction/interaction.hpp", "src/macros.hpp"], [("forces", "PN1, PN2, PN2p5, Tidal, StaticGasDrag, DiskCaptureStar, AlphaDisk, MagnetoDisk :: add_acc_to"), ("speed of light", "consts::C")],
     TLC + "accelerations by the real forces in all systems validated against the spec; its equations model checked against the centre-of-mass and test-body equations, conservation of momentum, rotations and time reversal",
     "distances 1 to 3, integer velocities, 2 to 4 bodies, compared at 1/1000 of the scale of each order; eight Mach numbers")

prop("C31", "Every ready-made method moves bodies along their exactly known orbits",
     "A run with any of the ready-made methods, forward or backward and in any number of legs, takes bodies whose motion is known exactly from place to place of their orbits, to the accuracy its tolerance or step promises, in free motion and carried along by external forces that do or do not depend on velocity. The method is what its name says: extended numbers, compensated sums, steps that follow the attraction for the regularised ones, and constant-step ones whose error falls with the order in the name.",
     ["inputs", "configurations", "histories"], "all methods and their variants, elliptic, parabolic and hyperbolic motion, two to seven bodies, orientations, drifts, sequences of targets",
     "the tests run a few methods for a few systems and look at energy alone; that a body is in the right place at the right time is not looked at, nor most of the methods",
     ["src/spaceHub.hpp", "src/simulator.hpp", "src/ode-iterator", "src/integrator", "src/particle-system"], [("ready-made methods", "spaceHub.hpp :: methods"), ("runs", "Simulator::run"), ("systems", "SimpleSystem, RegularizedSystem, ChainSystem, ARchainSystem")],
     TLC + "recorded runs of all 248 methods validated against exact solutions of the N-body problem; the solutions are model checked against energy, angular momentum, Kepler's equation and the equations of motion",
     "central configurations on conics with rational shape and places, 1e-5 (2e-4 and less for low orders) over up to two turns")

prop("C25", "Random numbers are distributed as named, within their limits",
     "Draws follow the distribution of their name - uniform, uniform in the logarithm, power law, normal, truncated normal, Maxwellian, truncated Maxwellian, pairs of normal numbers - stay within its limits, and are independent of one another and of those in other threads. A bounded parameter returns the first draw within its inclusive boundaries, any draw if it has none. Random orbits are oriented isotropically and elliptic ones are anywhere with equal chance in time.",
     ["inputs", "histories", "schedules"], "all parameters of the distributions, boundaries set in any order, any number of threads drawing at once",
     "tests draw random numbers but never look at how they are distributed, nor at two threads that draw together",
     ["src/rand-generator.hpp", "src/orbits/orbits.hpp"], [("distributions", "random::Uniform, Logarithm, PowerLaw, Normal, TruncatedNormal, Maxwellian, TruncatedMaxwellian, Normal2"), ("parameters", "random::Parameter"), ("random orbits", "KeplerOrbit::shuffle_i, shuffle_Omega, shuffle_omega, shuffle_nu")],
     TLC + "samples of a million draws and joint counts validated against the distributions of the spec within six standard deviations; parameters over scripted distributions exactly; rejection, the tables and the disc model checked",
     "one million draws per sample, exponents -3.5 to 2, deviations below some percent of a bin are invisible")

prop("C32", "Scatterings are set up as the two-body problem demands",
     "The critical velocity of two clusters is the one at which their total energy vanishes; the largest impact parameter leads to just the closest approach that is asked for, or to the distance where tides reach the given factor. Incident orbits start at the given distance, or where tides reach the factor, come towards the target, with the kinetic energy of the velocity at infinity, the angular momentum of the impact parameter, impact parameters uniform over the disc and the plane turned uniformly about it. The hard radius is that of the Heggie limit.",
     ["inputs", "configurations"], "all masses, clusters of any number of bodies, velocities at infinity, distances and tidal factors",
     "the tests do not touch scattering set-ups; cross sections of thousands of runs hide a factor in the set-up",
     ["src/scattering/cross-section.hpp", "src/orbits/orbits.hpp"], [("set-up", "scattering::critical_vel, b_max, incident_orbit"), ("hard radius", "scattering::hard_radius")],
     TLC + "critical velocities, impact parameters and incident orbits recorded from the real code validated against the spec; the spec is model checked against conservation of energy and angular momentum",
     "hundredths of a unit; distributions by samples within six standard deviations")

prop("C21", "Timers add up exactly the time they ran",
     "A timer reports the total time between its starts and pauses since it was made or reset, plus what has passed since the last start if it runs. Reading changes nothing, pausing one that does not run adds nothing, starting one that runs begins its current interval anew, and copies go on independently. Settings of the time of day do not matter.",
     ["histories"], "all sequences of start, pause, reset, copy and reading on several timers, all durations",
     "a test can only compare a measured time with a rough bound, which loses intervals and wrong units",
     ["src/tools/timer.hpp"], [("timer", "tools::Timer :: start, pause, reset, get_time")],
     TLC + "histories of real timers under a scripted clock validated against the spec; the spec model checked for monotony and additivity",
     "microsecond clock readings, up to 25 operations on two timers")

prop("C26", "Automatic file names never collide within a program",
     "Automatic names of one program are different from one another, whatever prefixes are named in between and however the clock moves, and consist of the prefix, the local date and time, a count when needed and the given ending. Names made by hand are the prefix, the given index and the ending.",
     ["histories"], "all sequences of prefixes and moves of the clock",
     "collisions take two names within one second and other prefixes in between; tests do not name files",
     ["src/tools/auto-name.hpp"], [("names", "tools::auto_name, make_name")],
     TLC + "histories of names under a scripted clock validated against the spec; the spec model checked for uniqueness",
     "up to some thirty names per history")

prop("C34", "Units, constants and astrophysical formulas are the right ones",
     "Quantities converted from any unit to any other of its kind, written as a literal or with the unit's constant, are what they are in nature, in a system where gravity, the sun and the astronomical unit are one; so are the constants and the elements of planets. The radius of a star follows from its mass by the law of its type, and the timescale of the Kozai-Lidov mechanism from masses and orbits.",
     ["inputs"], "all units and pairs of units, masses and orbits",
     "tests use units on both sides of a comparison, where a wrong one cancels",
     ["src/macros.hpp", "src/stellar/stellar.hpp", "src/secular.hpp"], [("units", "namespace unit, MAKE_UNIT"), ("constants", "namespace consts"), ("radii", "stellar::stellar_radius"), ("timescale", "secular::ELK_quad_timescale")],
     TLC + "ratios of units, constants and formulas recorded from the real code validated against the spec's values in SI; the values model checked against one another: chains of conversions, Kepler's law, the light time, other forms of the formulas",
     "seven digits for defined units, the digits that are known for measured ones")

prop("C33", "Printing, reading and numeric helpers do what they say",
     "Values are printed one after another, with commas or blanks between or after them, from argument lists, tuples and containers, and what is read back from text is what was written; functions on lists of containers act on each of them, in order. Root finding returns a root within the bracket to the precision of the number type whenever the function changes sign in it, wherever the root is and however the bracket is given. Bounds, signs and comparisons are those of their definitions.",
     ["inputs", "histories"], "all values, argument lists and containers, all brackets and functions that change sign",
     "tests print and compare nothing; the rare brackets for which root finding fails are not in them",
     ["src/IO.hpp", "src/math.hpp", "src/dev-tools.hpp"], [("printing and reading", "print, print_csv, display, input, operator<<, operator>>"), ("numeric helpers", "math::root_bisection, root_newton, in_range, iseq, sign"), ("containers", "emplace_back, push_back, resize_all, reserve_all, clear_all")],
     TLC + "results of the real helpers for random values, brackets and histories of containers validated against the spec; bisection model checked for every bracket and root, texts for being decodable",
     "up to four arguments, numbers in eighths, three floating-point types")

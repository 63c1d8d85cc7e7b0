prop("C19", "Groups of particles are measured and moved as mechanics defines",
     "The mass, centre of mass and its velocity, kinetic, potential, internal and total energy, size, reduced mass, tidal factors, radii and energies of any group of particles, and the energies, momenta and fall-free times of whole systems, are those of the definitions, whichever way the group is passed. Moving a group to a position, velocity or frame shifts all its members alike and puts its centre exactly there; nobody else moves.",
     ["inputs", "histories"], "every group of particles, every way of passing it, every sequence of moves",
     "tests move single pairs and compare a few sums; a swapped argument or a member left behind shows only for some groups",
     ["src/orbits/particle-manip.hpp", "src/core-computation.hpp"], [("groups", "M_tot, COM_p, COM_v, E_k, E_p, E_tot, E_inner, E_tid, cluster_size, M_rdc, tidal_factor, tidal_radius, move_particles, move_to_COM_frame"), ("systems", "calc::calc_kinetic_energy, calc_potential_energy, calc_total_energy, calc_energy_error, calc_angular_momentum, calc_com, calc_fall_free_time")],
     TLC + "histories of measurements and moves of the real functions validated against the spec; Koenig's theorems model checked",
     "integer distances and exact centres; roots rounded to 1/1000; up to 6 particles")
prop("C22", "Output files hold exactly what happened",
     "Every call of a table writer adds one line per particle with the time and each property under its column name, exactly as it was at that moment, and the column names come first and once; texts are written as given. An energy writer records time and the relative energy error against the first energy it recorded itself. Copies of a writer go on in the same file, distinct files never mix.",
     ["histories"], "every sequence of calls, runs and changes of the systems, for several writers and systems at once",
     "no test reads an output file back; two writers at once, or a second system, are never tried",
     ["src/args-callback/callbacks.hpp", "src/IO.hpp", "src/particle-system/base-system.hpp"], [("writers", "callback::DefaultWriter, callback::EnergyErrWriter"), ("rows", "operator<< of particle systems, column_names, print_csv")],
     TLC + "files written by the real writers read back and validated against the spec of the history",
     "arbitrary doubles compared bit by bit through the printed digits; up to 5 files, 2 systems, 4 particle kinds and 4 system kinds")
prop("C24", "Orbital elements and coordinates describe the same orbit",
     "Elements put a body at its distance p/(1 + e cos nu) in the direction and with the velocity that inclination, node, argument of periapsis and anomaly define; the elements found for coordinates have the orbit's size, shape, type, plane, periapsis direction and anomaly, so that converting back returns the same coordinates - also for circular, equatorial, retrograde and parabolic orbits. Derived quantities (axes, eccentricity vectors, angular momentum, period, orbits given by axis or by velocity and impact parameter at infinity) belong to the same orbit.",
     ["inputs"], "every pair of masses, every relative position and velocity, all elements",
     "no test converts an orbit; the degenerate orbits and the quadrants of the angles need special inputs",
     ["src/orbits/orbits.hpp", "src/orbits/particle-manip.hpp"], [("conversion", "orbit_to_coord, coord_to_orbit, euler_rotate"), ("quantities", "calc_a_e, calc_a_RL_vector, calc_a_e_L, calc_eccentricity, calc_semi_major_axis, period"), ("orbits", "KeplerOrbit, Elliptic, Hyperbolic, move_particles with an orbit")],
     TLC + "conversions by the real code validated against the geometry in the spec; both directions model checked against each other",
     "integer coordinates or rational angles and shapes; results compared at 1/1000")
prop("C30", "Anomalies and times along an orbit belong to one another",
     "Converting between true, eccentric and mean anomaly never moves the body along its orbit, whatever the chain of conversions, on ellipses (over many turns), parabolas and hyperbolas (arbitrarily far out). The time between the body's place and its periapsis is the mean anomaly over the mean motion, for orbits, pairs and groups of bodies. Bisection returns the root inside its bracket.",
     ["histories", "inputs"], "every eccentricity, every place on the orbit, every chain of conversions",
     "no test converts an anomaly; a bracket that is too small only fails far out on an open orbit",
     ["src/orbits/orbits.hpp", "src/orbits/particle-manip.hpp", "src/math.hpp"], [("anomalies", "E/T/M_anomaly_to_E/T/M_anomaly"), ("times", "time_to_periapsis"), ("roots", "math::root_bisection")],
     TLC + "chains of conversions by the real code validated against Kepler's identities; those identities and bisection model checked",
     "eccentricities k/8 up to 2, eccentric anomalies j/8 up to 50 (ellipse) and 4.5 (open); compared at 1/1000 to 1/10000")

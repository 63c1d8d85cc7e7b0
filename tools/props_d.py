prop("C11", "Particle containers keep every particle's properties together",
     "A container built from particles, or grown by adding them, holds each of them with its own mass, extra properties, position, velocity and an identity that is its place in the order of adding; editing one property of one particle changes nothing else. Copies, assignments, the particle list a system hands back, and the printed table all show the same particles in the same order under the right column names. This holds for every kind of particle and every system built on it.",
     ["histories", "inputs"], "every history of edits, copies and conversions, for every kind of particle, number type and system",
     "the tests use point particles and read back mass and position once; two swapped properties of a tidal particle, or a stale identity, go unseen",
     ["src/particles/point-particles.hpp", "src/particles/finite-size.hpp", "src/particles/tide-particles.hpp", "src/particles/drag-particles.hpp", "src/particle-system/base-system.hpp"],
     [("containers", "PointParticles, SizeParticles, TideParticles, DragParticles: constructors, emplace_back, resize, reserve, clear, column_names, to_AoS"), ("systems", "SimpleSystem, RegularizedSystem, ChainSystem, ARchainSystem: constructors and to_AoS")],
     TLC + "histories of edits of the real containers and systems validated against the container spec",
     "random histories of 10-40 operations on two stores, 4 particle kinds x number types x system kinds, up to 17 particles")
prop("C13", "Compensated numbers keep the small terms plain summation loses",
     "Adding, subtracting, negating or scaling through a compensated number keeps the result within a few units of rounding of the exact result, however many terms went in, where a unit is set by the size of the terms and not by their number. Assignment forgets the old error, a copy behaves like the original from then on.",
     ["histories", "inputs"], "every sequence of operations on every compensated type, scalar or inside vectors and arrays",
     "time and coordinates of long runs live in them; a lost compensation only shows after millions of steps or in the last digits",
     ["src/kahan-number.hpp"], [("arithmetic", "Kahan: operator=, +=, -=, *=, /=, unary -"), ("use", "calc::array_advance on vectors of compensated numbers")],
     TLC + "models of the summation algorithms with a short mantissa, and histories of the real numbers validated against exact sums",
     "float and double, 32-bit exact bookkeeping of sum and size; histories up to 4000 terms")
prop("C20", "Configuration files and command lines say what they are read as",
     "Reading a configuration gives for every key the value of its last definition, whatever the spacing, comment lines, delimiter or comment character; looking a key up as a number, a text, an optional or a required value returns that value, and what is missing is reported, never invented. The command line sets exactly the options it names, by short or long name, in any order.",
     ["inputs"], "every configuration text and command line of that language, every type of value",
     "no test reads a configuration; a wrong spacing or a key defined twice only shows on such a file",
     ["src/tools/config-reader.hpp"], [("files", "ConfigReader: constructor, get, is_exist, set-up of delimiters"), ("command line", "read_command_line, OptArg")],
     TLC + "random texts read by the real reader validated against the spec of the language",
     "random texts with all separators and number shapes; values in thousandths; arguments without blanks")
prop("C28", "Vector and array arithmetic computes what its names say",
     "Every operator of three-vectors and every array operation - sums, products, scaling, advancing, dot and cross products, norms, distances, extremes - returns the exact mathematical result up to one rounding, component by component, for every component and element, also when an operand is the target. Nothing but the target changes.",
     ["inputs"], "all values, number types, array lengths and aliasings of operands",
     "everything is written in it; the tests compare a few random vectors within a tolerance and never alias",
     ["src/vector/vector3.hpp", "src/core-computation.hpp", "src/IO.hpp"], [("vectors", "Vec3 operators, dot, cross, norm, re_norm, distance, max_abs"), ("arrays", "calc::array_* and coord_* functions")],
     TLC + "results of the real arithmetic on integers validated against the algebra spec; algebraic laws model checked",
     "integer-valued operands (exact in every type) with roots rounded to 1/1000; lengths up to 40")
prop("C29", "A collision stops the run when, and only when, two bodies touch",
     "The collision condition is true exactly when some pair of bodies is at most the sum of their radii apart, wherever the two are in the particle list. A run with it as stop condition ends at the first step at which two bodies touch and not before; bodies that never touch leave the run untouched.",
     ["inputs", "histories"], "every configuration of bodies and radii, every order of the bodies, every run",
     "no test uses collisions; a missed pair or an off-by-one in the pair loop only shows for that pair",
     ["src/args-callback/collision.hpp", "src/simulator.hpp"], [("condition", "callback::StickyCollision"), ("run", "Simulator::run stop conditions")],
     TLC + "runs and single calls of the real condition on exact configurations validated against the spec",
     "distances that are integers, exactly touching or one unit apart; up to 17 bodies")

prop("C06", "Extrapolation steps are accepted, retried and resized by their error alone",
     "An extrapolation step is accepted only when its estimated error is within the tolerance, and then advances the state by exactly the extrapolated increments of substep sequences that all start from the same state; a rejected attempt leaves no trace and is retried with a changed step. The extrapolation order stays inside the table, and the proposed next step is the ideal one for the cheapest admissible order within the configured limits. All decisions are the same forward and backward in time.",
     ["histories", "inputs"], "every history of error estimates over all levels and steps, both time directions, particle systems and plain ODEs",
     "regression runs see one error history per system and only the energy at the end; a wrong order or retry only costs accuracy",
     ["src/ode-iterator/Bulirsch-Stoer.hpp"], [("control", "BulirschStoer::iterate, set_next_iteration, in_converged_window, allowed"), ("extrapolation", "extrapolate, integrate_by_n_steps, checker"), ("work and limits", "BulirschStoerConsts")],
     TLC + "traces of the real iterator with scripted errors and recording systems validated against the spec",
     "control automaton exhaustive for small tables; real traces with scripted error histories, exact rational extrapolation")
prop("C07", "Refinement, fixed, Gauss-Radau and corrector steps return what they accepted",
     "Step refinement restarts every refinement from the same state with equal substeps, stops at the first agreement within tolerance, and leaves the finest result; a fixed step is one step and keeps its size. A Gauss-Radau step is exact for the polynomials its order promises, and its prediction carries them over to the next step; corrector sweeps all restart from the same state, stop when they converge or stop improving, and a step whose error is too large is redone smaller until accepted. The next step proposed is the controller's ratio of the step actually taken.",
     ["histories", "inputs"], "every history of refinement differences, sweep convergence and step errors, all polynomial right hand sides the order covers",
     "regression runs only show energies; a wrong coefficient or a stale state costs some digits",
     ["src/ode-iterator/sequent-iterator.hpp", "src/ode-iterator/const-iterator.hpp", "src/ode-iterator/IAS15.hpp", "src/integrator/Gauss-Radau.hpp"],
     [("refinement", "SequentOdeIterator::iterate"), ("corrector control", "IAS15::iterate, in_converged_window, calc_step_error"), ("Gauss-Radau", "GaussRadau::correct, evaluate, predict, update_b_table")],
     TLC + "traces of the real iterators with scripted errors and polynomial systems validated against the spec",
     "control exact; Gauss-Radau exact on polynomials up to degree 14 (residual below 5e-10) and on state-dependent nilpotent systems")
prop("C14", "Each symplectic method has exactly the order it declares and is symmetric",
     "One step of a symplectic method is a list of drifts and kicks, proportional to the step size, whose composition agrees with the exact flow of drift plus kick through every term up to the order the method declares; in particular drifts and kicks each add up to the step. The list reads the same backwards, so a step back undoes a step.",
     ["inputs", "configurations"], "every method, step size and number type, and every Hamiltonian (all words in drift and kick up to the order)",
     "a regression run cannot tell eighth from tenth order, nor a coefficient wrong in the ninth digit; the tenth order method was in fact of fourth order",
     ["src/integrator/symplectic/symplectic-integrator.hpp"], [("coefficients", "Symplectic2nd, LeapFrogKDK, Symplectic4th ... Symplectic10th::integrate")],
     TLC + "recorded drifts and kicks of the real integrators judged by the order conditions on Lyndon words, evaluated by TLC in fixed point",
     "all order conditions up to order 10 to 1e-10; several step sizes, double and long double")

#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", **anch):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **anch),
                  _technique=technique, _note=note, _level=level))


TLC = "TLA+ model checked with TLC; "
prop("C01", "A run calls every registered callback at the right moment and in order",
     "A run calls the start callbacks once before anything moves, then before every integration step asks the stop conditions, calls the per-step callbacks, and performs exactly one step bracketed by the system's before/after hooks; after the last step the per-step callbacks are called once more and then the stop callbacks once. Within each list callbacks are called in registration order, with the bound extra arguments, on the live system and with the step about to be taken. Nothing is called and nothing moves if the system's step scale vanishes.",
     ["histories", "configurations"], "every combination of registered callbacks and every history of accepted steps of the integrator",
     "unit tests never run the simulator with callbacks; regression tests only look at numbers at the end",
     ["src/simulator.hpp"], [("run loop", "Simulator::run"), ("callback lists", "RunArgs::operations, start_operations, stop_operations, check_stops"), ("step bracket", "Simulator::advance_one_step")],
     TLC + "traces of the real Simulator::run with a scripted system and integrator validated against the spec",
     "design model exhaustive for small scripts; real traces cover systematic small runs and random scripts; times and steps are exact integers")
prop("C02", "A run ends at its end time or at the first true stop condition",
     "A run never steps past its end time, clips the last step, and returns within the requested relative time tolerance of it, in either time direction when the initial step points there; it ends at the first check at which some stop condition is true. The tolerances of the run arguments reach the integrator. When no initial step is given, one proportional to the shortest pairwise free-fall time (times the step scale) is chosen.",
     ["histories", "inputs", "configurations"], "every start/end time, step history, stop-condition history and every built-in method",
     "tests run a few fixed end times with few methods; step histories and stop conditions are never varied",
     ["src/simulator.hpp", "src/core-computation.hpp", "src/spaceHub.hpp"], [("loop condition and clipping", "Simulator::run"), ("stop conditions", "RunArgs::check_stops"), ("free-fall time", "calc::calc_fall_free_time, calc::calc_step_scale")],
     TLC + "scripted run traces and end-to-end runs of real methods validated against the specs",
     "mock runs exact; real methods sampled (15 methods, 2-4 bodies, several tolerances)")
prop("C03", "Sliced callbacks fire at exactly the instants they were set up for",
     "A step slice passes on the first call and then every n-th; a time slice passes on at most one call per slice instant, the first one at or after it and not after the end; a logarithmic slice does the same on its logarithmic instants, skipping instants that have been passed over. This holds as per-step operation, as stop condition (where a call that is not passed on never stops the run), and again from the start after the slice parameters are reset.",
     ["histories", "configurations"], "every sequence of call times, every slice setup and every reset in between",
     "no test touches the slices",
     ["src/args-callback/callbacks.hpp", "src/simulator.hpp"], [("slices", "TimeSlice, StepSlice, LogTimeSlice operator() and reset_slice_params"), ("stop conditions keep their state", "RunArgs::check_stops")],
     TLC + "traces of the real slices, called directly and from Simulator::run, validated against the spec",
     "call times and slice instants exact; logarithmic slices spanning at most one time unit are a known finding")
prop("C04", "The chain is the greedy nearest-neighbour chain over all particles",
     "For every set of at least two particles the chain order is a permutation of the particles that starts from a closest pair and is extended, one link at a time, at whichever end has the closest free particle. Chain-based systems hold such an order for their current positions after construction and after every completed step.",
     ["inputs", "histories"], "every configuration of positions (every order of the pair distances), and every sequence of positions reached",
     "the chain test only checks that transforming back and forth is the identity for random positions",
     ["src/particle-system/chain.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp"], [("chain construction", "Chain::calc_chain_index"), ("re-chaining", "ChainSystem::post_iter_process, ARchainSystem::post_iter_process")],
     TLC + "orders chosen by the real code validated against the spec",
     "greedy construction checked exhaustively for all distance orders of 4 particles; real code on several hundred of the 720 distance orders of 4 points plus random sets to 16 points")
prop("C05", "Chain coordinates carry the Cartesian state without loss, in any order",
     "Transforming to chain coordinates and back returns the state exactly (up to rounding), in any order; re-expressing a chain from one order to another gives the chain of the same particles in the new order. When a system re-chains after a step nothing observable about its particles changes.",
     ["inputs", "histories"], "every pair of orders and every state, every sequence of moves and re-orderings",
     "the test transforms random states with the order that belongs to them; re-ordering is never tested",
     ["src/particle-system/chain.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp"], [("transforms", "Chain::calc_chain, calc_cartesian, update_chain"), ("re-chaining", "post_iter_process of the chain systems")],
     TLC + "traces of the real transforms and chain systems validated against the specs",
     "all pairs of orders for 2-4 particles, random beyond; exact integer coordinates")
prop("C08", "Saving and restoring the flat state array reproduces the system exactly",
     "Writing a system to its flat state array and reading an array back are inverse: time, positions, velocities, auxiliary velocities and the regularisation variables all appear once, in the documented layout, and reading leaves nothing stale. While collection is on, the collected increments since they were cleared equal the change of the state array.",
     ["histories", "configurations"], "every system kind, force class and particle number, every history of steps, saves, restores and collection switches",
     "no test writes or reads a state array; integrators use it on every step and errors only show up as slightly wrong trajectories",
     ["src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/type-class.hpp"],
     [("state array", "write_to_scalar_array, read_from_scalar_array, *_offset, variable_number"), ("increments", "collect_increment, clear_increment, sync_*_increment")],
     TLC + "histories of the real systems with integer forces validated against the spec",
     "8 system kinds x 6 force sets, double and compensated scalars, 2-7 particles")
prop("C09", "Drift and kick mean the same in every representation",
     "A drift advances physical time and positions with the current velocities; a kick advances velocities with the accelerations at the current positions, splitting symmetrically around an auxiliary velocity when forces depend on velocity. Every system kind - Cartesian or chain, plain or regularised - produces the same particle states for the same physical steps, and its derivative agrees with the same accelerations.",
     ["histories", "configurations"], "every system kind, force class, particle number and every sequence of drifts, kicks and hooks",
     "only the accessors of one system kind are unit tested; regression runs compare energies, not states between representations",
     ["src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp"],
     [("drift and kick", "drift, kick, kick_real_vel, kick_pseu_vel"), ("auxiliary velocity", "pre_iter_process"), ("derivative", "evaluate_general_derivative")],
     TLC + "histories of the real systems with integer forces validated against the spec",
     "8 system kinds x 6 force sets, exact integer dynamics")
prop("C10", "Every force contributes once, to the right particles, in its class",
     "The total acceleration of a system - evaluated by itself, in the derivative and in the kicks of a step - is Newtonian gravity over all distinct pairs plus every external force exactly once; each class (gravity, external, velocity dependent, velocity independent) evaluated alone contains exactly its own forces and overwrites whatever the output held. The result does not depend on the representation of the system, gravity conserves momentum, and potential, kinetic and total energy match the same pairs.",
     ["inputs", "configurations"], "every combination of external forces, particle number, configuration and system kind",
     "tests never combine forces and never compare chain with Cartesian evaluation",
     ["src/interaction/interaction.hpp", "src/interaction/newtonian.hpp", "src/core-computation.hpp"],
     [("composition", "Interactions::eval_*"), ("use by the systems", "kick, eval_vel_indep_acc, evaluate_general_derivative of the four system kinds"), ("gravity", "NewtonianGrav::add_acc_to"), ("energies", "calc::calc_potential_energy, calc_kinetic_energy, calc_total_energy")],
     TLC + "evaluations by the real code validated against an exact rational specification",
     "exact rational gravity on lattice configurations with integer distances, 2-6 particles, 6 force sets, 4 system kinds; steps and derivatives of the same system kinds under integer mock forces replayed on the machine of all systems")
prop("C23", "Regularised steps use the prescribed time transformation",
     "A regularised system starts with its time transformation variables equal to minus the potential energy and minus the total energy; a step of a given size covers the physical time given by the scheme's scale factor, for positions and velocities separately, and the reported step scale is that factor. The time transformation variables change only through the work of gravity (or of the external forces), in steps and in the derivative alike.",
     ["inputs", "histories", "configurations"], "every scheme, representation, configuration and history of steps",
     "regularised systems have no unit test; a wrong factor only costs accuracy or time in regression runs",
     ["src/particle-system/regu-system.hpp", "src/particle-system/archain.hpp"],
     [("scale factors", "Regularization::eval_pos_phy_time, eval_vel_phy_time, regu_function"), ("accumulators", "advance_omega, advance_bindE, evaluate_general_derivative")],
     TLC + "real systems on integer-distance configurations and with integer forces validated against the specs",
     "exact rationals for the factors, exact integers for the accumulators")

import importlib.util, glob
for f in sorted(glob.glob(os.path.join(V, "tools", "props_*.py"))):
    exec(open(f).read())

NA = {
}

if __name__ == "__main__":
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"bin/check {i} --tier thorough", technique=p["_technique"], level=p["_level"], level_note=p["_note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check under construction")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")

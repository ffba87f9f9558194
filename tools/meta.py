#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "mpopt/mpopt.py"
LINES = open("/repo/" + SRC).read().splitlines()


def where(name):
    """file:line of `class.method` in the current tree"""
    cls, _, fn = name.rpartition(".")
    start = 0
    if cls:
        start = next(i for i, l in enumerate(LINES) if re.match(r"class %s\b" % cls, l))
    pat = r"\s*(def|class) %s\b" % fn if fn else r"class %s\b" % cls
    n = next(i for i in range(start, len(LINES)) if re.match(pat, LINES[i]))
    return "%s:%d" % (SRC, n + 1)


STUB = "casadi.nlpsol replaced by a recording solver that answers what the explorer chooses"
DEV = "deviation-bounded exhaustive enumeration of configurations of the real code, compared with a reference model"
HIST = "exhaustive enumeration of call histories of the real code against a state-machine model"
TESTS = "The shipped tests run a handful of problems (moon lander, Van der Pol, hyper-sensitive, two-phase Schwartz, launch vehicle) on one or two meshes each and mostly look at the final cost."

# id, title, statement, over, quantifier text, why tests cannot, mechanisms, technique, note
P = []


def prop(i, title, statement, over, text, why, mech, tech, note, observe=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, mech=mech, tech=tech, note=note, observe=observe or []))


prop("C01", "Collocation nodes are the scheme's roots, in order, with both ends",
     "For every supported scheme, degree and reference interval, a segment of degree d has d+1 strictly increasing nodes whose first and last are exactly the ends of the interval, and whose interior nodes are the scheme's own (Legendre-Gauss, Radau, Lobatto, Chebyshev, equally spaced for an unknown name). The nodes do not depend on which degrees were asked for before.",
     ["configurations", "inputs"], "every scheme x degree 1..d_max x reference interval x order of requests",
     "Tests compare the nodes of two or three degrees with stored numbers.", ["CollocationRoots.get_collocation_points", "CollocationRoots.roots_legendre_gauss_radau", "CollocationRoots.roots_legendre_gauss_lobatto", "CollocationRoots.roots_chebyshev_gauss_lobatto"], DEV,
     "Exhaustive up to the degree bound; reference nodes are independently computed polynomial roots.")
prop("C02", "Differentiation matrices are exact on polynomials",
     "On every mesh the first- and higher-order differentiation matrices, at the nodes and at any other points, give the exact derivative of every polynomial up to the segment's degree, segment by segment, and use each segment's own nodal values only. The symbolic and the numerical construction agree.",
     ["configurations", "inputs"], "every scheme, list of segment degrees, evaluation points, derivative order and construction method within the bounds",
     "Tests check one matrix of one mesh; a wrong block offset only shows on meshes with unequal degrees.", ["Collocation.get_diff_matrix", "Collocation.get_composite_differentiation_matrix", "Collocation.get_composite_interpolation_Dmatrix_at"], DEV,
     "Exhaustive within the mesh bound, all polynomials by linearity (a basis is enumerated).")
prop("C03", "Interpolation matrices reproduce polynomials segment by segment",
     "On every mesh, interpolating nodal values at any points gives exactly the value of the polynomial through the nodes of the segment the point belongs to. Points at a node return the nodal value, and segments without evaluation points contribute no rows.",
     ["configurations", "inputs"], "every scheme, list of segment degrees and pattern of evaluation points within the bounds",
     "Tests interpolate once on one mesh.", ["Collocation.get_interpolation_matrix", "Collocation.get_composite_interpolation_matrix"], DEV,
     "Exhaustive within the mesh bound, all polynomials by linearity.")
prop("C04", "Quadrature weights integrate polynomials exactly over each segment",
     "On every mesh the quadrature weights integrate every polynomial up to the segment's degree exactly, over the whole segment and over any part of it, and never mix values of different segments. Weights over an empty interval are zero.",
     ["configurations", "inputs"], "every scheme, list of segment degrees and integration interval within the bounds",
     "Tests look at the sum of one set of weights.", ["Collocation.get_quadrature_weights", "Collocation.get_segment_quadrature_weights", "Collocation.get_composite_quadrature_weights"], DEV,
     "Exhaustive within the mesh bound, all polynomials by linearity.")
prop("C05", "The solver's problem contains exactly the dynamics defects",
     "For every problem, mesh, scheme, scaling and set of segment widths, the nonlinear program contains at every collocation node of every phase, for every state, the equality that the derivative of the state polynomial equals the user's dynamics of that phase evaluated at that node's state, control, time and parameters. No such equality is missing or attached to another node, phase or segment.",
     ["configurations", "inputs"], "every problem, mesh, scheme, scaling and width vector within k deviations of the default, several values of all unknowns",
     TESTS + " A wrong time, width or index at an interior segment leaves those costs within tolerance.", ["mpopt.get_discretized_dynamics_constraints_and_cost_matrices", "mpopt.get_nlp_constraints_for_dynamics"], DEV,
     "Rows captured at the solver boundary are evaluated on probe vectors and matched, up to scaling, sign and order, with a reference transcription.", ["the constraint function handed to the solver"])
prop("C06", "Path and terminal constraints are all there, with the right arguments",
     "Every path constraint of a phase is imposed at every collocation node of that phase and only there, evaluated with that node's unscaled state, control, time and parameters; every terminal constraint is imposed once as an equality with the phase's final and initial state and time. Nothing is imposed for phases without such constraints.",
     ["configurations", "inputs"], "every combination of phases with and without path and terminal constraints, sizes, meshes and scalings within k deviations of the default",
     TESTS, ["mpopt.get_nlp_constraints_for_path_contraints", "mpopt.get_nlp_constraints_for_terminal_contraints", "OCP.has_path_constraints", "OCP.has_terminal_constraints"], DEV,
     "As C05, for path and terminal rows; unexplained extra rows are reported.", ["the constraint function and bounds handed to the solver"])
prop("C07", "The objective is the terminal cost plus the integral of the running cost",
     "The function the solver minimises equals, at every value of the unknowns, the sum over phases of the user's terminal cost and of the quadrature of the running cost over that phase in physical time and unscaled variables. The contribution of every segment is weighted by its own duration.",
     ["configurations", "inputs"], "every problem, mesh, scheme, scaling and width vector within k deviations of the default, several values of all unknowns",
     TESTS + " Cost errors at segment borders vanish as the mesh is refined.", ["mpopt.get_integrated_running_cost", "mpopt.discretize_phase", "mpopt.create_nlp"], DEV,
     "Objective captured at the solver boundary compared numerically with an independent quadrature of the user's costs.", ["the objective handed to the solver"])
prop("C08", "Variable bounds reach the right unknowns, initial state fixed once",
     "Every bound of the user's problem reaches exactly the unknowns it names, in solver units, at every node of its phase; the initial state is fixed to the given value at the first node of the first phase and nowhere else. Unbounded variables stay unbounded.",
     ["configurations", "inputs"], "every combination of bounds, sizes, meshes, scalings and links within k deviations of the default",
     TESTS, ["mpopt.get_nlp_variables", "mpopt_adaptive.get_nlp_variables", "mpopt.create_nlp"], DEV,
     "Bounds captured at the solver boundary compared entry by entry.", ["lower and upper bounds handed to the solver"])
prop("C09", "Linked phases are continuous in time, state and control",
     "For every pair of linked phases the later one starts at the time, the control and the state (plus the permitted jump of that link) at which the earlier one ends; phases that are not linked are not constrained against each other. This holds for chains, branches and arbitrary link lists.",
     ["configurations", "inputs"], "every link structure, jump, number of phases, size, mesh and scaling within k deviations of the default",
     "Tests only have chains of two or four phases with zero jumps.", ["mpopt.get_event_constraints", "mpopt.create_nlp"], DEV,
     "As C05, for linking rows.", ["the constraint function and bounds handed to the solver"])
prop("C10", "Control-rate, mid-point and slope-continuity limits hold in real time",
     "When switched on for a phase, the limits on the control rate apply to the physical time derivative at every node, the control bounds also apply midway between nodes, and the physical control slope is continuous across every inner segment border; when switched off for a phase they add nothing. Every phase and control has its own switch and limits.",
     ["configurations", "inputs"], "every combination of the three switches per phase, limits, sizes, meshes, widths and scalings within k deviations of the default",
     "Tests switch at most one of them on, with equal segment widths, where a missing width factor does not show.", ["mpopt.get_nlp_constraints_for_control_input_slope", "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points", "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments"], DEV,
     "As C05, for the rows of the three features, including their absence.", ["the constraint function and bounds handed to the solver"])
prop("C11", "Scaling changes the numbers the solver sees, not the problem",
     "For every choice of positive scale factors the program handed to the solver is equivalent to the unscaled one: unscaling its unknowns gives the same objective value, the same feasible set and the same bounds and guess. Retrieved results are in the user's units whatever the scaling.",
     ["configurations", "inputs"], "every choice of scale factors from a menu, per kind of variable, with every problem and mesh within k deviations of the default",
     "Tests scale one problem and look at its cost.", ["mpopt.create_variables", "mpopt.get_discretized_dynamics_constraints_and_cost_matrices", "post_process.get_trajectories"], "metamorphic exhaustive enumeration: every scaled configuration against its unscaled twin",
     "Differential comparison of two captured programs on corresponding probe vectors.")
prop("C12", "The default initial guess is the user's straight line",
     "Without a warm start the solver starts from the straight line between the user's start and end guesses of states and controls at every node, and from the guessed times and parameters, phase by phase, in solver units and always finite.",
     ["configurations", "inputs"], "every combination of sizes, meshes, scalings and guesses (also equal start and end time) within k deviations of the default",
     "A wrong guess only changes how many iterations the solver needs; no test looks at it beyond one size.", ["mpopt.init_solution_per_phase", "mpopt_adaptive.init_solution_per_phase", "mpopt.initialize_solution"], DEV,
     "The initial point captured at the solver boundary compared entry by entry.", ["initial point handed to the solver"])
prop("C13", "A warm start is handed over unchanged and changes nothing else",
     "Whatever subset of trajectory and multipliers a given solution contains, exactly these reach the solver unchanged; the default guess is used when no trajectory is given, and bounds and segment widths are those of a cold start. The given solution is not modified.",
     ["inputs", "histories"], "every subset of the accepted entries (and other entries), three value types, first, later and re-initialised solves, all optimizers",
     "One test warm-starts one optimizer with a complete solution.", ["mpopt.get_solver_warm_start_input_parameters", "mpopt.solve", "mpopt_h_adaptive.solve"], HIST,
     "Exhaustive over subsets and call positions; " + STUB + ".", ["every call of the solver"])
prop("C14", "Retrieved data are the solver's answer, in the user's units",
     "The states, controls, times and parameters retrieved for any list of phases are the solver's answer at the collocation nodes, unscaled with each variable's own factor, at times that follow from the phase's start and end time and the segment widths used in that solve. With scaled output requested, the solver-side values are returned instead.",
     ["configurations", "inputs"], "every problem size, mesh, scaling, width vector, optimizer and list of phases within k deviations of the default",
     "Tests read data of one or two examples and mostly check shapes.", ["post_process.get_trajectories", "post_process.get_original_data", "mpopt.init_trajectories"], DEV,
     "Answers are chosen by the explorer; data compared with the reference layout.", ["process_results(...).get_data"])
prop("C15", "Interpolated data lie on the solution's polynomials",
     "Interpolated data contain, for each requested phase in order, every segment's own interpolation grid with states and controls equal to that segment's polynomial at the corresponding time, starting at the phase's start and ending at its end. Values do not depend on which other phases are requested.",
     ["configurations", "inputs"], "every problem size, mesh, scaling, width vector, list of phases and grid within k deviations of the default",
     "Tests only check that interpolation runs.", ["post_process.get_interpolated_data", "post_process.get_interpolated_time_grid", "mpopt.interpolate_single_phase"], DEV,
     "Reference interpolation with barycentric formulas.")
prop("C16", "Residual grids cover every phase in order, without its ends",
     "The grid on which residuals are evaluated has, for every grid type, phase, mesh and set of widths, its points strictly inside the phase, strictly increasing, each assigned to the segment that contains it, with the number of points the user set. Each phase uses its own grid type.",
     ["configurations", "inputs"], "every grid type per phase, number of points, mesh, width vector and optimizer within k deviations of the default",
     "Tests use one grid on one mesh.", ["mpopt.get_residual_grid_taus", "mpopt.compute_interpolation_taus_corresponding_to_original_grid"], DEV,
     "Grid points compared with the definition of each grid.")
prop("C17", "Dynamics residuals are the true defect of the interpolated solution",
     "The reported dynamics residual at every grid point is the derivative of the state polynomial minus the user's dynamics at the interpolated state, control, time and parameters of that phase, scaled by the segment's duration; the relative variant divides by the dynamics. Times and residuals correspond point by point for every list of phases.",
     ["configurations", "inputs"], "every problem, mesh, width vector, scaling, grid and residual type within k deviations of the default",
     "Tests only check that residuals are small for a good solution, which any mis-evaluated time or segment still passes.", ["mpopt.get_dynamics_residuals", "mpopt.get_dynamics_residuals_single_phase"], DEV,
     "Answers are not solutions: the residual is large and structured, so every index and factor shows.")
prop("C18", "State residuals compare with the dynamics integrated per segment",
     "The reported state residual at every grid point is the state polynomial minus the state obtained by integrating the user's dynamics from the start of that segment; integrated states, controls and times correspond to the same points. The relative variant is normalised by the largest integrated state of the phase.",
     ["configurations", "inputs"], "every problem, mesh, width vector, scaling, grid and residual type within k deviations of the default",
     "Tests only check that residuals are small for a good solution.", ["mpopt.get_states_residuals", "mpopt.compute_states_from_solution_dynamics"], DEV,
     "Compared with high-order Gauss-Legendre integration along the reference interpolant.")
prop("C19", "Refined segment widths partition each phase as the method promises",
     "From any solution, refinement returns for every phase positive widths that sum to one; phases below their tolerance keep theirs, merge-split keeps the borders between resolved and unresolved segments and gives the freed segments to the unresolved ones, equal-area shares the residual equally (blended with the old widths), and control-slope places borders at the steepest nodes within the width limits.",
     ["inputs", "histories"], "every assignment of residual levels to segments and phases, every sequence of such solutions up to the depth bound, all methods, limits and tolerances",
     "Tests refine a few hand-written residual vectors.", ["mpopt_h_adaptive.compute_seg_width_based_on_residuals", "mpopt_h_adaptive.merge_split_segments_based_on_residuals", "mpopt_h_adaptive.get_roots_wrt_equal_area", "mpopt_h_adaptive.compute_seg_width_based_on_input_slope"], "explicit-state exploration: states are width vectors reached by the real code, transitions are solver answers by residual pattern",
     "All residual patterns over a three-letter alphabet; continuous residual values are represented by levels.", ["segment widths handed to the solver"])
prop("C20", "The width-refinement loop stops for the right reason with the last answer",
     "For every sequence of solver answers, the loop makes at most the permitted number of solves, each with a valid partition and warm-started by the previous answer, stops when the error is below tolerance, when widths or error have settled, or at the limit, and never otherwise. The returned solution is the last answer, and results read afterwards use the widths it was solved with; a first solution already below tolerance is returned without solving.",
     ["histories", "inputs"], "every sequence of solver answers over an alphabet of residual patterns up to the depth bound, for every method, iteration limit and kind of first guess",
     "Tests run the loop on two smooth problems with a real solver, which always takes the same path.", ["mpopt_h_adaptive.solve", "mpopt_h_adaptive.get_segment_width_parameters"], HIST,
     "The solver is the adversary: all answer sequences up to the bound; " + STUB + ".", ["every call of the solver", "returned solution and results"])
prop("C21", "Optimized segment widths are bounded, sum to one and are used in results",
     "When segment widths are unknowns of the program, every phase has the constraint that they sum to one, their bounds and residual tolerances are the user's for that phase, bounds on states and controls also hold midway between nodes, and the retrieved trajectories use the widths the solver found.",
     ["configurations", "inputs"], "every problem, mesh, scaling, bounds and width settings within k deviations of the default",
     "Tests solve one problem with this optimizer and check its cost.", ["mpopt_adaptive.get_nlp_constrains_for_segment_widths", "mpopt_adaptive.get_nlp_variables", "mpopt_adaptive.solve"], DEV,
     "As C05, for the rows of the width optimizer, plus retrieval from chosen answers.")
prop("C22", "Optimizers are isolated from each other and from later edits",
     "What an optimizer hands to the solver and returns depends only on the problem as it was when the optimizer was created and on its own calls: other optimizers, and later changes of the problem object or mesh list, have no influence in any interleaving. The user's problem, mesh, options and solutions are never modified.",
     ["histories", "schedules"], "every interleaving of the calls of two optimizers of every pair of kinds, with changes of the shared problem object in between",
     "Tests create one optimizer at a time.", ["mpopt.__init__", "mpopt.reset_mpopt", "Collocation.__init__", "mpopt.solve"], "exhaustive interleaving of call sequences on the real code, differential against isolated runs",
     "All interleavings of the bounded programs; reference runs in processes of their own.")
prop("C23", "Problem defaults are as documented and validation accepts exactly good input",
     "A new problem has the documented defaults in every phase for every size; validation accepts every well-formed problem, and rejects every problem with a single defect: a missing or extra callback, dynamics of the wrong size, a cost without a value, an empty list of constraints, wrong shape of any array (slope limits and switches included), or any lower bound above its upper bound.",
     ["inputs", "configurations"], "every size within the bounds, every well-formed problem within k deviations, every single defect at every position",
     "Tests validate one good problem and a few bad ones.", ["OCP.__init__", "OCP.validate"], "exhaustive enumeration of problems and single-defect mutants against an accept/reject model",
     "Complete for single defects of the enumerated kinds.")
prop("C24", "Plots show the retrieved data of the requested phases",
     "Every curve drawn for a list of phases carries exactly the retrieved (plain or interpolated) values of that variable over the times of those phases, one curve per state and control, and residual panels show the residuals at their own times. Requested phases, and no others, are drawn.",
     ["configurations", "inputs"], "every list of phases, size, mesh, plot function and residual pattern within the bounds",
     "Tests check that plotting does not raise.", ["post_process.plot_phases", "post_process.plot_x", "post_process.plot_u", "post_process.plot_residuals", "post_process.plot_all"], DEV,
     "Data of the matplotlib artists compared with retrieved data.")
prop("C25", "The mesh-and-order refinement follows its rules within the user's limits",
     "For every sequence of solver answers, each round raises the order of exactly the segments whose error exceeds the tolerance in some phase, within the order limits, and then splits exactly those that remain too rough, while segments are available; all phases keep valid partitions. It stops as soon as every error is below the tolerance or at the round limit, and returns the last answer together with the mesh it belongs to.",
     ["histories", "inputs"], "every sequence of solver answers over an alphabet of (error, curvature) per segment up to the depth bound, for every limit setting",
     "One test runs it on one problem until it converges.", ["mpopt_ph_adaptive.solve_ph", "mpopt_ph_adaptive.get_abs_max_residual"], HIST,
     "The solver is the adversary: all answer sequences up to the bound; model state is (orders, widths per phase); " + STUB + ".", ["mesh and widths of every solve", "returned solution"])
prop("C26", "Reported second derivatives are those of the interpolated solution",
     "The second derivatives of states and controls reported on any grid are those of the segment polynomials at these points, with the matching times, for every phase, mesh and grid type.",
     ["configurations", "inputs"], "every problem size, mesh, width vector, scaling and grid within k deviations of the default",
     "No test compares their values.", ["mpopt.get_state_second_derivative", "mpopt.get_state_second_derivative_single_phase"], DEV,
     "Compared with the reference derivative of the interpolant.")
prop("C27", "After a mesh change an optimizer behaves like a fresh one",
     "Whatever was solved or processed before, changing orders, number of segments or scheme and resetting leads to the same program, bounds, guess, widths and results as a new optimizer built directly on that mesh.",
     ["histories"], "every history of solves, result processing and mesh or scheme changes up to the depth bound, all optimizers",
     "Tests never reuse an optimizer on a second mesh, except through the adaptive loop.", ["mpopt.reset_mpopt", "mpopt.create_solver", "mpopt.compute_numerical_approximation", "mpopt.create_variables"], HIST,
     "All histories up to the bound, differential against a fresh optimizer.")
prop("C28", "Solver options and widths of a call apply to that call only as documented",
     "A solver object is created on the first solve, after a reset and on request, with the named plugin and the documented defaults overridden by exactly the user's options; later calls reuse it. Segment widths given to a call apply to that call alone, and no option dictionary is modified.",
     ["histories"], "every history of solve calls up to the depth bound over an alphabet of options, plugins, widths and re-creation, all optimizers",
     "Tests make one or two calls with one set of options.", ["mpopt.create_solver", "mpopt_adaptive.create_solver", "mpopt.solve"], HIST,
     "All histories up to the bound; " + STUB + ".", ["every creation and call of the solver"])
prop("C29", "Problems with polynomial solutions are solved exactly on every mesh",
     "For problems whose optimal trajectory is a polynomial of degree not above the mesh's, the solution found with the real solver has the closed-form cost, states, controls, times and parameters, at nodes and in between, for every optimizer, mesh, scaling and start time.",
     ["configurations", "inputs"], "8 problems x every mesh, optimizer, scaling, start time, width and warm start within k deviations of the default (other schemes than Radau: one segment)",
     TESTS, ["mpopt.solve", "mpopt.create_nlp", "mpopt_h_adaptive.solve", "mpopt_adaptive.solve", "mpopt_ph_adaptive.solve_ph"], "deviation-bounded exhaustive enumeration of end-to-end runs of the real code against closed forms",
     "IPOPT is trusted and runs for real; this checks that the pieces decided by the other properties work together.")
prop("C30", "Solving in one call is the same as the explicit steps",
     "Creating, solving and processing in a single call hands the same program to the solver and returns the same data, residuals and plots as doing the three steps with the same arguments, for every way of giving the mesh and every option.",
     ["configurations"], "every combination of mesh form, scheme, solve options, plot and residual switches and problem",
     "Tests call it once with defaults.", ["solve", "mpopt.__init__", "mpopt.process_results"], "exhaustive enumeration of argument combinations, differential against the explicit steps",
     "Complete for the enumerated argument values.")

prop("C31", "Results already obtained stay valid and looking at them changes nothing",
     "Whatever is done with an optimizer afterwards, solutions and processed results obtained earlier keep saying what they said, and processing, reading, plotting, residuals and refinement questions influence neither later solves nor later results. Results share no data with the lists and arrays of the user. A solution that contains its own segment widths can be processed at any time.",
     ["histories"], "every history of solves, mesh changes, processing, reading, plotting, diagnostics and user edits up to the depth bound, all optimizers",
     "Tests process one result of one solve and look at it once.", ["mpopt.process_results", "mpopt_adaptive.process_results", "post_process.__init__", "mpopt.solve"], "exhaustive enumeration of call histories of the real code, differential against histories without the reading calls",
     "All histories up to the bound; " + STUB + ".")
prop("C32", "A call that fails leaves the optimizer as it was",
     "If the creation or a call of the solver, or a function of the user, raises during a solve, a refinement loop or result processing, the exception reaches the user, and the problem and all settings are unchanged. Earlier solutions still give the same results, and every later call behaves as if the failed one had not been made (a solver object that was already created may be kept).",
     ["crash_points", "histories"], "every kind of crash point (thorough: every crash point) of every failing call in every enumerated history before and after it, all optimizers",
     "No test makes anything fail.", ["unchanged_on_failure", "mpopt.create_solver", "mpopt.solve", "mpopt_h_adaptive.solve", "mpopt_ph_adaptive.solve_ph"], "exhaustive fault injection: every crash point of bounded call histories of the real code, differential against the history without the failed call",
     "Faults are exceptions at the boundary to the solver and to user functions.")
prop("C33", "Answers do not depend on the questions asked before",
     "The collocation object, a processed result and a solved optimizer give the same answer to a request (matrices, weights, data at any grid, residual grids, residuals, second derivatives, interpolation, refined widths), whatever was requested from the same object before. Answers depend on the latest solves and settings only.",
     ["histories"], "every word of requests and settings up to the length bound, for three kinds of objects",
     "Tests ask a new object one question.", ["Collocation.get_diff_matrix", "Collocation.get_quadrature_weights", "post_process.get_interpolated_data", "mpopt.get_residual_grid_taus", "mpopt.interpolate_single_phase", "with_widths_of_solution"], "exhaustive enumeration of request sequences to the real objects, differential against an object that was asked nothing before",
     "All request sequences up to the bound; correctness of the single answers is decided by C02-C04 and C14-C18, C26; " + STUB + ".")


def mechanism(m):
    return {"name": m, "where": where(m)}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert len([s for s in re.split(r"(?<=[.])\s+(?=[A-Z])", p["statement"]) if s]) <= 3, p["id"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": [SRC], "mechanism": [mechanism(m) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(ROOT, "mc/props/%s.py" % p["id"].lower())):
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": "model checking: " + p["tech"], "level": "model_checking", "level_note": p["note"]})
    have = {c["property"] for c in checks}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
                   "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in have],
                   "notes": "No hooks in /repo: the checks observe and control the code at its boundary to the solver (casadi.nlpsol) and through its public API. See DESIGN.md."}, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()

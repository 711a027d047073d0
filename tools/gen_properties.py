# -*- coding: utf-8 -*-
"""Writes /verif/properties.jsonl (the source of the list of properties)"""
import json
from pathlib import Path

S = "src/disc_solver/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         hook=None, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": S + w}
                      for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "Everything stored in a run file reads back as it was written",
     "A run written to a solution file and read back, in the same or another "
     "process, has the same run details, the same configuration and solution "
     "inputs (including every optional setting, present or absent), and the "
     "same numbers, flags, problems, roots, derivatives and internal data for "
     "every solution in it. Writing what was read back to a new file and "
     "reading that gives the same again. Reading never changes the file.",
     ["inputs", "histories"],
     "for every combination of present and absent optional fields of a run, "
     "its inputs and its solutions, and every number of solutions",
     "The tests write the output of one or two solver runs with one "
     "configuration each; they reach few combinations of absent and present "
     "fields and compare next to none of what they read back.",
     ["file_format/_dumpers.py", "file_format/_loaders.py",
      "file_format/_containers.py"],
     [("versioned dumpers", "file_format/_dumpers.py"),
      ("loaders of the current version", "file_format/_loaders.py")],
     ["h5preserve.open", "Run", "Solution"])

prop("C02", "Files of every older format version load into the right fields",
     "A group written by any supported older version of the file format loads "
     "with each stored value in the field of that meaning: values stored in "
     "terms of β come back in terms of γ = 5/4 - β, names which changed are "
     "mapped to their present names, and settings which did not exist then "
     "come back as the setting which reproduces the behaviour of that "
     "version, or as absent. No stored value is lost, swapped with another or "
     "invented.",
     ["inputs"],
     "for every supported format version of every kind of stored object, and "
     "every combination of absent and present optional values it allowed",
     "The tests load a handful of example files, from a few versions, and "
     "mostly check that loading does not raise.",
     ["file_format/_loaders.py", "file_format/_old_dict_loading.py",
      "file_format/_utils.py"],
     [("one loader for each version", "file_format/_loaders.py"),
      ("conversion from β", "file_format/_utils.py")],
     ["h5preserve.open"])

prop("C03", "Configuration survives every conversion between its forms",
     "A configuration converted to solver input and back, written as a "
     "configuration file and read again, or written as a row of a batch file "
     "and read again, yields the same solver input: every number to the last "
     "bit, and every optional setting as absent, as none or as its value. "
     "None of the conversions changes the object converted.",
     ["inputs"],
     "for every combination of optional settings (absent, none, boundary and "
     "ordinary values) and all numbers from a set with extreme mantissas and "
     "exponents",
     "The tests convert single fixed configurations, with the default for "
     "most optional settings.",
     ["file_format/_containers.py", "solve/config.py", "solve/utils.py",
      "solve/csvrunner.py"],
     [("string conversions", "file_format/_containers.py"),
      ("reading of the configuration file", "solve/config.py")],
     ["ConfigInput.to_soln_input", "SolutionInput.to_config_input",
      "ConfigInput.to_conf_file", "get_input_from_conffile",
      "get_csv_inputs"])

prop("C04", "Configuration files: given values win, others take the default",
     "Reading a configuration file gives each setting the value in the file "
     "if its section has exactly that key, else the documented default, "
     "independently of all the other keys, of their order and of the letter "
     "case of similar keys; no file at all gives all the defaults. Overrides "
     "replace exactly the settings they name, with the last one given for a "
     "name winning, and an override naming no setting is refused before "
     "anything is solved or written.",
     ["inputs", "configurations"],
     "for every single key and pair of keys present, every section the key "
     "could be in, every case variant, and every override of up to two "
     "settings on top",
     "The tests read one fixed file and never check most settings, section "
     "mix-ups, or overrides against a file which has the same key.",
     ["solve/config.py", "solve/utils.py", "utils.py"],
     [("defaults", "solve/config.py"), ("overrides", "solve/utils.py"),
      ("case sensitive keys", "utils.py")],
     ["get_input_from_conffile", "validate_overrides", "ds-soln"])

prop("C05", "Re-solving: override beats stored solution beats stored config",
     "When a stored solution is solved again, each setting used by the solver "
     "is the override if one is given for it, else the value the stored "
     "solution was made with, whichever method produced that solution, and "
     "the stored configuration with the overrides is what is recorded in the "
     "new file together with the file and solution it is based on. The "
     "stored objects are not modified and the original file is unchanged.",
     ["inputs", "histories"],
     "for every setting and pair of settings, each of: differing between "
     "stored configuration and stored solution or not, overridden or not, "
     "overridden by an equal value or another, in every selection of solution",
     "The tests resolve one file with one override, whose solution input is "
     "equal to its configuration.",
     ["solve/resolve.py", "solve/config.py"],
     [("merging", "solve/config.py"), ("resolve", "solve/resolve.py")],
     ["resolve", "new_inputs_with_overrides", "ds-resolve"])

prop("C06", "Batch files: each data row becomes the input it describes",
     "Reading a batch file yields one input for each data row, in order, with "
     "each cell under the setting of its column, with or without a header, "
     "for any order of the columns, with comment lines anywhere, ignoring "
     "columns which are no settings and leaving out settings without a "
     "column or cell (which take their default). The label asked for and the "
     "file and solution a row came from are carried along. No row is dropped, repeated or read as a "
     "header.",
     ["inputs"],
     "for all files of up to three data rows made from a set of headers, "
     "column orders, extra and missing columns, quoted and plain cells, "
     "comments at every position, and short rows",
     "The tests read a few fixed files.",
     ["solve/utils.py", "solve/csvrunner.py", "solve/hdf5runner.py"],
     [("comment filter and header detection", "solve/utils.py"),
      ("input for each row", "solve/hdf5runner.py")],
     ["get_csv_inputs", "csvrunner", "hdf5runner"])

prop("C07", "The collection of solutions behaves as an append-only record",
     "Under any sequence of adding, reading, iterating, freeing, asking for "
     "the last, setting the final solution and finalising, in memory, on an "
     "open file or after reopening it, with caching on or off, the solutions "
     "of a run agree with a plain ordered record: each addition gets the next "
     "number and never displaces another, the last is the one added last "
     "even beyond ten, and each number always gives the values added under "
     "it. The final solution can be set once, further attempts are refused "
     "without effect, and finalising only chooses the last solution if none "
     "was chosen.",
     ["histories"],
     "for every sequence of operations up to a depth, with caching on and "
     "off, in memory and on file, and every reopening point",
     "The tests add one to a few solutions in a fixed order; no test "
     "interleaves reopening, reading and adding or covers disabled caching.",
     ["file_format/_containers.py", "file_format/_dumpers.py",
      "file_format/_loaders.py"],
     [("numbering, on demand loading", "file_format/_containers.py"),
      ("write once final solution", "file_format/_containers.py")],
     ["Run.solutions", "Run.final_solution", "Run.finalise"])

prop("C08", "Selecting a solution by name, default, final or latest",
     "Asking a run for a solution returns: with no selection, the first one; "
     "with a number, the one stored under that number; with final, the final "
     "solution, or nothing if there is none; with latest, the final solution if there is one and else the "
     "one with the highest number, numerically. A selection which does not "
     "exist raises, and never returns another solution; every command and "
     "plot which takes a selection obeys the same rule.",
     ["inputs", "histories"],
     "for all runs with up to twelve solutions, any one or none of them "
     "final, in memory and from file, and all selections",
     "The tests use runs with one solution, which is also the final one, for "
     "which all rules give the same answer.",
     ["utils.py", "analyse/utils.py", "analyse/dump_csv.py",
      "analyse/combine_plot.py"],
     [("get_solutions", "utils.py")],
     ["get_solutions", "dump_csv", "resolve"])

prop("C09", "A solver run never destroys a file and keeps what it has done",
     "Starting a solve, a resolve or a batch run whose output file exists "
     "fails and leaves the existing file as it was. Whatever point of a solve "
     "fails, the output file afterwards is closed and readable and has the run "
     "details and every solution added before the failure, unchanged; if it is "
     "the writing of a solution itself which fails, the solutions written "
     "before stay as they were. The input file is never altered. On success "
     "the file has a final solution, or none only where the method reports "
     "failure.",
     ["crash_points", "fault_sequences", "configurations"],
     "for every sonic method stand-in history of up to three solutions, every "
     "point of failure in it and each kind of error, for solve, resolve and "
     "the batch runner, with and without a given output name",
     "The tests run successful solves into new files only.",
     ["solve/__init__.py", "solve/resolve.py", "solve/hdf5runner.py",
      "file_format/_containers.py"],
     [("exclusive creation, run written first", "solve/__init__.py"),
      ("solutions written when added", "file_format/_containers.py")],
     ["solve", "resolve", "hdf5runner"])

prop("C10", "The step method is a convergent binary search on γ",
     "For every sequence of outcomes of the attempts, the step method moves γ "
     "up after a sign flip and down after a divergence, by a constant step "
     "until the outcome first changes and by half of the previous step at "
     "each attempt from then on, changing nothing else in the input. It makes "
     "at most the allowed number of attempts and of steps before the outcome "
     "changes, ends at a divergence whose step no longer changes γ (after a "
     "flip there, γ goes up by the least that changes it), and stores every "
     "attempt in order. A satisfactory attempt ends the search, is stored and "
     "becomes the final solution; otherwise, unless asked not to choose one, "
     "no unsatisfactory attempt is reported as success, except at the "
     "numerical limit, where the last one is final.",
     ["histories", "inputs"],
     "for every sequence of outcomes (satisfactory, diverging, flipping, "
     "stop, failing) up to a depth, for several limits of attempts and steps",
     "The tests run the method on two or three real inputs, each of which "
     "follows a single path through the search.",
     ["solve/stepper.py"],
     [("binary_searcher", "solve/stepper.py"),
      ("stepper_creator", "solve/stepper.py"),
      ("step_input", "solve/stepper.py")],
     ["stepper.solver", "run.solutions", "run.final_solution"])

prop("C11", "The fast crosser brackets and narrows the best inflow speed",
     "For every function giving how far a solution gets for each inflow "
     "speed, the fast crosser steps up and then down by a hundredth of the "
     "initial inflow speed as long as this helps, then only tries inflow "
     "speeds inside the limits found, keeps the best tried inside an ever "
     "narrower interval, and for a function with one maximum in them "
     "converges to it. Between attempts it changes only the inflow speed, and "
     "carries over γ from what the step search of the attempt found. It "
     "follows each step search with a solve of the solution found up to the "
     "final angle with the final number of steps, which decides how far the "
     "solution gets. An attempt whose step search fails counts as getting "
     "nowhere, and does not end the search. It ends with an error status "
     "exactly if no solution was found.",
     ["histories", "inputs"],
     "for every order of the qualities of the first attempts up to a depth, "
     "every failing attempt, and a family of functions with one maximum",
     "The tests run it for one or two attempts on one input, which never "
     "reaches the narrowing of the interval.",
     ["solve/fast_crosser.py"],
     [("phases", "solve/fast_crosser.py")],
     ["fast_crosser.solver", "run.solutions"])

prop("C12", "The MCMC method keeps all solutions and reports the best",
     "For every sequence of proposals, each proposal which can be solved is "
     "stored once, in order, with an input which differs from the original "
     "exactly in the variables being sampled, and proposals which are "
     "invalid, imply no initial conditions, cannot be solved or have no "
     "finite probability are rejected with zero probability without ending "
     "the search or being reported as best. The final solution is the stored "
     "one with the highest probability, the first of equals, and none if "
     "nothing was stored. The variables sampled are γ and those asked for, "
     "each mapped to itself.",
     ["histories", "inputs"],
     "for every sequence of outcomes of proposals up to a depth, and every "
     "choice of variables",
     "The tests run one short chain with a fixed seed.",
     ["solve/mcmc.py"],
     [("best so far", "solve/mcmc.py"), ("variables", "solve/mcmc.py")],
     ["mcmc.solver", "run.final_solution"])

prop("C13", "Batch runners keep order and isolate failures",
     "For any number of workers and any order in which they finish, a batch "
     "run makes exactly one solver run for each input row, with the settings "
     "of that row and the overrides. The batch to file variant writes one "
     "file for each row, and the batch to table variant writes one row of "
     "output for each row whose method succeeded with a final solution, in "
     "the order of the input, each complete and readable again as input. A row which fails to "
     "solve does not stop, drop or change the others.",
     ["schedules", "fault_sequences", "inputs"],
     "for every assignment of success, failure and solver error to up to four "
     "rows, every completion order forced by a controlled schedule of up to "
     "three workers",
     "The tests run two rows, both successful, in whatever order they happen "
     "to finish.",
     ["solve/csvrunner.py", "solve/hdf5runner.py", "utils.py"],
     [("ordered results from the pool", "solve/csvrunner.py"),
      ("solver errors are caught for each row", "solve/hdf5runner.py")],
     ["csvrunner", "hdf5runner"])

prop("C14", "Accepting and classifying solutions",
     "A solution is valid exactly if the solver ended with success, its "
     "vertical velocity is never negative and never decreases, and its "
     "density is never negative; it is best only if it is also valid, comes "
     "near the sonic point, and its velocity there does not accelerate. "
     "Classification for the search says sign flip for a reported negative "
     "velocity and for solutions which never come near the sonic point, and "
     "diverge for solutions which pass it or rise up to it. Neither changes "
     "the solution.",
     ["inputs"],
     "for all velocity and density profiles of up to five points over a grid "
     "which has the thresholds and both of their sides, every solver flag and "
     "every kind of reported problem",
     "The tests classify the output of a few real solver runs, none of which "
     "is at a threshold.",
     ["solve/utils.py", "solve/stepper.py"],
     [("validate_solution", "solve/utils.py"),
      ("is_solution_best, v_θ_deriv_splitter", "solve/stepper.py")],
     ["validate_solution", "is_solution_best"])

prop("C15", "Critical points are where each wave speed is first reached",
     "The wave speeds reported for any state are the slow, Alfvén and fast "
     "speeds of ideal MHD along the vertical direction, ordered slow, sound "
     "and Alfvén, fast. The critical points reported for a solution are the "
     "angles, by linear interpolation between the two neighbouring points "
     "known, at which the flow first reaches each wave speed, and none for "
     "speeds it does not exceed; undefined values in the solution neither "
     "hide a crossing nor make one up. The index reported for each is the "
     "first point at or beyond the crossing.",
     ["inputs"],
     "for all profiles up to six points over a grid around the crossing value "
     "with undefined entries at any subset of positions, and all states of a "
     "grid of fields and densities",
     "The tests compute them for real solutions with no undefined values, and "
     "do not compare with a reference.",
     ["critical_points.py", "utils.py"],
     [("first_closest_index, interp_for_value", "utils.py"),
      ("wave speeds", "critical_points.py")],
     ["get_all_sonic_points", "get_critical_point_indices",
      "mhd_wave_speeds"])

prop("C16", "Converting coordinates preserves the physics, point by point",
     "Moving a solution to constant cylindrical radius scales velocities, "
     "fields, densities and diffusivities with the powers of radius of the "
     "self-similar model, at the height of each angle, and rotating it to "
     "cylindrical components preserves the size of velocity and field, with "
     "the azimuthal components unchanged and the midplane a fixed point. "
     "Converting a single point gives the same as converting it as part of a "
     "whole solution, each component comes from its own, and the input is "
     "not modified. Physical normalisation is consistent: it gives the "
     "Keplerian, sound and Alfvén speeds of the requested location.",
     ["inputs"],
     "for all states of a grid with pairwise different components, a grid of "
     "angles including the midplane, powers and aspect ratios, as single "
     "points and as solutions up to four points",
     "The tests only plot converted solutions.",
     ["utils.py", "analyse/vert_plot.py"],
     [("scale_solution_to_radii", "utils.py"),
      ("convert_spherical_to_cylindrical", "utils.py")],
     ["convert_spherical_to_cylindrical", "scale_solution_to_radii",
      "get_normalisation"])

prop("C17", "Joining and flipping internal data keeps entries aligned",
     "For any sequence of joining and flipping internal data of any sizes, "
     "including empty ones, each entry keeps its angle, parameters, "
     "derivatives and Jacobian together, in the order of the parts or its "
     "reverse, and no entry is lost or repeated. The problems of all the "
     "parts are kept under their angles, and a lookup of the problems of an "
     "angle, as a number or as text, agrees for presence, value and removal. "
     "The parts joined keep their own contents.",
     ["histories"],
     "for every expression of joins and flips over up to four parts of up to "
     "two entries, and all sequences of operations on the problems up to a "
     "depth",
     "The tests join the data of real runs and never look at the alignment.",
     ["file_format/_containers.py"],
     [("InternalData, JacobianData, Problems",
       "file_format/_containers.py")],
     ["InternalData", "Problems"])

prop("C18", "Shocks obey the isothermal jump conditions everywhere tried",
     "Across each shock tried, mass flux and momentum flux of the isothermal "
     "flow are conserved, the product of the vertical velocities is the "
     "sound speed squared, and all other variables are continuous; the "
     "solution after the shock starts at the angle of the shock and goes on "
     "over the remaining angles. A shock is tried at exactly those points of "
     "the solution beyond the minimum angle and the velocity maximum whose "
     "velocity is between the limits. A point which fails at any stage "
     "affects no other, and the stored solution and run are not modified.",
     ["inputs", "fault_sequences"],
     "for all velocity profiles up to six points over a grid with the limits "
     "and both of their sides, all angles, undefined entries, and a fault at "
     "every stage of each point",
     "The tests run one solution through the command without checking what "
     "it computed.",
     ["solve/shock.py", "file_format/_containers.py"],
     [("jump conditions", "solve/shock.py"),
      ("choice of points", "solve/shock.py")],
     ["find_shock_test_values", "get_shock_modified_initial_conditions",
      "compute_shock"])

prop("C19", "The system of equations solved is that of the model",
     "At every state, the derivatives given to the integrator satisfy the "
     "model's equations: mass, three momentum equations, solenoidal field, "
     "zero azimuthal electric field, and the induction equation in either "
     "formulation, with the diffusivities following field and density, or "
     "constant if so configured. The result is the same whether or not "
     "internal data is stored, for one state or many at "
     "once, and is independent of earlier evaluations; states with negative "
     "density or negative velocity are reported as such and not evaluated.",
     ["inputs", "histories", "configurations"],
     "for all states of a grid over every variable and angle with all sign "
     "combinations, each subset of diffusivities, all options, and all "
     "orders of evaluation of up to three states",
     "The tests check a few equations at single states, with one choice of "
     "options, and the outputs of whole runs only against themselves.",
     ["solve/solution.py", "solve/deriv_funcs.py", "solve/j_e_funcs.py"],
     [("ode_system", "solve/solution.py"),
      ("derivatives", "solve/deriv_funcs.py")],
     ["ode_system"])

prop("C20", "Midplane conditions and series satisfy the equations",
     "The initial conditions are those of the configured input: symmetric at "
     "the midplane, with the inflow speed, density, field and diffusivities "
     "asked for, and an azimuthal velocity, field gradient or electric field "
     "for which radial and azimuthal momentum balance and induction hold "
     "there; input for which there are none is refused with an error naming "
     "the problem. The coefficients of the series off the midplane agree "
     "with the derivatives of the equations there, in both formulations and "
     "with either treatment of the diffusivities.",
     ["inputs", "configurations"],
     "for all inputs of a grid over inflow speed, field strength, aspect "
     "ratio, γ, subsets of diffusivities and their signs, and all options",
     "The tests check regression values at single inputs.",
     ["solve/config.py", "solve/deriv_midplane.py", "solve/taylor_space.py"],
     [("define_conditions", "solve/config.py"),
      ("taylor coefficients", "solve/deriv_midplane.py")],
     ["define_conditions", "taylor_series"])

prop("C21", "Solutions are joined seamlessly from their parts",
     "For every combination of options, a solution has one state for each "
     "angle, starts at the midplane with the initial conditions, has "
     "increasing angles up to the requested end, holds each requested angle up "
     "to where the solver got (except for those jumped over on purpose), and "
     "continues each part from where and with what the previous one ended. "
     "Conflicting options are refused with a solver error before solving. "
     "Solving the same input again gives the same solution bit by bit, whether "
     "or not internal data is kept, and changes neither the input nor the "
     "initial conditions.",
     ["configurations", "inputs", "histories"],
     "for every combination of start-off method, sonic point treatment, "
     "formulation, diffusivity treatment, stopping function and storage over "
     "a set of inputs",
     "The tests run a few combinations and compare final numbers only with "
     "earlier runs.",
     ["solve/solution.py"],
     [("solution, main_solution, taylor_jump", "solve/solution.py")],
     ["solution"])

prop("C22", "Reports and dumps are complete, exact and isolate failures",
     "The text and table reports give for each solution and run requested, in "
     "order, exactly the values stored and those derived from them by their "
     "definition, once, and to where output was requested. A dumped table or "
     "configuration read back gives the stored numbers and the input of the "
     "solution. A file which cannot be read or a solution which cannot be "
     "analysed gets its own note and does not lose, change or repeat the "
     "results of the others.",
     ["inputs", "fault_sequences"],
     "for all lists of up to three files out of good, failing and unreadable "
     "ones, all groups of information and all selections of solutions",
     "The tests only look whether the commands run on one good file.",
     ["analyse/info.py", "analyse/stats.py", "analyse/dump_csv.py",
      "analyse/dump_config.py", "analyse/utils.py"],
     [("info", "analyse/info.py"), ("stats", "analyse/stats.py"),
      ("dumps", "analyse/dump_csv.py")],
     ["ds-info", "ds-stats", "ds-dump-csv", "ds-dump-config"])

prop("C23", "Trajectories follow the flow of the solution",
     "The line along the velocity (or the field) through a point inside of a "
     "solution starts there, stays in the range of angles of the solution, and "
     "goes from each of its points in the direction which the velocity (or "
     "field) has at that angle, by the step asked for; only where the full "
     "step would leave the solution, by smaller ones. It has no more points "
     "than asked for, and ends earlier only where even the smaller step leaves "
     "the solution. From a point outside there is no line. Continuing from a "
     "point of a line gives the same line. Files and plots of lines hold these "
     "with the settings used, files are never overwritten, and the solution is "
     "not modified.",
     ["inputs"],
     "for all starting points of a grid, step sizes, numbers of points and kinds "
     "of lines, on a set of synthetic solutions with known stream lines and on "
     "real ones",
     "The tests only plot one trajectory.",
     ["analyse/trajectory.py"],
     [("compute_trajectory", "analyse/trajectory.py")],
     ["compute_trajectory", "ds-traj"])

prop("C24", "Files, log handlers and worker pools are released and restored",
     "Whatever happens while an output is being written, files opened for it "
     "are closed, streams passed in are left open, and standard output is used "
     "for a dash; solution files which are read are closed again. A pool of "
     "workers is shut down after use with all its submitted work done, also on "
     "errors, which are passed on and not replaced. Logging goes to where the "
     "options say, at the levels they say, for every combination of them, and "
     "everything logged has been written when the logging ends; without "
     "threads it is written at once.",
     ["fault_sequences", "configurations"],
     "for every kind of target and every point at which writing fails, and "
     "every combination of logging options and message level",
     "The tests only go through the successful path with default options.",
     ["utils.py", "logging.py"],
     [("open_or_stream, nicer_mp_pool", "utils.py"),
      ("log_handler", "logging.py")],
     ["open_or_stream", "nicer_mp_pool", "log_handler"])

prop("C25", "Matching at the sonic point joins both sides faithfully",
     "For every guess, the solution stored by the matching method is the "
     "midplane side followed by the sonic side in the order of increasing "
     "angle, with aligned states and internal data, and each guess which can "
     "be solved is stored once. The first guess is where the midplane side, "
     "carried on, gets to the sound speed. What the root finder minimises is "
     "the difference of both sides where they meet, and the sonic side starts "
     "at the guessed point at the sound speed. A failing guess is not stored "
     "and is given to the root finder as very bad; success is reported only if "
     "the root finder succeeded, and initial conditions are never modified.",
     ["histories", "fault_sequences"],
     "for every sequence of good and failing guesses up to a depth, with and "
     "without internal data, each outcome of the root finder",
     "The tests run one guess sequence of the real root finder.",
     ["solve/sonic_root.py"],
     [("generate_root_func, write_solution", "solve/sonic_root.py")],
     ["sonic_root.solver"])

prop("C26", "Plots and analyses are independent of each other",
     "What a plot shows for a solution depends only on that solution and the "
     "options given: the data drawn is that of the solution, in the units, "
     "scales and range of angles asked for, unaffected by plots made before, "
     "in any order, and plotting changes neither the options passed in nor the "
     "solution nor its file. Options which limit the range shown neither drop "
     "data inside of it nor show other data, and requested markers are at the "
     "points of the solution which they stand for. Several solutions in one "
     "plot are told apart and labelled with what they are. Plots are saved, "
     "shown and closed as asked for.",
     ["histories", "configurations"],
     "for every ordered pair of plots with different options, and each "
     "command with each of its options, on solutions with markers present "
     "or absent",
     "The tests make each plot once in separate tests and compare images at "
     "best with themselves.",
     ["analyse/utils.py", "analyse/plot.py", "analyse/params_plot.py",
      "analyse/derivs_plot.py", "analyse/taylor_plot.py",
      "analyse/conserve_plot.py", "analyse/combine_plot.py",
      "analyse/compare_plot.py", "analyse/component_plot.py",
      "analyse/diverge_plot.py", "analyse/vert_plot.py",
      "analyse/acc_plot.py", "analyse/j_e_plot.py",
      "analyse/phys_ratio_plot.py", "analyse/sonic_ratio_plot.py",
      "analyse/surface_density_plot.py", "analyse/v_deriv_cmp.py",
      "analyse/hydro_check_plot.py", "analyse/validate_plot.py",
      "analyse/compute_jacobian.py"],
     [("common plot arguments", "analyse/utils.py")],
     ["plot", "params_plot", "derivs_plot", "combine_plot"])

prop("C28", "Commands report success exactly if they succeeded",
     "The solve and re-solve commands print the file written and exit with "
     "success exactly if the method reports success; errors in options, "
     "configuration or solving never exit with success. Each option of the "
     "solver commands reaches the solver as given, for every combination, with "
     "the documented defaults for those not given, and options which exclude "
     "each other are refused.",
     ["configurations", "fault_sequences"],
     "for every combination of options of the solve, re-solve and batch "
     "commands, and each outcome of the method",
     "The tests call the commands with few options and only check one exit "
     "status.",
     ["solve/__init__.py", "solve/resolve.py", "solve/csvrunner.py",
      "solve/hdf5runner.py", "solve/utils.py", "logging.py", "utils.py"],
     [("command line", "solve/utils.py"), ("main", "solve/__init__.py")],
     ["ds-soln", "ds-resolve", "ds-hdf5runner", "ds-csvrunner"])

prop("C30", "Derived quantities equal their definition",
     "Currents, electric fields, surface density, mass flow rates, jacobians "
     "and the residuals of the equations which are computed from a stored "
     "solution equal their definition in the model, for each point, and agree "
     "with each other: the residuals vanish for states and derivatives which "
     "fulfil the equations and only for those. They do not depend on other "
     "points of the solution unless their definition does, and nothing is "
     "modified by computing them.",
     ["inputs"],
     "for all states of a grid over all variables and angles, and all "
     "solutions up to four points made from them",
     "The tests only plot them for single solutions.",
     ["solve/j_e_funcs.py", "analyse/j_e_plot.py",
      "analyse/validate_plot.py", "analyse/phys_ratio_plot.py",
      "analyse/compute_jacobian.py"],
     [("currents and fields", "solve/j_e_funcs.py"),
      ("residuals", "analyse/validate_plot.py")],
     ["get_values", "validate_continuity", "compute_Σ", "compute_jacobian"])

prop("C31", "The hydrostatic methods solve their own equations",
     "The methods for hydrostatic discs (hydrostatic, and mod_hydro with the "
     "derivative of B_φ or with E_r as variable), in which v_θ and γ are 0, "
     "fulfil their equations at every state: div B = 0, vertical equilibrium "
     "of rotation, pressure and Lorentz force, no azimuthal electric field, "
     "Ohm's law with all three diffusivities, and diffusivities which are "
     "constant or follow B²/ρ. The hydrostatic system refuses exactly the "
     "states for which no v_φ fulfils the momentum equations, and negative "
     "densities are refused and reported. mod_hydro with E_r sets v_r and "
     "v_φ, in the states and in the solution, so that the azimuthal and, to "
     "first order in v_φ - v_K, the radial momentum equation hold, choosing "
     "the solution nearest to the last v_r, at first that of the midplane. "
     "The conditions at the midplane fulfil the momentum equations (for "
     "mod_hydro to first order in v_φ - v_K), ignore the γ of the input, and "
     "inputs which have none are refused, as is use_E_r by the hydrostatic "
     "method. A run stores a single solution, 0, which is also final: the "
     "integral of the system from these conditions within the tolerances and "
     "steps of the input, with internal data which are the states evaluated "
     "and their derivatives. (The derivatives of v_r, v_φ and of the "
     "derivative of B_φ are not covered.)",
     ["inputs", "histories"],
     "for all states, angles, diffusivities and constants of a grid, all "
     "short histories of states, all inputs of a grid",
     "The tests evaluate a single state, and never the electric formulation.",
     ["solve/hydrostatic.py", "solve/mod_hydro.py", "solve/deriv_funcs.py",
      "solve/__init__.py"],
     [("hydrostatic", "solve/hydrostatic.py"),
      ("modified", "solve/mod_hydro.py")],
     ["hydrostatic.ode_system", "mod_hydro.ode_system",
      "hydrostatic_define_conditions", "mod_hydro_define_conditions",
      "fix_solution"])

prop("C32", "The space of series belongs to its parameters",
     "For all draws of the parameters the space of series "
     "(ds-plot-taylor-space) contains one sample for each draw, in order, "
     "whose γ, inflow, field strength and aspect ratio lie in the ranges "
     "asked for and whose midplane conditions and coefficients of first, "
     "second and third order are exactly those of these parameters and the "
     "diffusivities given, whatever the other samples are. The plots show "
     "the coefficients of second order of each variable, under its name, "
     "against each parameter, under its name, all shown and closed. Lists of "
     "parameters which do not belong together are refused.",
     ["inputs", "randomness"],
     "for all draws out of a grid, all their orders and short sequences",
     "The parameters are random, so tests of them sample; there are none.",
     ["solve/taylor_space.py", "solve/config.py", "solve/deriv_midplane.py"],
     [("space", "solve/taylor_space.py")],
     ["compute_taylor_space", "compute_taylor_values", "plot_taylor_space"])

prop("C33", "Every entry point runs the same method on the same settings",
     "The same settings give the same result whatever runs them: ds-soln with "
     "a configuration file, ds-resoln of a solution with these settings, "
     "ds-csvrunner and ds-hdf5runner with a row of a table, each as a command "
     "and as a function, with settings given there or overridden, store "
     "exactly the solutions (with their internal data only where it is asked "
     "for) and the final solution which the method chosen computes from these "
     "settings, in the table exactly its input, and report the same success "
     "or the same error; what was run before in the same process does not "
     "matter. In all stages of a solution (series, jumps, interpolation across "
     "the sonic point, before and after it) and in the hydrostatic methods the "
     "integrator uses the tolerances and the limit of steps of the settings, "
     "and without such stages the solution is what the integrator gives for "
     "the equations.",
     ["inputs", "sequences of operations"],
     "for all combinations of entry point, method and kinds of settings",
     "Tests run each entry point with one configuration, and compare none of "
     "them to each other.",
     ["solve/__init__.py", "solve/resolve.py", "solve/csvrunner.py",
      "solve/hdf5runner.py", "solve/single.py", "solve/solution.py",
      "solve/stepper.py", "solve/hydrostatic.py", "solve/mod_hydro.py"],
     [("entry points", "solve/__init__.py"),
      ("settings", "solve/solution.py")],
     ["solve", "resolve", "SolutionFinder", "solution", "solver"])

if __name__ == "__main__":
    path = Path(__file__).resolve().parent.parent / "properties.jsonl"
    with path.open("w", encoding="utf8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

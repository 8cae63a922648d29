#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the records stay uniform)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])
    if state: anchors["state"] = [dict(name=x.strip(), meaning=x.strip(), where=files[0]) for x in state.split(",")]
    if hook: anchors["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors))
S = "src/disc_solver/"

p("R01", "A run never overwrites an existing result file",
  "Solving, re-solving, batch-solving to result files and shock computations create their result file exclusively: if the target name is already taken the command fails with an error before any solving is done and the existing file's bytes are unchanged. A new result file is created under the requested name (or a fresh generated one that starts with the label of the configuration it was given) inside the requested directory, and nothing else is written there.",
  ["histories", "crash_points"], "any sequence of runs sharing a directory and a pool of names, any sonic method, any file state under the target name, success or failure of each run",
  "Tests always use a fresh temporary directory and never a name that is already taken, nor a sequence of runs in one directory.",
  [S+"solve/__init__.py", S+"solve/resolve.py", S+"solve/hdf5runner.py", S+"solve/shock.py", S+"solve/utils.py"],
  [("exclusive-create open", S+"solve/__init__.py:solve"), ("exclusive-create open", S+"solve/resolve.py:resolve"), ("per-input result file", S+"solve/hdf5runner.py:SolutionFinder.__call__")],
  "contents of the output directory before and after each call")

p("R02", "Every solution found is recorded once, in order, even if the run aborts",
  "During a run every solution handed to the run is recorded in the result file immediately, under consecutive numbers starting at 0 in the order they were found, and is never altered, dropped or overwritten later. If the solver raises at any point, the file left behind still opens and holds the configuration and exactly the solutions recorded before that point.",
  ["crash_points", "histories"], "every sequence of additions and choice of final solution, aborting after any step, cached or uncached, file-backed or in memory",
  "No test aborts a run part-way or inspects what a partially written file contains; tests only check that solving does not raise.",
  [S+"file_format/_containers.py", S+"file_format/_dumpers.py", S+"solve/__init__.py"],
  [("next index / add", S+"file_format/_containers.py:Solutions.add_solution"), ("on-demand writing", S+"file_format/_containers.py:Solutions.__setitem__")],
  "the set of numbered solutions readable from memory, from the open file and after reopening", state="run, its numbered solutions, the result file")

p("R03", "The final solution is set at most once and defaults to the last solution",
  "A run's final solution can be chosen at most once; a second attempt is refused and changes nothing. If the solver chose none, finishing the run makes the numerically last recorded solution final (10 comes after 9), and an explicit choice of 'none' stays none; the final solution read back from the file equals the recorded solution it was chosen from.",
  ["histories"], "every sequence of add / choose / choose-none / finish / reopen steps with up to a dozen or more solutions",
  "Tests never choose twice, never finish with more than nine solutions and never compare the final solution with the numbered ones.",
  [S+"file_format/_containers.py", S+"solve/__init__.py"],
  [("final solution setter", S+"file_format/_containers.py:Run.final_solution"), ("finalise", S+"file_format/_containers.py:Run.finalise"), ("last solution", S+"file_format/_containers.py:Solutions.get_last_solution")],
  "final solution of the in-memory run and of the reopened file")

p("R04", "Everything stored in a result file is read back unchanged",
  "Writing a run (configuration, provenance, numbered solutions with their inputs, initial conditions, arrays, roots, internal data, problems, flags) and opening the file again yields equal values for every field, including absent optional values, empty arrays, slices and sampled-variable selections. Reading with in-memory caching disabled yields the same values as with caching.",
  ["inputs", "configurations"], "all combinations of present/absent optional fields, boolean flags, slice shapes, sampled-variable subsets, with and without internal data, cached and uncached",
  "The tests write files from a handful of default configurations and only look at whether later commands run, never field by field nor over combinations of optional values.",
  [S+"file_format/_dumpers.py", S+"file_format/_loaders.py", S+"file_format/_containers.py"],
  [("dumpers", S+"file_format/_dumpers.py"), ("loaders", S+"file_format/_loaders.py")],
  "field-by-field comparison of the reopened run")

p("R05", "Result files of every earlier format version still load",
  "A result file whose records carry any earlier published record version loads without error: every value stored in it appears unchanged in the corresponding field, values that the old version expressed differently are converted (the power-law exponent to its replacement), and fields the version lacked get the documented default. The loaded input can be used for a new run.",
  ["configurations", "inputs"], "every record type and every registered record version, every subset of optional values, and the combinations of versions that make up a whole file",
  "No fixture file of any old version exists in the tests; only the newest version is ever written and read.",
  [S+"file_format/_loaders.py", S+"file_format/_utils.py"],
  [("versioned loaders", S+"file_format/_loaders.py"), ("exponent conversion", S+"file_format/_utils.py:_str_β_to_γ")],
  "fields of objects loaded from synthesised old-version files")

p("I01", "Effective inputs are override, else config file, else documented default",
  "For every input setting the value used by a run is the command-line override if given, otherwise the config file's value, otherwise the documented default; unspecified settings are unaffected by specified ones and an override that names no known setting is rejected. The configuration recorded in the result is exactly the one that was used.",
  ["inputs", "configurations"], "every subset of settings present in the file and/or overridden, every setting",
  "Tests use no config file and at most two overrides, so nearly all setting/subset combinations are unexplored.",
  [S+"solve/config.py", S+"solve/utils.py", S+"solve/__init__.py"],
  [("config file reading", S+"solve/config.py:get_input_from_conffile"), ("overrides", S+"solve/utils.py:add_overrides"), ("override validation", S+"solve/utils.py:validate_overrides")],
  "the input seen by the solver and the configuration stored in the run")

p("I02", "Inputs survive conversion between text, solver and config-file form",
  "Converting textual settings to solver inputs gives the number, integer, flag, slice or selection the text denotes (with 'None' or empty meaning unset). Converting solver inputs back to textual form, writing them as a config file and reading that file again yields the same solver inputs, so a run dumped as a config file can be repeated exactly.",
  ["inputs"], "every combination of optional settings, slice forms, booleans, sampled-variable subsets, label texts and representable numbers",
  "Tests never convert back; only default inputs are converted forward.",
  [S+"file_format/_containers.py", S+"solve/config.py", S+"analyse/dump_config.py"],
  [("text to solver input", S+"file_format/_containers.py:ConfigInput.to_soln_input"), ("solver input to text", S+"file_format/_containers.py:SolutionInput.to_config_input"), ("config file writer", S+"file_format/_containers.py:ConfigInput.to_conf_file")],
  "solver input obtained after the round trip")

p("I03", "Every CSV data row becomes exactly one input, in order",
  "Reading a batch input file gives exactly one input per data row, in file order, whether or not the file has a header row; comment lines, wherever they are, are skipped, columns that are not settings or provenance are ignored, and every input carries the requested label. Files produced by the program's own batch runner, input dump and single dump commands are read back as the same inputs.",
  ["inputs"], "every arrangement of comment, header and data lines, column orders and subsets, row counts",
  "One header file with one row is tested; header-less files, comments and multi-row files are not.",
  [S+"solve/utils.py", S+"solve/csvrunner.py", S+"analyse/stats.py", S+"analyse/dump_csv.py"],
  [("csv input reader", S+"solve/utils.py:get_csv_inputs"), ("comment filter", S+"solve/utils.py:CSVReaderHelper"), ("comment writer", S+"solve/utils.py:CSVWriterHelper")],
  "list of inputs returned for a file")

p("I04", "Re-solving uses override, else the solution's own input, else the config",
  "When a stored solution is re-solved, each setting of the new solver input is the override if one was given, otherwise the value the stored solution was actually computed with, even where that differs from the stored configuration. The new run records the stored configuration plus overrides, and which file and solution it was based on; the original run is not modified.",
  ["inputs", "histories"], "every setting, every combination of differing/equal stored values and overrides, any solution selector, chains of re-solves",
  "Tests re-solve default runs whose stored input equals the configuration, without overrides.",
  [S+"solve/config.py", S+"solve/resolve.py"],
  [("merge", S+"solve/config.py:new_inputs_with_overrides"), ("resolve", S+"solve/resolve.py:resolve")],
  "solver input handed to the solver and records in the new file")

p("S01", "The stepper brackets the solution, then bisects, then stops",
  "The stepping search changes only the exponent parameter: it moves it by the full step in the direction the last solution's type dictates until the type changes, and from then on halves the step at every attempt, so the parameter stays within one step of the change of type. It makes at most the configured number of attempts, gives up after the configured number of steps without a change of type, stops when the step no longer changes the parameter, and always terminates.",
  ["histories"], "every sequence of solution types (diverging, sign-flip, stop, best), every initial value including 0, every attempt and step limit",
  "The two tests run at most five attempts on one default input and assert nothing about the sequence.",
  [S+"solve/stepper.py"],
  [("search loop", S+"solve/stepper.py:binary_searcher"), ("bracket/bisect", S+"solve/stepper.py:stepper_creator"), ("step", S+"solve/stepper.py:step_input"), ("solver", S+"solve/stepper.py:solver")],
  "sequence of inputs the equation solver is called with", state="phase, step size, exponent, attempts")

p("S02", "Search results: what is final and whether success is reported",
  "A stepping run succeeds only if the last attempt was a best solution or the search was told to stop or hit the numerical limit; the final solution is then exactly that attempt's solution. Otherwise the run reports failure and the recorded final solution is explicitly none, while all attempts stay recorded.",
  ["histories"], "every sequence of solution types and ways of ending the search, in memory or file-backed",
  "Tests never look at the returned success flag or which attempt became final.",
  [S+"solve/stepper.py", S+"solve/single.py", S+"solve/__init__.py"],
  [("success cleanup", S+"solve/stepper.py:cleanup_generator"), ("stop cleanup", S+"solve/stepper.py:alternate_cleanup_generator"), ("solver", S+"solve/stepper.py:solver")],
  "return value, final solution and number of recorded solutions")

p("S03", "Solutions are classified by validity and shape as documented",
  "A solution is accepted as best only if the integrator succeeded, its polar velocity is never negative and never decreases, its density is never negative, it gets near the sonic speed from below and its approach has no upward curvature there. For stepping, any recorded negative-velocity problem means sign-flip; otherwise, where derivatives were recorded, an approach to the sonic point with upward curvature or a still-rising derivative means diverging and a falling one sign-flip; without them a polar velocity that stays well below the sonic speed means sign-flip and one that nears or passes it, diverging. An unknown split method means the default one.",
  ["inputs"], "every short velocity and density profile over a discrete set of levels, integrator flags, recorded problems and derivative data",
  "Tests never call the classification with constructed profiles; only whatever default runs produce.",
  [S+"solve/utils.py", S+"solve/stepper.py"],
  [("validity", S+"solve/utils.py:validate_solution"), ("best", S+"solve/stepper.py:is_solution_best"), ("type", S+"solve/stepper.py:v_θ_deriv_splitter")],
  "verdict for a constructed solution")

p("S04", "The fast-point search brackets the optimum and returns what it found",
  "The fast-crossing search varies only the inflow speed: it walks up while the reached angle improves, then walks down from the start while it improves, and then refines strictly inside the bracket so found, each refinement keeping the better part of the bracket. It terminates within its attempt limit or when the inflow speed no longer changes, reports failure when no solution was found at all, and otherwise reports a recorded solution as final.",
  ["histories"], "every outcome function of the inner solves (monotone, unimodal, plateaus, failures), any attempt limit",
  "The single test of this method times out and checks nothing.",
  [S+"solve/fast_crosser.py"],
  [("phases", S+"solve/fast_crosser.py:stepper_creator"), ("solver", S+"solve/fast_crosser.py:solver")],
  "sequence of inflow speeds tried and the run's final solution", state="phase, bracket limits, midpoint")

p("S05", "The sampling search keeps the best valid sample as final",
  "Each sample that yields a usable solution with a finite score is recorded once with the sampled parameters as its input; samples that are non-positive, imply unphysical conditions, fail to solve or have no finite score are rejected and never recorded. The final solution is the recorded one with the highest score (first on ties), or none if nothing was recorded; only the selected parameters vary and all other settings stay as configured.",
  ["histories", "inputs"], "every sequence of sample outcomes and scores, every subset of sampled parameters",
  "Tests run three random iterations and check nothing about scores or which sample became final.",
  [S+"solve/mcmc.py"],
  [("scoring and recording", S+"solve/mcmc.py:LogProbGenerator"), ("parameter mapping", S+"solve/mcmc.py:sys_vars_to_solution_input")],
  "recorded solutions, returned scores and final solution")

p("S06", "A recorded solution keeps the input that produced it",
  "For every search method, the input stored with a solution is the input the equations were solved with for that solution, and its initial conditions are those derived from that input; no later step of the search changes them. Re-running a single solve from a recorded input reproduces the recorded arrays exactly.",
  ["histories"], "every search method, any number of attempts, in memory or file-backed, cached or uncached",
  "Tests never compare a recorded input with the one used, nor look at recorded solutions after later attempts.",
  [S+"solve/stepper.py", S+"solve/fast_crosser.py", S+"solve/mcmc.py", S+"solve/sonic_root.py", S+"solve/solution.py"],
  [("next input", S+"solve/stepper.py:step_input"), ("next input", S+"solve/fast_crosser.py:stepper_creator"), ("shared initial conditions", S+"solve/sonic_root.py:total_vars_to_mod_cons")],
  "recorded inputs and initial conditions at the end of the search")

p("S07", "The sonic-root search records joined two-sided solutions",
  "Matching from the sonic point records the midplane solution first and then, for each trial, the midplane part followed by the sonic part reversed, with the trial's end flag and without altering the midplane part; a trial that fails contributes no record and an error value to the root finder. Success is reported exactly when the root finder converged, and the final solution is the last recorded one.",
  ["histories"], "every sequence of trial outcomes (ok, failed, terminating flags, with and without internal data)",
  "Tests exercise one default input where the very first trials fail, so joining and the success path are never reached.",
  [S+"solve/sonic_root.py"],
  [("joining", S+"solve/sonic_root.py:write_solution"), ("trial conditions", S+"solve/sonic_root.py:total_vars_to_mod_cons"), ("error value", S+"solve/sonic_root.py:wrap_root_catch_error")],
  "recorded solutions and return value")

p("S08", "A solution is its stages joined in order, starting at the midplane",
  "A solution consists of the near-midplane expansion, the main integration and, if configured, the stages across and after the sonic point, joined in that order with nothing lost (the sonic point is crossed only if the main integration stopped near it): angles never decrease, start at the midplane with the initial conditions, and each stage starts from where the previous one ended. Keeping internal data does not change angles, values or flag, and internal data sequences stay mutually aligned and in stage order.",
  ["configurations", "histories"], "all combinations of expansion mode, sonic-crossing method, internal-data storage, stop conditions and electric-field mode; every outcome of each stage",
  "Tests only check that solving does not raise for a few combinations; ordering, continuity and alignment of joined stages are never asserted.",
  [S+"solve/solution.py"],
  [("stage pipeline", S+"solve/solution.py:solution"), ("expansion", S+"solve/solution.py:taylor_solution"), ("expansion jump", S+"solve/solution.py:taylor_jump"), ("main", S+"solve/solution.py:main_solution"), ("interpolated crossing", S+"solve/solution.py:interp_cross_sonic")],
  "returned solution and the sequence of integrations performed")

p("S09", "Internal-data containers concatenate, flip and merge losslessly",
  "Joining two internal-data records gives, for every sequence they hold, the first's entries followed by the second's, in order, and merges recorded problems by angle keeping every message; flipping reverses every sequence and flipping twice restores it. Asking whether problems were recorded at an angle answers truthfully and records nothing, and problems can be removed by angle. Empty records are neutral and none of these operations changes the other operand's contents.",
  ["histories"], "every sequence of append, join, flip, problem-report and finalise operations on small records, including empty ones",
  "No test touches these containers directly.",
  [S+"file_format/_containers.py"],
  [("join/flip", S+"file_format/_containers.py:InternalData"), ("jacobian join/flip", S+"file_format/_containers.py:JacobianData"), ("problems", S+"file_format/_containers.py:Problems")],
  "contents of the records after each operation")

p("S10", "A method making one attempt records it whole or records nothing",
  "The single, hydrostatic and modified hydrostatic methods make one integration over exactly the requested angles from the disc's own initial conditions, with the tolerances, step limit, root and stop functions asked for. Whatever the integration reached is recorded as one more solution, with its flag, its rows and angles, its roots, the unchanged input and initial conditions and, if asked for, the accepted evaluations exactly as they were, and becomes the final solution (unless a single solution is asked for without one). Requests which cannot be met (hydrostatic with E_r, a root function without its size, an angle range too short to integrate) fail with a solver error and leave what was recorded before as it was.",
  ["inputs", "faults"], "every outcome of the integration, after every number of rows and (possibly refused) evaluations, for every combination of method, settings and way of being started",
  "Tests run each method once on an input whose integration goes well and look at the success flag.",
  [S+"solve/single.py", S+"solve/hydrostatic.py", S+"solve/mod_hydro.py"],
  [("single", S+"solve/single.py:solver"), ("hydrostatic", S+"solve/hydrostatic.py:solution"), ("modified", S+"solve/mod_hydro.py:solution")],
  "solutions and final solution of the run, options of the integrator")

p("X01", "Shocks obey the isothermal jump conditions",
  "Across a shock at a given angle the polar velocity becomes its reciprocal and the density is multiplied by its square, so mass flux and momentum flux are continuous, a supersonic flow becomes subsonic, and applying the jump twice restores the state; every other variable is unchanged. The post-shock integration starts at the shock angle from the jumped state over the remaining angles only, and the pre-shock data are not modified.",
  ["inputs"], "every pre-shock state over rational velocities and densities, every shock angle in a grid",
  "No test covers shocks.",
  [S+"solve/shock.py"],
  [("jump", S+"solve/shock.py:get_v_θ_post"), ("jump", S+"solve/shock.py:get_ρ_post"), ("post-shock conditions", S+"solve/shock.py:get_shock_modified_initial_conditions")],
  "post-shock initial conditions")

p("X02", "Shock candidates and shock results are complete and isolated",
  "Shocks are tried at exactly those angles where the polar velocity is strictly between the limits, beyond the minimum angle and beyond the angle of its maximum. Every candidate that yields a usable solution gets its own new result file, marked as post-shock only, recording the file and solution it came from and containing only that shock's solution as final; a failing candidate affects no other, and the source run is not changed.",
  ["inputs", "schedules", "fault_sequences"], "every velocity profile over a small grid, every pattern of candidate failures, any worker scheduling",
  "No test covers shocks.",
  [S+"solve/shock.py", S+"file_format/_containers.py"],
  [("candidate selection", S+"solve/shock.py:find_shock_test_values"), ("candidate run", S+"solve/shock.py:ShockFinder.__call__"), ("shock run", S+"file_format/_containers.py:Run.create_shock_run")],
  "angles tried and files written")

p("B01", "Batch solving to CSV writes one row per success, in input order",
  "The CSV batch runner writes its metadata comments and a header and then, for each input in file order, exactly one row holding the full input of that input's final solution if the search succeeded with a solution, and nothing otherwise. A solver failure on one input affects no other; the result does not depend on the number of workers or their timing, and each row is flushed before the next is awaited.",
  ["schedules", "fault_sequences"], "every pattern of success/failure over the inputs, any number of workers and completion order",
  "The test runs one input with one outcome and does not look at the output.",
  [S+"solve/csvrunner.py", S+"utils.py"],
  [("per-input solver", S+"solve/csvrunner.py:SolutionFinder"), ("ordered writer", S+"solve/csvrunner.py:csvrunner"), ("pool", S+"utils.py:nicer_mp_pool")],
  "rows in the output stream as they appear")

p("B02", "Batch solving to result files keeps one separate file per input",
  "The result-file batch runner creates exactly one new result file per input, holding only that input's configuration (with overrides and label), provenance and solutions; a solver failure on one input leaves the other inputs' files complete and is reported for that input only, for any number of workers and any timing.",
  ["schedules", "fault_sequences"], "every pattern of success/failure over the inputs, any number of workers and completion order",
  "The test runs one input with one outcome and does not look at the files.",
  [S+"solve/hdf5runner.py", S+"utils.py"],
  [("per-input solver", S+"solve/hdf5runner.py:SolutionFinder"), ("ordered collection", S+"solve/hdf5runner.py:hdf5runner")],
  "files in the output directory and reported failures")

p("A01", "Solution selectors pick the solution they name",
  "In every command that takes a run and a selector: a number selects that numbered solution, 'final' the final solution, 'latest' the final solution if there is one and otherwise the numerically last, and no selector the first solution (number 0). An unknown number is an error and never selects another solution, and when several runs and selectors are given each is looked up in its own run, in order (a missing final solution among them is left out). A command over a whole run takes every numbered solution once, in numerical order, or exactly the numbers and ranges it was asked for.",
  ["inputs", "histories"], "every run with any number of solutions (beyond ten), with or without final solution, every selector, any list of pairs",
  "Tests use only runs with few solutions and mostly the default selector; they compare plots visually or not at all.",
  [S+"utils.py", S+"analyse/utils.py"],
  [("selector", S+"utils.py:get_solutions"), ("single wrapper", S+"analyse/utils.py:single_solution_plotter"), ("multi wrapper", S+"analyse/utils.py:multiple_solution_plotter"), ("sorted solutions", S+"analyse/utils.py:analyse_multisolution_wrapper")],
  "solution used by info, dump, plot and resolve commands")

p("A02", "Critical points are the first crossing of each wave speed",
  "For each of the slow, sonic, Alfvén and fast speeds the reported critical angle lies between the two successive grid angles where the Mach number first goes from below one to one or above, equals the grid angle if it is exactly one there, and is reported as none when the flow never exceeds that speed or never passes through it. (A flow already beyond a speed at its first known point crosses it where it first comes back to it.) The reported nearest index is the first grid point at or beyond the crossing, and the classification names the highest speed crossed.",
  ["inputs"], "every Mach-number profile over a small grid of levels, including non-monotone profiles, touching, not-a-number prefixes and start values above one",
  "Tests use only smooth solutions from default runs and check no values.",
  [S+"critical_points.py", S+"utils.py", S+"analyse/info.py"],
  [("first crossing", S+"utils.py:first_closest_index"), ("interpolation", S+"utils.py:interp_for_value"), ("critical angles", S+"critical_points.py:get_all_sonic_points"), ("classification", S+"analyse/info.py:info")],
  "critical angles, indices and classification for a constructed solution")

p("A03", "What a plot shows depends only on its own arguments",
  "The quantities, names, scales and offsets used for a plot are a function of that plot's own ordering, scale, offset options and initial conditions: no earlier plot made in the same process changes them. In particular the azimuthal-velocity offset is the given offset, or else that solution's own Keplerian speed, or none when disabled.",
  ["histories"], "every sequence of up to several plot-argument requests with any options, in any order",
  "Each test makes plots once and never compares argument lists across a history of calls.",
  [S+"analyse/utils.py", S+"analyse/plot.py", S+"analyse/compare_plot.py", S+"analyse/vert_plot.py"],
  [("plot arguments", S+"analyse/utils.py:get_common_arguments")],
  "argument lists returned over a history of calls")

p("A04", "Multi-file summaries cover every readable solution once, in order",
  "The statistics and input-dump commands process the given files in order (arguments, then standard input) and output, for each readable file, one row per numbered solution (each exactly once) followed by one row for its final solution if it has one, with that solution's own inputs and source. Unreadable, missing or foreign files and solutions whose statistics cannot be computed are skipped without losing or duplicating any other row.",
  ["inputs", "fault_sequences"], "every sequence of good, missing, corrupt, foreign and final-less files and failing solutions",
  "Tests pass exactly one good file and do not look at the output.",
  [S+"analyse/stats.py"],
  [("iteration", S+"analyse/stats.py:get_all_solutions"), ("stats rows", S+"analyse/stats.py:write_stats"), ("input rows", S+"analyse/stats.py:write_inputs")],
  "rows written")

p("A05", "Run information and dumps report the stored values",
  "The information command reports the stored run properties, inputs, initial conditions, status and solutions (in ascending order of score) of the selected solution to the requested output, and the CSV and config dumps write the selected solution's full input, with exactly one header when requested. These commands never modify the result file.",
  ["inputs", "histories"], "every information group, selector and run shape; repeated dumps to one file",
  "Tests call each group once and check no output.",
  [S+"analyse/info.py", S+"analyse/dump_csv.py", S+"analyse/dump_config.py"],
  [("info", S+"analyse/info.py:info"), ("csv dump", S+"analyse/dump_csv.py:dump_csv"), ("config dump", S+"analyse/dump_config.py:dump_cfg")],
  "text written and bytes of the result file")

p("A06", "Coordinate changes preserve the flow they describe",
  "Converting a solution to vertical and cylindrical form keeps each variable's self-similar scaling, preserves poloidal velocity and field magnitudes up to that scaling, leaves the midplane unchanged apart from naming, treats a single state and a list of states alike, and never modifies its input.",
  ["inputs"], "every state over small rational values at angles with rational sine and cosine, single states and arrays",
  "Tests only draw plots from converted solutions and check no values.",
  [S+"utils.py"],
  [("scaling", S+"utils.py:scale_solution_to_radii"), ("rotation", S+"utils.py:spherical_r_θ_to_cylindrical_R_z"), ("conversion", S+"utils.py:convert_spherical_to_cylindrical")],
  "converted arrays")

p("A07", "Plots draw the selected solution's own data",
  "Every curve and mark a plot draws is the quantity its panel and label name (stored, or derived from what is stored), of the solution it stands for, at exactly the stored angles which lie in the range asked for, in stored order and in degrees. Wave speeds, sound speed, the sonic point and the roots appear exactly when asked for; logarithmic plots show magnitudes, positive and negative values apart; each of several solutions is drawn in a colour of its own under its own label. A plot needing internal data, or one which cannot be made with E_r, is refused instead of showing something else.",
  ["inputs", "configurations"], "every combination of each plot's options, random solutions (grids, values, marks, internal data) and ranges, one to 33 solutions",
  "Tests compare no drawn value: they only check that a figure appears.",
  [S+"analyse/plot.py", S+"analyse/combine_plot.py", S+"analyse/compare_plot.py", S+"analyse/derivs_plot.py", S+"analyse/params_plot.py", S+"analyse/diverge_plot.py", S+"analyse/conserve_plot.py",
   S+"analyse/acc_plot.py", S+"analyse/sonic_ratio_plot.py", S+"analyse/surface_density_plot.py", S+"analyse/v_deriv_cmp.py", S+"analyse/vert_plot.py", S+"analyse/phys_ratio_plot.py", S+"analyse/utils.py"],
  [("main plot", S+"analyse/plot.py:generate_plot"), ("comparison", S+"analyse/compare_plot.py:generate_plot"), ("physical units", S+"analyse/combine_plot.py:generate_plot_combine"),
   ("colours", S+"analyse/utils.py:distinct_color_map"), ("logarithms", S+"analyse/utils.py:plot_log_lines")],
  "lines, colours, labels and scales of the figure returned")

p("A08", "Statistics report the extremes of the solution",
  "For each of the slow, sonic, Alfvén and fast speeds the statistics give the largest Mach number known anywhere on the grid and the angle at which it is reached first (nothing where no Mach number is known), the critical angles, the largest velocity away from the plane with the height at which it occurs, the sum of the density, the last angle, whether the flow never slows down within the first twenty degrees and whether it ends at or below the cutoff, and for each equation the misfit of largest magnitude.",
  ["inputs"], "every small profile of Mach numbers (unknown, equal, falling, rising) and random continuations, with or without internal data",
  "Tests only run the command and look at none of its numbers.",
  [S+"analyse/stats.py", S+"utils.py", S+"critical_points.py"],
  [("Mach numbers", S+"analyse/stats.py:get_max_mach_numbers"), ("jet", S+"analyse/stats.py:compute_max_vert_jet_velocity"), ("misfits", S+"analyse/stats.py:compute_max_difference_in_equations"),
   ("single numbers", S+"analyse/stats.py:singluar_stats")],
  "the row the command writes")

p("L01", "Commands report success, failure and log output truthfully",
  "The solve and re-solve commands print the result file's path and exit with status 0 exactly when the search succeeded and 1 when it did not; bad overrides or methods fail before any file is created. Log records reach the requested log file and standard error exactly when they are at or above the level requested for each.",
  ["inputs", "configurations"], "every outcome of the search, every combination of verbosity, quiet, level and log-file options, threaded or not",
  "No test calls the command entry points or checks exit codes or logs.",
  [S+"solve/__init__.py", S+"solve/resolve.py", S+"logging.py", S+"solve/utils.py"],
  [("solve command", S+"solve/__init__.py:main"), ("resolve command", S+"solve/resolve.py:main"), ("log setup", S+"logging.py:log_handler")],
  "exit status, printed output, created files, log contents")

p("T01", "Stream and field lines follow the solution and end where it ends",
  "A stream line or field line begins at the given place, and every further point is one step of the given length along the flow (or field) at the solution angle closest to the point before. A step that would leave the solution (go beyond its last angle) is taken at a hundredth of the length, as are all later ones; the line ends when the shortened step leaves the solution too, or after the given number of points, has no point beyond the solution and no place twice, and is empty if it begins beyond. The flow-file command writes the critical and last angles, the stream line and the field line with a row per point, each line from its own part of the solution and its own settings, and never writes over an existing file; the flow plot draws the same lines and states the highest angle of the stream line.",
  ["inputs"], "all solutions, starting places, step lengths, numbers of points and existing files",
  "Tests draw one picture of one solution and look at no positions; the file command is never run.",
  [S+"analyse/trajectory.py", S+"utils.py"],
  [("following a line", S+"analyse/trajectory.py:follow_trajectory"), ("flow at a place", S+"analyse/trajectory.py:compute_values"), ("closest angle", S+"utils.py:get_closest_value_sorted"), ("files", S+"analyse/trajectory.py:save_trajectory"), ("plot", S+"analyse/trajectory.py:generate_plot")],
  "points of the lines, rows of the files, lines of the plot")

p("E01", "The slopes used for a flow fulfil the disc equations exactly",
  "At every point the derivatives used to solve for a flow (not by the hydrostatic variants) are those which fulfil mass conservation, the solenoid condition, the radial, azimuthal and polar momentum balance and the induction equation with Ohmic, Hall and ambipolar diffusion (with E_r or with the derivative of B_φ as the extra variable), for all parameters, whether the diffusivities vary or not; inside the expansion region the velocity and density slopes are the expansion's; a given slope of v_θ is used as given. A point with negative density is refused as recoverable, one with negative polar velocity as final, without results. What is kept as internal data is the point, its slopes and the slopes with and without the expansion. One evaluation does not depend on others and changes neither the point nor the settings. The jacobian table holds the central differences of these slopes.",
  ["inputs"], "all states, parameters and settings",
  "Tests compare slopes with stored digits at one or two states, which says nothing about whether the equations are right.",
  [S+"solve/solution.py", S+"solve/deriv_funcs.py", S+"analyse/compute_jacobian.py"],
  [("right-hand side", S+"solve/solution.py:ode_system"), ("formulas", S+"solve/deriv_funcs.py"), ("jacobian", S+"analyse/compute_jacobian.py:compute_jacobian_from_solution")],
  "derivatives, return codes, internal data")

p("E02", "Initial conditions and expansion fulfil the disc equations",
  "The initial conditions derived from an input are the midplane state fulfilling all the disc's equations for exactly the given inflow speed, field strength, temperature and diffusivities (with the faster of the two possible rotation speeds), in either choice of extra variable, and an input is rejected exactly when no rotation speed balances gravity. The expansion about the midplane fulfils every equation to each order it gives. Exploring the expansion over many inputs reports for every input its own expansion.",
  ["inputs"], "all parameters and settings",
  "Tests compare the initial conditions and the expansion with stored digits for one input.",
  [S+"solve/config.py", S+"solve/deriv_midplane.py", S+"solve/taylor_space.py"],
  [("initial conditions", S+"solve/config.py:define_conditions"), ("expansion", S+"solve/deriv_midplane.py:taylor_series"), ("orders", S+"solve/deriv_midplane.py:get_taylor_third_order"), ("exploration", S+"solve/taylor_space.py:compute_taylor_space")],
  "initial conditions, errors, expansion coefficients")

p("E03", "Diagnostic plots show the equations' own terms",
  "Currents and electric fields shown for a solution are those of its field and flow; the residuals shown by the validation and hydrostatic plots are, for any numbers and slopes, the difference of the two sides of the equation they are named after, so they vanish exactly where it is fulfilled; the components shown for an equation add up to the slope term it determines, the total shown with them; the comparison of slopes with and without the expansion shows both (or their ratio) at the angle they belong to. Plots which need the derivative of B_φ are refused for solutions with E_r.",
  ["inputs"], "all solutions, parameters and settings without E_r",
  "Tests draw these plots for one solution and check no values.",
  [S+"analyse/j_e_plot.py", S+"analyse/validate_plot.py", S+"analyse/hydro_check_plot.py", S+"analyse/component_plot.py", S+"analyse/taylor_plot.py", S+"solve/j_e_funcs.py"],
  [("fields", S+"solve/j_e_funcs.py"), ("residuals", S+"analyse/validate_plot.py"), ("components", S+"analyse/component_plot.py:compute_components"), ("comparison", S+"analyse/taylor_plot.py:generate_taylor_plot")],
  "curves of the plots")

p("E04", "Discs without flow along the angle fulfil their equations",
  "For hydrostatic and modified hydrostatic discs the initial conditions and, at every point, the slopes of the fields and the density fulfil solenoidality, induction along φ, Ohm's law and polar momentum balance with the diffusivities following the disc if asked to; where velocities change they keep the azimuthal balance (the derivative of the radial balance and the second derivative of B_φ being those of the known findings), where they are held they stay. With E_r the velocities found at each point, during and after an integration, fulfil Ohm's law and both momentum balances. Points of negative density, and points at which no rotation speed balances, are refused without a trace; inputs are rejected exactly when no rotation speed balances gravity.",
  ["inputs"], "all points, parameters and settings of both kinds of discs",
  "Tests compare a few slopes at one or two points with stored digits.",
  [S+"solve/hydrostatic.py", S+"solve/mod_hydro.py"],
  [("hydrostatic equations", S+"solve/hydrostatic.py:ode_system"), ("modified equations", S+"solve/mod_hydro.py:ode_system"), ("velocities found", S+"solve/mod_hydro.py:fix_solution"), ("initial conditions", S+"solve/mod_hydro.py:mod_hydro_define_conditions")],
  "initial conditions, slopes, velocities found, refusals, recorded internal data")

p("N01", "Integrated solutions are accurate to the requested tolerance",
  "Between its grid angles a solution follows the disc's equations to the accuracy requested by the relative and absolute tolerance, near singular points too.",
  ["inputs"], "all physical inputs and tolerances",
  "Tests compare a few integrated solutions with stored digits.",
  [S+"solve/solution.py"],
  [("integration", S+"solve/solution.py:main_solution")],
  "values along solutions")

with open("/verif/properties.jsonl", "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))

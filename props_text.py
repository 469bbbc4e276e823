# ---------------------------------------------------------------------------------------------------------------------
# O: generic optimisation
# ---------------------------------------------------------------------------------------------------------------------
prop("O01", "Simulated annealing returns the best state it visited, on any schedule",
     "Simulated annealing returns a state that it really visited together with that state's true cost, and no visited state costs less; "
     "the multi-start variant returns the best over all its starts, runs each start exactly once on whatever threads are available and has "
     "joined them when it returns. Worse neighbours are accepted with the stated temperature-dependent probability. Concurrent use by several callers is free of "
     "data races and of influence between the callers.",
     ["schedules", "inputs", "configurations"],
     "all objective functions, neighbour generators, temperatures, cooling schedules, cycle counts, instance counts, entropy and thread interleavings",
     "The tests run two benchmark functions once, on one schedule with one stream of random numbers, and accept any result near the optimum.",
     [A + "optimization/simulated_annealing.hpp"],
     [("best/current bookkeeping", A + "optimization/simulated_annealing.hpp: simulated_annealing"),
      ("parallel instances and reduction", A + "optimization/simulated_annealing.hpp: multi_simulated_annealing")],
     state=[("best state and cost", "best pair seen so far", A + "optimization/simulated_annealing.hpp")],
     observe=["return value", "calls of the user's functions"],
     level_note="Seeded search over thread schedules, entropy and workloads of the real header; every call of the user's callables is recorded and the "
                "result is judged against the record. Sequentially consistent interleavings plus a happens-before race detector; sampled, not exhaustive.")

# ---------------------------------------------------------------------------------------------------------------------
# S: SiDB simulation
# ---------------------------------------------------------------------------------------------------------------------
prop("S01", "QuickSim reports only valid, correctly labelled states, on any schedule",
     "Whatever the schedule of its threads, QuickSim reports only physically valid charge distributions of the given layout, each with its true "
     "local potentials and energy, with every SiDB that must be negative being negative; one thread or many, a run finishes, joins its threads and is free of "
     "data races. With a timeout it returns nothing exactly if the time really ran out, and otherwise its result.",
     ["schedules", "inputs", "configurations"],
     "all layouts, physical parameters, iteration and thread counts, alphas, timeouts, clock behaviour and thread interleavings",
     "The tests run a few fixed layouts on whatever schedule the machine happens to give and compare a few charge states; races and deadlines are not reached.",
     [A + "simulation/sidb/quicksim.hpp", "include/fiction/technology/charge_distribution_surface.hpp"],
     [("parallel search and result collection", A + "simulation/sidb/quicksim.hpp"),
      ("adjacent search and incremental potential update", "include/fiction/technology/charge_distribution_surface.hpp")],
     state=[("shared result list", "charge distributions collected by all threads under a mutex", A + "simulation/sidb/quicksim.hpp")],
     observe=["returned simulation result", "simulated clock"],
     level_note="Real QuickSim and charge distribution code on the simulated scheduler and clock, judged by an independently written physics model. "
                "mockturtle/phmap/kitty parts are stand-ins. Sampled schedules.")
prop("S03", "ClusterComplete finds exactly the physically valid states, on any schedule",
     "ClusterComplete reports every physically valid charge distribution of a layout exactly once and nothing else, each with its true local potentials and energy, "
     "for two and three charge states, with global and local external potentials and charged defects, and independently of the number of threads, of how work is "
     "stolen between them, of the pruning parameters and of concurrent callers. It always finishes and joins its threads.",
     ["schedules", "inputs", "configurations"],
     "all layouts with and without charged defects, physical parameters, witness limits, thread counts, hash orders and thread interleavings",
     "The tests compare some fixed layouts with the exhaustive engine on one schedule; work stealing, queue ordering and rare cluster shapes are left to chance.",
     [A + "simulation/sidb/clustercomplete.hpp", A + "simulation/sidb/ground_state_space.hpp",
      "include/fiction/technology/sidb_cluster_hierarchy.hpp", "include/fiction/technology/charge_distribution_surface.hpp"],
     [("work-stealing queues and unfolding", A + "simulation/sidb/clustercomplete.hpp"),
      ("ground state space pruning", A + "simulation/sidb/ground_state_space.hpp")],
     state=[("worker queues", "moulds still to be unfolded", A + "simulation/sidb/clustercomplete.hpp")],
     observe=["returned simulation result"],
     level_note="Real ClusterComplete on the simulated scheduler; the expected set comes from brute-force enumeration in an independent model with an explicit "
                "borderline band for floating-point ties. ALGLIB's clustering and phmap are stand-ins (hash order permuted per run). Sampled schedules.")

prop("S05", "Operational domains give every parameter point its own status, on any schedule",
     "Grid search, random sampling, flood fill and contour tracing report for each parameter point the status (and critical temperature) that evaluating this point alone gives, "
     "whatever the number and schedule of worker threads; every point is evaluated at most once and the counts reported add up. The grid search covers the whole grid, flood fill every "
     "operational region it came across with its border, contour tracing the whole contour of every hole-free region it came across; all of them finish and join their threads. The ratio around a point counts exactly the "
     "region around it. Unusable parameters are refused before anything runs, and concurrent callers do not influence one another.",
     ["schedules", "inputs", "configurations"],
     "all operational regions, sweep ranges and step sizes in up to three dimensions, sample counts, thread counts, entropy and thread interleavings",
     "The tests sweep a few gates on one schedule and accept any result size up to an upper bound; the shape of the region, the work queue and its termination are left to chance.",
     [A + "simulation/sidb/operational_domain.hpp", A + "simulation/sidb/operational_domain_ratio.hpp", A + "simulation/sidb/sidb_simulation_domain.hpp"],
     [("flood fill work queue and termination", A + "simulation/sidb/operational_domain.hpp: flood_fill"),
      ("contour walk", A + "simulation/sidb/operational_domain.hpp: trace_contour_curve, trace_boundary_surface"),
      ("shared result map", A + "simulation/sidb/sidb_simulation_domain.hpp")],
     state=[("result map", "parameter point to status", A + "simulation/sidb/sidb_simulation_domain.hpp"),
            ("work queue", "points scheduled, active workers, finished flag", A + "simulation/sidb/operational_domain.hpp")],
     observe=["returned domain", "statistics", "evaluations of single points"],
     level_note="Real search code on the simulated scheduler. For arbitrary region shapes the evaluation of a single point is scripted through a specification type of the harness; one scenario uses the real gate "
                "evaluation and compares with evaluating each point alone. phmap, mockturtle and kitty are stand-ins. Sampled schedules.")

prop("S07", "Physically valid parameter points are exactly those where the charge distribution is valid, on any schedule",
     "For a given charge distribution, the reported parameter points are exactly the grid points at which it is physically valid, each with the number of the excited state it is there "
     "(0 for the ground state), whatever the number and schedule of worker threads. The given distribution keeps its charges, threads are joined, and concurrent callers with their own distributions do not race or influence one another.",
     ["schedules", "inputs", "configurations"],
     "all layouts, charge distributions, sweep ranges, step sizes, engines, thread counts and thread interleavings",
     "The tests look up a few points of one or two layouts on one schedule.",
     [A + "simulation/sidb/physically_valid_parameters.hpp"],
     [("parallel grid evaluation and match against the energy levels", A + "simulation/sidb/physically_valid_parameters.hpp")],
     state=[("result map", "parameter point to excited state number", A + "simulation/sidb/sidb_simulation_domain.hpp")],
     observe=["returned domain", "charges of the given distribution"],
     level_note="Real code with the real exact engines on the simulated scheduler; judged by brute-force enumeration in the independent physics model at each grid point. Sampled schedules.")

prop("S08", "The gate designer returns operational gates only, and all of them when asked for all, on any schedule",
     "Whatever the number and schedule of worker threads, every layout the gate designer returns is the unchanged skeleton (its defects included) with the requested number of canvas SiDBs and passes, on its own, the "
     "evaluation its mode stands for (exhaustive and random: the operational check as parametrised; QuickCell: pruning and simulation; pruning only: pruning). With all combinations requested, each such layout is returned exactly once; "
     "with the first solution requested, one is returned whenever there is one. The counts reported fit, threads are joined, and concurrent callers do not race or influence one another.",
     ["schedules", "inputs", "configurations"],
     "all skeletons, canvases, specifications, modes, termination conditions, engines, hardware thread counts (unknown included), entropy and thread interleavings",
     "The tests design a few gates and compare the number of results on one schedule; which thread finds or reports what is left to chance.",
     [A + "physical_design/design_sidb_gates.hpp", A + "simulation/sidb/random_sidb_layout_generator.hpp"],
     [("work distribution, early termination, result collection", A + "physical_design/design_sidb_gates.hpp")],
     state=[("result list", "gates found by all threads", A + "physical_design/design_sidb_gates.hpp")],
     observe=["returned gates", "statistics"],
     level_note="Real designer and gate evaluation on the simulated scheduler. Judged by evaluating every combination alone with the library's own operational check, so a wrong verdict of that check itself is not seen here. Sampled schedules.")

prop("S09", "Defect influence judges every position as it would be judged alone, and traces whole contours, on any schedule",
     "Whatever the number and schedule of worker threads, every defect position that the grid, random-sampling or QuickTrace computation reports lies in the scanned area and has the status that judging it alone gives: occupied positions "
     "do not influence; with ground-state change, a position is influential exactly if the set of ground states with the defect differs from that without it (or positive charges become possible) for some input; with operationality "
     "change, exactly if the layout with the defect fails the operational check. The grid holds exactly the positions on multiples of the step, sampling the requested number of different positions, and QuickTrace terminates with the "
     "contour, on the side it comes from, of the first influential region each searched row runs into. No position is simulated twice, counts fit the result, threads are joined, and concurrent callers do not race or influence one another.",
     ["schedules", "inputs", "configurations"],
     "all layouts, defects, scanning areas, step sizes, sample counts, shapes of influence, thread counts, entropy and thread interleavings",
     "The tests compare clearance distances and three counts of a few layouts on one schedule; a missing part of a contour or a race leaves them unchanged.",
     [A + "simulation/sidb/defect_influence.hpp"],
     [("work distribution, contour trace and status of one position", A + "simulation/sidb/defect_influence.hpp")],
     state=[("influence domain", "defect position to status", A + "simulation/sidb/sidb_simulation_domain.hpp")],
     observe=["returned domain", "statistics"],
     level_note="Real computation with the real exact engine on the simulated scheduler, judged by brute-force enumeration in an independent physics model; arbitrary shapes of influence come from a scripted operational check. Sampled schedules.")

prop("S10", "Displacement robustness judges exactly the permitted displacements, each as it would be judged alone, on any schedule",
     "Whatever the number and schedule of worker threads, every displaced layout that the displacement robustness analysis reports is one a permitted displacement leads to: each SiDB that is not fixed lies within the given variation "
     "of its original position (on its original dimer if the policy says so), fixed SiDBs stay, no two SiDBs share a site, and cell types and atomic defects are kept. Its reported status is the one that judging it alone gives. "
     "The exhaustive analysis reports every permitted displacement exactly once; the random analysis at least one and at most the requested share. Counts fit the result. A fabrication probability lies in [0, 1] and, if determined exhaustively, "
     "is the share of operational layouts over all choices of the misplaced SiDBs. All threads are joined and concurrent callers do not race or influence one another.",
     ["schedules", "inputs", "configurations"],
     "all layouts, coordinate types, defects, displacement variations, policies, fixed SiDBs, analysis modes, error rates, thread counts, entropy and thread interleavings",
     "The tests compare three counts and a probability of a few gates on one schedule; a wrong displaced layout that happens to have the same status is invisible to them.",
     [A + "simulation/sidb/displacement_robustness_domain.hpp", "include/fiction/utils/layout_utils.hpp"],
     [("displaced layouts, work distribution and probability", A + "simulation/sidb/displacement_robustness_domain.hpp")],
     state=[("displacement robustness domain", "displaced layout to status", A + "simulation/sidb/displacement_robustness_domain.hpp")],
     observe=["returned domain", "statistics", "fabrication probability"],
     level_note="Real analysis on the simulated scheduler, compared with an independent enumeration of permitted displacements; statuses come from a scripted operational check (arbitrary shapes) or the real one evaluated alone. Sampled schedules.")
prop("S11", "Random SiDB layouts are what was asked for, on the skeleton given, within the attempts allowed, for any entropy",
     "Every generated layout is the unchanged skeleton (cells, types and defects) plus exactly the requested number of SiDBs inside the given area, none on a site that is occupied or blocked by a defect, and meets the requirement on positive charges "
     "(forbidden or required). Generation terminates within the allowed attempts and returns nothing only if they were used up; of several layouts, no two are the same and there are at most as many as asked for. "
     "Concurrent callers do not race or influence one another.",
     ["inputs", "schedules", "configurations"],
     "all areas, skeletons, defects, numbers of SiDBs and attempts, requirements on charges, entropy and interleavings of callers",
     "The tests generate a few layouts with one entropy source and check their size; skeletons with SiDBs inside the area, exhausted attempts and concurrent callers do not occur.",
     [A + "simulation/sidb/random_sidb_layout_generator.hpp", "include/fiction/utils/layout_utils.hpp"],
     [("placement and retries", A + "simulation/sidb/random_sidb_layout_generator.hpp")],
     observe=["returned layouts"],
     level_note="Real generator on simulated entropy and threads; every layout is compared cell by cell with the request. Sampled entropy and schedules.")

prop("S12", "Accuracy and time-to-solution of QuickSim count every repetition, however it ends and however long it takes",
     "The heuristic is run exactly as often as asked for. The reported accuracy is the share of all repetitions, those that time out or return nothing included, whose result contains every ground state of the layout (as defined by the "
     "physical model, whatever base number or algorithm the reference uses). The mean run time covers all repetitions, the time-to-solution follows from both by the documented formula: the mean run time if every repetition succeeded, infinite "
     "if none did, and t * log(1 - confidence) / log(1 - accuracy) otherwise. No input makes it abort. Threads are joined, and concurrent callers do not influence one another.",
     ["inputs", "schedules", "faults", "configurations"],
     "all layouts, physical parameters, reference engines, outcomes and durations of the repetitions, timeouts, clock jumps, entropy, thread counts and interleavings",
     "The tests compare the result for a few gates whose repetitions all succeed quickly; a repetition that times out, an excited state found instead, or a reference with another base number does not occur.",
     [A + "simulation/sidb/time_to_solution.hpp", A + "simulation/sidb/is_ground_state.hpp", A + "simulation/sidb/sidb_simulation_result.hpp"],
     [("repetitions, accuracy and formula", A + "simulation/sidb/time_to_solution.hpp"), ("comparison with the reference", A + "simulation/sidb/is_ground_state.hpp")],
     observe=["statistics"],
     level_note="Real computation on simulated threads and clock; the heuristic's outcomes and durations are scripted or observed from the real QuickSim, ground states come from brute-force enumeration in an independent model. Sampled outcomes and schedules.")

prop("S13", "The critical temperature is where unwanted states become too likely, whatever engine, schedule or entropy",
     "The critical temperature of a layout is the lowest multiple of 0.01 K at which the states other than the ground state (gates: the states that violate the truth table for some input pattern) are occupied, by the Boltzmann distribution "
     "over the distinct physically valid states of equal weight, with more than 1 - confidence; it is the maximum temperature if there is none, and 0 K if a gate's ground state is wrong, if positive charges could occur in it, or if no valid state was found, "
     "also when the simulation ran out of time. The number of valid states and the distance of the first unwanted state are reported likewise. This holds with exact engines and, over the states that it delivers, with QuickSim, however often "
     "it finds one, and does not depend on threads or concurrent callers. Rejecting kinks makes more states unwanted.",
     ["inputs", "schedules", "configurations"],
     "all layouts and small gates, engines, physical parameters, confidence levels, entropy, schedules and interleavings of callers",
     "The tests compare values for a few published gates with exact engines; degenerate states, several outputs, runs of QuickSim that repeat states or find none do not occur.",
     [A + "simulation/sidb/critical_temperature.hpp", A + "simulation/sidb/calculate_energy_and_state_type.hpp", A + "simulation/sidb/energy_distribution.hpp", A + "simulation/sidb/occupation_probability_of_excited_states.hpp"],
     [("temperature sweep", A + "simulation/sidb/critical_temperature.hpp"), ("states of equal energy", A + "simulation/sidb/energy_distribution.hpp"), ("wanted and unwanted states", A + "simulation/sidb/calculate_energy_and_state_type.hpp")],
     observe=["returned temperature", "statistics"],
     level_note="Real computation and engines on simulated threads, clock and entropy; states and energies come from brute-force enumeration in an independent model (for QuickSim: from the states it returned), the Boltzmann sums are recomputed for every 0.01 K. "
                "A known finding remains for kinks that are to be rejected (the existing unit tests state the deviating values). Sampled layouts and schedules.")

prop("S14", "The operational status of a gate follows from the ground states for all of its inputs",
     "A gate is operational if and only if for every input the simulation found a state and every ground state, degenerate ones included, encodes the specified output at every output pair (with kinks rejected: every pair of the input and output wires encodes its bit), "
     "and no SiDB can be positively charged while two states are simulated; otherwise it is not, also if the engine found nothing. The inputs reported as operational, or as non-operational due to kinks, are exactly those; kinks alone are to blame if and only if some input "
     "fails due to kinks and none for another reason. Filters discard no gate that works. Each input is simulated at most once, on the gate with that input applied, with the engine and the parameters asked for, and the simulations are counted. This holds for all "
     "ways to ask (layout, given wires, prepared layouts), encodings, directions of wires, engines and concurrent callers that share gates and prepared layouts; a wrong number of prepared layouts is refused.",
     ["inputs", "histories", "schedules", "configurations"],
     "small gates of up to three inputs and two outputs, all functions of them, whatever the engine returns (nothing, repeated, degenerate or wrong states), physical parameters, strategies, interleavings of callers",
     "The tests evaluate published gates with exact engines that always succeed; ground states that disagree, engines without a result, several inputs that fail for different reasons and concurrent callers do not occur.",
     [A + "simulation/sidb/is_operational.hpp", A + "simulation/sidb/verify_logic_match.hpp", A + "iter/bdl_input_iterator.hpp", A + "simulation/sidb/detect_bdl_wires.hpp", A + "simulation/sidb/can_positive_charges_occur.hpp"],
     [("status, input by input", A + "simulation/sidb/is_operational.hpp"), ("ground states", A + "simulation/sidb/sidb_simulation_result.hpp"), ("applied inputs", A + "iter/bdl_input_iterator.hpp")],
     observe=["returned status, input patterns, verdict on kinks", "number of simulations"],
     level_note="Real status computation, detection of wires and inputs on simulated threads; the engines are real or (in 60 % of the gates) replaced by a simulated one that finds nothing or other states as the seed decides. The expected answer is derived from how the "
                "gate was built and the delivered states; filters are judged by brute-force ground states. The gates whose filters only let them pass are not judged (documented as an approximation). Sampled gates and schedules.")

# ---------------------------------------------------------------------------------------------------------------------
# P: physical design
# ---------------------------------------------------------------------------------------------------------------------
prop("P01", "Graph-oriented layout design returns the best legal, equivalent layout it found, on any schedule and clock",
     "Whatever the number and schedule of its threads, the clock and the timeout, graph-oriented layout design returns either nothing or a legal 2DDWave-clocked gate-level layout that computes the network: inputs and outputs in order, "
     "named and at the borders, every connection between adjacent tiles of successive clock zones, nothing but wires crossing, nothing dangling, no crossings if planar, and no bent inverters if straight ones were asked for. "
     "No layout it found and announced has a lower cost than the one returned, and the statistics describe the returned one. Several threads find a layout whenever one thread does; the same seed gives the same single-threaded result "
     "whatever was designed before. Threads are joined, and concurrent designs do not race or influence one another.",
     ["schedules", "inputs", "configurations"],
     "all networks, effort modes, cost objectives, expansions, input spacings, timeouts, seeds, clock behaviour, numbers of callers and thread interleavings",
     "The tests check equivalence of a few layouts on one schedule, mostly single-threaded; which of several found layouts is returned, and what happens when two threads find one at the same time, is left to chance.",
     [A + "physical_design/graph_oriented_layout_design.hpp", A + "physical_design/post_layout_optimization.hpp", "include/fiction/layouts/gate_level_layout.hpp"],
     [("parallel search space graphs, best solution and timeout", A + "physical_design/graph_oriented_layout_design.hpp"), ("relocation of outputs", A + "physical_design/post_layout_optimization.hpp"),
      ("routing", A + "path_finding/a_star.hpp")],
     state=[("best layout and cost", "shared by all search space graphs", A + "physical_design/graph_oriented_layout_design.hpp")],
     observe=["returned layout", "statistics", "verbose output"],
     level_note="Real design, routing and optimization code on the simulated scheduler, clock and entropy; the layout is judged by an independent legality check and by simulating it on all input patterns. "
                "mockturtle and kitty are stand-ins. Small networks (up to 3 inputs and 4 gates), sampled schedules.")

prop("P02", "Layout optimization keeps layouts legal, equivalent and no larger, whenever the time is up",
     "Whenever post-layout optimization or wiring reduction ends, be it by itself, by its timeout at any moment, or by its limit on relocations, a legal 2DDWave-clocked gate-level layout handed to it is still legal "
     "(adjacent connections between successive clock zones, nothing but wires crossing, nothing dangling, complete fan-ins) and computes the same functions under the same names in the same order; its inputs are at the borders; it has the same gates and fan-outs, "
     "no larger area, and no more crossings if none may be made; wiring reduction leaves no more wires. The statistics describe the layout before and after. Once the time is up, no more than the step under way is completed. "
     "Concurrent optimizations of different layouts do not race or influence one another.",
     ["schedules", "inputs", "crash_points", "configurations"],
     "all legal layouts with gates of up to two inputs (asymmetric functions included), parameters, moments at which the timeout expires, clock behaviour, and interleavings of concurrent callers",
     "The tests optimize a few layouts to the end; where exactly a timeout interrupts the relocation of a gate cannot be chosen in a test.",
     [A + "physical_design/post_layout_optimization.hpp", A + "physical_design/wiring_reduction.hpp", "include/fiction/layouts/gate_level_layout.hpp"],
     [("relocation and restoration of gates", A + "physical_design/post_layout_optimization.hpp: improve_gate_location"), ("cuts through the wiring", A + "physical_design/wiring_reduction.hpp: delete_wires"),
      ("outputs", A + "physical_design/post_layout_optimization.hpp: optimize_output_positions")],
     observe=["optimized layout", "statistics", "computing time beyond the timeout"],
     level_note="Real placement (orthogonal), optimization and routing code on the simulated scheduler and clock; the layout is judged by an independent legality check and by simulating it on all input patterns. "
                "mockturtle and kitty are stand-ins. Small networks (up to 4 inputs and 9 gates), sampled timeouts and schedules. Positions of outputs are not judged.")

prop("E01", "Exact physical design finds the smallest layout whatever its threads, deadlines and solver do",
     "With any number of threads, schedule of them, and durations of the solver's checks, exact physical design returns a layout exactly if the sequential search finds one within the bounds, and one with the same smallest number of tiles; "
     "each layout returned is legal, computes the network's functions under its names, and respects crossings, borders, inverters, and the bounds on the size. Continuing from earlier states of the solver finds the same as starting anew for each number of tiles, "
     "and no other method finds a smaller layout. When the timeout expires, a check is interrupted, or the solver fails (out of memory), the search ends without an exception or termination, with nothing or with a legal layout no smaller than the minimum; "
     "once the timeout is up, a check of the solver goes on for no longer than the timeout once more. The statistics describe the layout and the time of the call. Threads share nothing without synchronisation, and concurrent callers do not influence one another.",
     ["schedules", "inputs", "faults", "configurations"],
     "all networks, clocking schemes, parameters, thread counts, interleavings, durations of checks, moments of interrupts, timeouts and solver failures",
     "The tests for the exact method need a solver and run it with one thread on a few networks without a timeout; which thread finds what first, and where an interrupt arrives, cannot be chosen in a test.",
     [A + "physical_design/exact.hpp", A + "iter/aspect_ratio_iterator.hpp", "include/fiction/layouts/cartesian_layout.hpp", "include/fiction/layouts/gate_level_layout.hpp"],
     [("threads, results and interrupts", A + "physical_design/exact.hpp: explore_asynchronously, run_asynchronously"), ("reuse of solver states", A + "physical_design/exact.hpp: fetch_solver"),
      ("timeouts", A + "physical_design/exact.hpp: update_timeout"), ("order of aspect ratios", A + "iter/aspect_ratio_iterator.hpp")],
     observe=["returned layout", "statistics", "duration"],
     level_note="Real exact physical design with the real Z3 library, whose answers are given after simulated times or withheld (time limit, interrupt, failure) by interposed API functions; layouts are judged by an independent legality check and simulation. "
                "The solver itself is not verified. Small networks (2 inputs, 2 gates, at most 12 tiles), sampled schedules.")

# ---------------------------------------------------------------------------------------------------------------------
# I: input and output
# ---------------------------------------------------------------------------------------------------------------------
prop("I01", "Rows written as CSV survive any crash whole, in order and unaltered",
     "Once writing a row through the CSV writer returns and the stream reports no failure, the complete row (its fields joined by the delimiter, ended by one newline, "
     "formatted as the stream formats them) has been handed to the stream's device, so a crash at any later point does not lose it. "
     "Whatever fails below, the device holds a prefix of the rows in order and the failure shows in the stream's state; fields passed by reference stay unchanged.",
     ["crash_points", "fault_sequences", "inputs", "schedules"],
     "all sequences of rows and field types, buffer sizes, stream formats, exception masks, device and disk failures, crash points, and interleavings of several writers",
     "The tests write a few rows into a string stream, where buffering, flushing, failures and crashes cannot be seen.",
     ["include/fiction/io/csv_writer.hpp"],
     [("row rendering and flush", "include/fiction/io/csv_writer.hpp: write_line")],
     observe=["bytes at the stream's device", "stream state"],
     level_note="Real writer on simulated devices, disks and threads; after every row the device content is compared with an independent rendering of the rows. "
                "A crash keeps what the device received. Sampled faults and crash points.")

prop("I02", "Files are written completely or the failure is reported",
     "When a function that writes a layout, a simulation result, a domain or a drawing to a file returns, the file holds exactly the content it writes to a stream that works "
     "(apart from the date), whatever was in the file before and however the disk splits or interrupts the writes. If the disk refuses or loses any of it, the function throws a "
     "stream failure instead; the file then holds a beginning of the content, and a file that could not be opened is unchanged. Written to a stream, the loss shows in the stream's state. "
     "Tables of domains list every value they hold exactly once. Concurrent callers writing different objects to different files do not affect each other.",
     ["fault_sequences", "inputs", "schedules"],
     "all objects of all writers, old contents, points and kinds of disk failure (full, I/O error, quota, refused open, short and interrupted writes), and interleavings of several callers",
     "The tests write to string streams or to a disk that works.",
     ["include/fiction/io/write_*.hpp", "include/fiction/io/dot_drawers.hpp"],
     [("file overloads", "include/fiction/io/write_sqd_layout.hpp and the other write_*.hpp: overloads that take a file name"),
      ("domain tables", "include/fiction/io/write_operational_domain.hpp, write_defect_influence_domain.hpp")],
     observe=["file contents", "exceptions", "stream state"],
     level_note="Real writers and the real C++ file streams on a simulated disk; the content expected is what the same writer gives to a string stream, for domains also an "
                "independent rendering. Sampled faults.")
prop("I03", "Readers return what the file says or report an error",
     "A layout, defect surface or list of truth tables written to a file and read back is the one that was written: cells, types, positions, defects, gates, their functions and connections, "
     "names, clock numbers. A disk that splits or interrupts reads changes nothing; one that cannot be opened or fails while reading is reported by an exception (tables of an unopened file are empty), "
     "never by a result that lacks what could not be read, and reading again afterwards works. A file cut at any point or with damaged bytes is read or refused by an exception in bounded time, without "
     "memory errors; a cut file that lacks its end marker is refused. Concurrent callers, also of the same file, each get what they would alone. "
     "Names are plain identifiers, gates reach an output, and FQCA and FGL are held to what their formats can express.",
     ["crash_points", "fault_sequences", "inputs", "schedules"],
     "all written objects, truncation points, damaged bytes, points and kinds of read failures, and interleavings of several callers",
     "The tests read a few well-formed and malformed texts from string streams.",
     ["include/fiction/io/read_*.hpp", "include/fiction/io/tt_reader.hpp"],
     [("parsers", "include/fiction/io/read_sqd_layout.hpp, read_fgl_layout.hpp, read_fqca_layout.hpp, read_sidb_surface_defects.hpp, tt_reader.hpp"),
      ("writers they mirror", "include/fiction/io/write_sqd_layout.hpp, write_fgl_layout.hpp, write_fqca_layout.hpp")],
     observe=["objects returned", "exceptions", "time to return"],
     level_note="Real readers and writers and the real C++ file streams on a simulated disk; the XML parser below (tinyxml2, not available offline) is a stand-in, so its own robustness is not judged. "
                "Sampled faults, truncations and damages.")

# ---------------------------------------------------------------------------------------------------------------------
# N: guarantees without schedule, time, I/O or randomness: not targets of deterministic simulation
# ---------------------------------------------------------------------------------------------------------------------
prop("N01", "Exact SiDB engines find the true ground state",
     "The exhaustive and QuickExact engines report every physically valid charge distribution of a layout, with its true energy, and therefore the ground state.",
     ["inputs"], "all layouts and physical parameters", "The tests sample a few layouts.",
     [A + "simulation/sidb/exhaustive_ground_state_simulation.hpp", A + "simulation/sidb/quickexact.hpp"],
     [("enumeration with pruning", A + "simulation/sidb/quickexact.hpp")],
     na="single-threaded pure function of layout and parameters: no schedule, clock, randomness or I/O for a simulator to control")
prop("N02", "Physical design keeps the function of the network",
     "Orthogonal, hexagonalised and colour-routed layouts implement the function of the network they were made from and violate no design rule.",
     ["inputs", "programs"], "all networks and parameters", "The tests sample benchmark circuits.",
     [A + "physical_design/orthogonal.hpp", A + "physical_design/hexagonalization.hpp", A + "physical_design/color_routing.hpp"],
     [("placement and routing", A + "physical_design/orthogonal.hpp")],
     na="single-threaded pure function of the network: nothing nondeterministic or faulty for a simulator to control")
prop("N03", "Equivalence checking and design rule checking are sound",
     "Layouts reported equivalent to a specification compute it, counterexamples are real, and a layout without reported design rule violations has none.",
     ["inputs"], "all layouts and specifications", "The tests sample a few layouts.",
     [A + "verification/equivalence_checking.hpp", A + "verification/design_rule_violations.hpp"],
     [("miter and SAT", A + "verification/equivalence_checking.hpp")],
     na="pure function of its inputs (the SAT solver and network packages it needs are not installed here either)")
prop("N04", "Layout data structures keep coordinates, tiles and cells consistent",
     "Coordinate conversions are mutually inverse, iteration visits every coordinate of a layout once in order, and placing, moving and clearing tiles and cells are reflected by all queries.",
     ["inputs", "histories"], "all aspect ratios, coordinates and operation sequences", "The tests sample coordinates and short sequences.",
     ["include/fiction/layouts/coordinates.hpp", "include/fiction/layouts/cell_level_layout.hpp", "include/fiction/layouts/gate_level_layout.hpp"],
     [("coordinate packing", "include/fiction/layouts/coordinates.hpp")],
     na="sequential in-memory data structures: no concurrency, time or I/O; a history of calls alone is input generation, not simulation")

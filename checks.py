"""Table of the checks: which harness, which budget, what is real and what is a stand-in."""

COMMON_ASSUME = [
    "one thread runs at a time: sequentially consistent executions; weaker orderings show only through the happens-before race detector",
    "accesses inside libstdc++.so/libfmt.so are not preemption points; header code and everything of fiction is",
    "schedules, clocks, entropy and faults are sampled from seeds, not enumerated",
]
REAL_RT = ["libstdc++ threads, mutexes, condition variables, futures (real code on simulated pthread/futex primitives)"]
STUB_RT = ["pthread scheduling, futexes, clocks, sleeps, std::random_device, hardware_concurrency, malloc: simulated"]

SHIMS = ["mockturtle, kitty, parallel-hashmap, ALGLIB: stand-ins in shim/ (the libraries are not installed)"]

CHECKS = {
    "O01": dict(
        files=["sa.cpp"], quick_s=20, thorough_s=300,
        nontrivial="at least one neighbour state was proposed",
        real=["include/fiction/algorithms/optimization/simulated_annealing.hpp"] + REAL_RT,
        stub=STUB_RT, need_probes=["multi", "single", "uphill", "uphill-accepted"],
        assumptions=COMMON_ASSUME + ["the user's callables are thread-safe and total"]),
    "S01": dict(
        files=["quicksim.cpp"], quick_s=25, thorough_s=300,
        nontrivial="more than one thread searched a layout with undecided SiDBs, or a deadline was simulated",
        real=["include/fiction/algorithms/simulation/sidb/quicksim.hpp", "include/fiction/technology/charge_distribution_surface.hpp and the layout classes below it"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["parallel", "results", "deadline-passed", "deadline-not-passed"],
        assumptions=COMMON_ASSUME),
    "S03": dict(
        files=["clustercomplete.cpp"], quick_s=30, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="more than one worker thread unfolded the charge space",
        real=["include/fiction/algorithms/simulation/sidb/{clustercomplete,ground_state_space}.hpp", "include/fiction/technology/{sidb_cluster_hierarchy,charge_distribution_surface,sidb_defect_surface}.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["parallel", "several", "valid-distributions"],
        assumptions=COMMON_ASSUME),
    "I01": dict(
        files=["csv.cpp"], quick_s=12, thorough_s=120,
        nontrivial="at least one row was written through the writer",
        real=["include/fiction/io/csv_writer.hpp", "libstdc++ streams and file buffers"],
        stub=["the device below the stream, the disk (short writes, ENOSPC, EIO), thread scheduling"],
        need_probes=["durable-row", "failed-row"],
        assumptions=COMMON_ASSUME + ["a crash keeps exactly the bytes handed to the stream's device (page cache loss is not modelled)"]),
    "S05": dict(
        files=["opdom.cpp"], quick_s=35, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="more than one worker thread or caller evaluated parameter points",
        real=["include/fiction/algorithms/simulation/sidb/{operational_domain,operational_domain_ratio,sidb_simulation_domain}.hpp", "gate scenario: is_operational, the simulation engines, BDL detection, charge distribution surfaces"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["scripted scenarios: the evaluation of a single parameter point (arbitrary domain shapes)"],
        need_probes=["parallel", "contours", "gate-operational", "gate-non-operational"],
        assumptions=COMMON_ASSUME),
    "S07": dict(
        files=["physparams.cpp"], quick_s=25, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="more than one worker thread or caller evaluated parameter points",
        real=["include/fiction/algorithms/simulation/sidb/{physically_valid_parameters,operational_domain,energy_distribution,quickexact,exhaustive_ground_state_simulation,quicksim}.hpp",
              "include/fiction/technology/charge_distribution_surface.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["parallel", "valid-point", "ground", "excited"],
        assumptions=COMMON_ASSUME),
    "S08": dict(
        files=["design.cpp"], quick_s=30, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="more than one worker thread or caller judged candidate gates",
        real=["include/fiction/algorithms/physical_design/design_sidb_gates.hpp", "include/fiction/algorithms/simulation/sidb/{is_operational,random_sidb_layout_generator,detect_bdl_wires,quickexact}.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["parallel", "some-gates", "no-gate", "random"],
        assumptions=COMMON_ASSUME),
    "S09": dict(
        files=["defects.cpp"], quick_s=30, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="more than one worker thread or caller judged defect positions, or a contour was traced",
        real=["include/fiction/algorithms/simulation/sidb/{defect_influence,sidb_simulation_domain,is_operational,quickexact}.hpp", "include/fiction/technology/{sidb_defect_surface,charge_distribution_surface}.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["scripted scenario: the evaluation of a single defect position (arbitrary shapes of influence)"], need_probes=["parallel", "contours", "influential", "not-influential"],
        assumptions=COMMON_ASSUME),
    "S10": dict(
        files=["displace.cpp"], quick_s=30, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="more than one worker thread or caller judged displaced layouts, or a fabrication probability was computed",
        real=["include/fiction/algorithms/simulation/sidb/{displacement_robustness_domain,is_operational,detect_bdl_wires,quickexact}.hpp", "include/fiction/utils/{layout_utils,math_utils}.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["scripted scenario: the operational check of a layout"], need_probes=["parallel", "some-work", "physical"],
        assumptions=COMMON_ASSUME),
    "S11": dict(
        files=["randlyt.cpp"], quick_s=20, thorough_s=200, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="SiDBs were to be placed at random",
        real=["include/fiction/algorithms/simulation/sidb/{random_sidb_layout_generator,can_positive_charges_occur}.hpp", "include/fiction/utils/layout_utils.hpp", "include/fiction/technology/sidb_defect_surface.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["generated", "gave-up", "several", "callers"],
        assumptions=COMMON_ASSUME),
    "S12": dict(
        files=["tts.cpp"], quick_s=20, thorough_s=200, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="repetitions of the heuristic were evaluated",
        real=["include/fiction/algorithms/simulation/sidb/{time_to_solution,is_ground_state,sidb_simulation_result,quicksim,quickexact,exhaustive_ground_state_simulation,clustercomplete}.hpp"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["scripted scenarios: the outcome and duration of a run of the heuristic"], need_probes=["never", "always", "sometimes", "no-answer", "degenerate", "callers"],
        assumptions=COMMON_ASSUME),
    "S13": dict(
        files=["ctemp.cpp"], quick_s=30, maxviol=400, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="a critical temperature was determined",
        real=["include/fiction/algorithms/simulation/sidb/{critical_temperature,calculate_energy_and_state_type,energy_distribution,occupation_probability_of_excited_states,can_positive_charges_occur}.hpp and the simulation engines"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["temperature", "maximum", "zero", "repeated", "callers", "kinks-known"],
        assumptions=COMMON_ASSUME),
    "S14": dict(
        files=["opstatus.cpp"], quick_s=30, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=1"],
        nontrivial="an operational status was determined",
        real=["include/fiction/algorithms/simulation/sidb/{is_operational,detect_bdl_pairs,detect_bdl_wires,can_positive_charges_occur,sidb_simulation_result}.hpp, include/fiction/algorithms/iter/bdl_input_iterator.hpp, the simulation engines (40 % of the gates)"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["simulation engine results (60 % of the gates)"],
        need_probes=["operational", "non-operational", "filtered", "passed-filters", "positive", "no-result", "degenerate", "mismatch-and-kink", "inputs", "kink-inputs", "kink-induced", "not-kink-induced", "refused", "callers"],
        assumptions=COMMON_ASSUME),
    "E01": dict(
        files=["exact.cpp"], quick_s=70, thorough_s=400, flags=["-DFICTION_ALGLIB_ENABLED=0", "-DFICTION_Z3_SOLVER=1"], libs=["-lfmt", "-lz3"],
        nontrivial="a design was attempted",
        real=["include/fiction/algorithms/physical_design/exact.hpp", "include/fiction/algorithms/iter/aspect_ratio_iterator.hpp", "include/fiction/{layouts,networks}", "libz3 (not instrumented)"] + REAL_RT,
        stub=STUB_RT + SHIMS + ["duration, time limit, interruption and memory exhaustion of a solver check"], need_probes=["parallel", "layout", "no-layout", "compared", "anew", "interrupted"],
        assumptions=COMMON_ASSUME),
    "P01": dict(
        files=["gold.cpp"], quick_s=60, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="a layout was designed",
        real=["include/fiction/algorithms/physical_design/{graph_oriented_layout_design,post_layout_optimization,wiring_reduction}.hpp", "include/fiction/algorithms/{path_finding,network_transformation}", "include/fiction/{layouts,networks}"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["parallel", "layout", "several-found", "callers"],
        assumptions=COMMON_ASSUME),
    "P02": dict(
        files=["plo.cpp"], quick_s=40, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="a layout was optimized",
        real=["include/fiction/algorithms/physical_design/{orthogonal,post_layout_optimization,wiring_reduction}.hpp", "include/fiction/algorithms/{path_finding,network_transformation}", "include/fiction/{layouts,networks}"] + REAL_RT,
        stub=STUB_RT + SHIMS, need_probes=["smaller", "same-area", "callers", "again"],
        assumptions=COMMON_ASSUME),
    "I02": dict(
        files=["files.cpp"], quick_s=40, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="a file was written to a simulated disk",
        real=["include/fiction/io/write_*.hpp, dot_drawers.hpp, csv_writer.hpp", "libstdc++ streams and file buffers", "the layouts and results written"],
        stub=["the disk (open failures, torn and short writes, ENOSPC, EIO, EDQUOT, EFBIG), thread scheduling, clocks"] + SHIMS,
        need_probes=["complete", "reported", "not-opened", "callers"],
        assumptions=COMMON_ASSUME + ["errors the operating system reports after close() (write-back failures) are not modelled"]),
    "I03": dict(
        files=["readers.cpp"], quick_s=40, thorough_s=300, flags=["-DFICTION_ALGLIB_ENABLED=0"],
        nontrivial="a file was read from a simulated disk",
        real=["include/fiction/io/{read_sqd_layout,read_fgl_layout,read_fqca_layout,read_sidb_surface_defects,tt_reader}.hpp and the writers of these formats", "libstdc++ streams, file buffers and regular expressions"],
        stub=["the disk (open failures, short reads, EIO, ESTALE, files cut by a crash, damaged bytes), thread scheduling", "tinyxml2: stand-in in shim/ (its header is not installed)"] + SHIMS,
        need_probes=["complete", "reported", "not-opened", "cut-refused", "cut-read", "damage-refused", "damage-read", "callers"],
        assumptions=COMMON_ASSUME),
}

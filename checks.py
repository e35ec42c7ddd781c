"""Build configurations and the workload of every check."""
SAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
CONFIGS = {
    # memory and undefined-behaviour monitors on, asserts on
    "asan": {"cxx": "g++", "cc": "gcc", "flags": SAN},
    # without Boost pools every tapeless variable is a heap block of its own
    "asannp": {"cxx": "g++", "cc": "gcc", "flags": SAN, "boost": False},
    # use of uninitialised values (and whatever else memcheck sees), optimised like a release
    "memcheck": {"cxx": "g++", "cc": "gcc", "flags": "-O1 -g1 -fno-omit-frame-pointer", "defs": "-DVH_MEMCHECK",
                 "wrap": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=16", "--leak-check=no"]},
    # data races between threads
    "tsan": {"cxx": "g++", "cc": "gcc", "flags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"},
}
CHECKS = {}


def check(pid, runs, rule, must=(), assumptions=(), technique="", note=""):
    CHECKS[pid] = {"runs": runs, "rule": rule, "must": list(must), "assumptions": list(assumptions),
                   "technique": technique, "note": note}


ORACLE = "runtime oracle (independent truncated-polynomial algebra) over random programs, ASan+UBSan build"
NOTE = "held on the random executions explored (counts in the evidence file); no claim beyond them; floating-point results compared within a conditioning-scaled tolerance"

check("C01", [{"cfg": "asan", "src": "c01.cpp", "quick": 12000, "thorough": 400000}],
      "random imperative programs over the whole operator/function surface (register reuse, mixed active/passive operands, "
      "temporaries, branches away from ties, early and repeated dependents), taped once and evaluated at 3 points; a case is distinct by the hash of its program",
      must=["op", "forward", "reverse"], technique=ORACLE, note=NOTE)
check("C02", [{"cfg": "asan", "src": "c02.cpp", "quick": 9000, "thorough": 250000}],
      "random programs (no cbrt: documented as unsupported in higher order) and random input curves of degree 1..6 (thorough: 8), 1..4 directions; "
      "every higher-order forward driver incl. keep variants, partitioned and Fortran forms; distinct by program hash, degree and direction count",
      must=["op", "driver", "degree", "numbers_compared"], technique=ORACLE, note=NOTE)
check("C03", [{"cfg": "asan", "src": "c03.cpp", "quick": 14000, "thorough": 400000}],
      "random programs and curves, forward with keep then every higher-order reverse driver (scalar, time-dependent weights, vector, vector-keep, nz patterns, Fortran forms); "
      "distinct by program hash, degree and direction count",
      must=["op", "driver", "degree", "nz", "fwd", "numbers_compared"], technique=ORACLE, note=NOTE)
check("C04", [{"cfg": "asan", "src": "c04.cpp", "quick": 9000, "thorough": 300000}],
      "random programs (up to 9 independents, 7 dependents) through every easy driver (C++, C/Fortran forms that exist), several driver calls per tape at two points, sentinels around documented outputs; "
      "distinct by program hash and derivative order",
      must=["driver", "numbers_compared"], technique=ORACLE, note=NOTE)

check("C05", [{"cfg": "asan", "src": "c05.cpp", "quick": 12000, "thorough": 400000}],
      "random programs with random seed matrices (tensor_eval of degree 0..7 in 1..4 directions, all entries through every access path), random regular square systems "
      "(inverse_Taylor_prop, inverse_tensor_eval, histories of jac_solv modes and points, re-recorded tapes) checked by pushing the returned curve through the system, and exactly singular systems; distinct by program hash and shape",
      must=["tensor_d", "inverse_d", "inverse_tensor_d", "jac_solv_mode", "retaped", "singular_systems", "numbers_compared"], technique=ORACLE, note=NOTE)
check("C06", [{"cfg": "asan", "src": "c06.cpp", "quick": 9000, "thorough": 300000}],
      "random right-hand sides, output maps and (co)vector fields at a common point; the exact flow and its dependence on the initial state come from Picard iteration in the reference algebra; "
      "forode in one call and continued by degree, C, overloaded and Fortran forms, accode with and without pattern, all Lie drivers of degree 1..6 (thorough 8); distinct by program hashes and degree",
      must=["forode_dol", "accode", "lie_scalar", "lie_gradient", "lie_covector", "lie_bracket", "numbers_compared"], technique=ORACLE, note=NOTE)

check("C07", [{"cfg": "asan", "src": "c07.cpp", "quick": 14000, "thorough": 200000}, {"cfg": "asannp", "src": "c07.cpp", "quick": 8000, "thorough": 100000, "args": ["--salt", "77"]}],
      "histories of 1..4 rounds, each a random program over adtl (1..20 directions), adtl_hov (degree 1..5; only the operators it implements) or adtl_indo (patterns, and the tapeless sparse Jacobian with repeats), "
      "reconfigured between rounds, with and without Boost pools; distinct by program hash, type, degree and directions",
      must=["numdir", "hov_degree", "adtl_op", "hov_op", "indo_op", "patterns", "sparse_jacobians", "extra_ops", "numbers_compared"], technique=ORACLE, note=NOTE)

check("C08", [{"cfg": "asan", "src": "c08.cpp", "quick": 10000, "thorough": 150000}],
      "for a random program: the reference recording with default buffers, then 1..3 alternative recording histories of the same tape (explicit sizes from the documented minima up, a .adolcrc with decimal and hexadecimal sizes and TAPE_DIR, keep-on-disk, "
      "re-recording over the same or another program), each followed by the same battery of drivers whose every result, return code and pattern is compared bit for bit with the reference; distinct by program hash and storage history",
      must=["histories_compared", "op_loc_val_on_disk", "op_loc_val_in_memory", "taylors_on_disk", "adolcrc_sizes", "rerecorded", "tape_dir_used", "call"], technique=ORACLE, note=NOTE)

check("C13", [{"cfg": "asan", "src": "c13.cpp", "quick": 8000, "thorough": 400000}],
      "one or two tapes of random programs rich in parameters (all 62 operator, comparison and function forms of pdouble, plain and self-assigning), up to five updates of the whole parameter vector interleaved with re-recordings and pending forward sweeps; after each, random batteries of drivers and sweeps compared entry by entry with a tape freshly recorded with the new values (to 1e-8: taping chooses formulas by value), "
      "values against the double program, and the other tape unaffected; distinct by program hash",
      must=["updates", "changed_parameters", "numbers_compared", "values_compared", "other_tape_checked", "rerecorded"] + [f"form_{i}" for i in range(62) if i not in (24, 42, 43)] + ["call_fos_forward", "call_hos_reverse", "call_hov_ti_reverse", "call_sparse_jac", "call_tensor_eval", "call_hessian", "call_jac_pat"], technique=ORACLE, note=NOTE)
check("C14", [{"cfg": "asan", "src": "c14.cpp", "quick": 4500, "thorough": 150000}],
      "random programs with up to 100 independents and 75 dependents (wide accumulations, vectors, selections) evaluated at the recording point and two others; every pattern driver (index domains, bit patterns forward/reverse/auto, packed int_forward/int_reverse words, "
      "nonlinear interaction and Hessian patterns in new and old, tight and safe forms) against the nonzeros of reference derivatives computed in the harness, plus form (ascending, unique, in range), Hessian symmetry, tight within safe; distinct by program hash, sizes and mode",
      must=["mode_indopro_tight", "mode_jac_pat_bp_safe_rev", "mode_int_reverse_safe", "mode_hess_pat_tight", "mode_nonl_safe", "nonzeros_checked", "entries_reported", "words_compared", "second_words", "tight_in_safe", "rows_beyond_20"], technique=ORACLE, note=NOTE)

check("C15", [{"cfg": "asan", "src": "c15.cpp", "quick": 9000, "thorough": 400000}],
      "1..3 tapes of random programs with banded, arrow, random and separable couplings (up to 70x70 Jacobians, 18x18 Hessians), random histories of sparse_jac / sparse_hess calls in every option combination (pattern method, tight/safe/old, row/column, direct/indirect, "
      "library- or caller-owned memory, C and C++ interfaces), repeated at other points, interleaved with dense drivers and re-recording; every entry against reference derivatives, no entry missing, doubled or out of range; generated seed matrices separate every entry of random patterns; distinct by program hashes",
      must=["entries_compared", "repeated_calls", "several_tapes", "rerecorded", "seed_entries", "call_sparse_hess_tight_indirect", "call_sparse_hess_safe_direct", "call_c_sparse_hess_safe_indirect", "call_sparse_jac_index_safe_column", "call_c_sparse_jac_bits_reverse_tight_row", "call_sparse_jac_bits_forward_safe_row_manual"], technique=ORACLE, note=NOTE)

check("C16", [{"cfg": "asan", "src": "c16.cpp", "quick": 9000, "thorough": 500000}],
      "random programs whose abs/min/max arguments are shifted to vanish exactly at one of three evaluation points (chains of dependent switches, several per program); the abs-normal form against a long double reference that introduces a variable per switch: zos/fos/fov_pl_forward as the piecewise-linear model, "
      "fos/fov_pl_sig_forward as the lexicographic derivative, the pl reverse drivers with arbitrary weights and signatures, abs_normal, AbsNormalForm with its constants, the Fortran entry, the sparse form with its pattern, directional_active_gradient; distinct by program hash",
      must=["switch_on_kink", "switch_off_kink", "numbers_compared", "model_directions", "sigdir_given", "sigdir_null", "dirgrad_direct", "dirgrad_completed", "pattern_entries", "driver_sparse_anf", "driver_abs_normal_f", "driver_fos_pl_sig_reverse", "driver_fov_pl_sig_forward"], technique=ORACLE, note=NOTE)

check("C10", [{"cfg": "asan", "src": "c10.cpp", "quick": 5000, "thorough": 300000}],
      "two to four tapes, each with a script of recordings (different programs, buffer sizes down to a few entries, kept Taylor values, resident variables living across recordings), sweeps, drivers and split sparse repeats, executed in randomly interleaved micro-steps (one recorded instruction or one evaluation), so recordings nest, alternate and surround evaluations of other tapes; every number a tape delivers compared bit by bit with the same script run alone (on the same tape, or on a fresh tape per recording), current tape tracked; distinct by programs and interleaving",
      must=["current_tape_kept", "evaluations_while_another_records", "recording_steps_while_another_records", "split_sparse_repeat", "trace_off_restores", "numbers_compared", "fresh_tape_per_recording", "call_fos_reverse", "call_hos_ti_reverse", "call_hov_ti_reverse", "call_sparse_hess", "call_sparse_jac", "call_int_reverse_tight", "call_tensor_eval", "call_hov_wk_forward", "call_hos_ov_reverse", "call_set_param_vec"], technique=ORACLE, note=NOTE)
check("C12", [{"cfg": "asan", "src": "c12.cpp", "quick": 24000, "thorough": 2000000}],
      "random programs over dyadic numbers, in which every comparison, loop condition, abs, min/max, step, conditional assignment and active subscript is exact and ties are frequent, taped at one point and evaluated at four others through 14 drivers; "
      "return codes against the decision log of a reference run at both points (exact band), reverse codes against the influence of each decision on the weighted outputs, values and derivatives exactly those of the re-executed program; distinct by program hash",
      must=["codes_checked", "reverse_codes_checked", "reverse_codes_required", "points_changed", "points_tie_or_switched", "points_same", "values_compared", "derivatives_compared", "rc_-1", "rc_0", "rc_1", "rc_2", "rc_3", "op_COND3", "op_AVC", "op_CMP", "op_LOOP"], technique=ORACLE, note=NOTE)
check("C17", [{"cfg": "asan", "src": "c17.cpp", "quick": 12000, "thorough": 500000}],
      "random programs with 1..10 calls of 1..3 external functions through all six interfaces (plain, integer array, version 2, and their object forms), analytic callbacks, callbacks that differentiate an inner tape, functions that change their arguments, functions called several times with other shapes and arrays, fresh and reused argument arrays; "
      "values and derivatives of recordings, zos/fos/fov forward, fos/fov reverse (repeated) and jacobian against the inlined function; every callback's order, count, shape, integers, arguments, results and tape checked; distinct by program and calls",
      must=["calls_reg_ext_fct", "calls_reg_ext_fct/iArr", "calls_reg_ext_fct/v2", "calls_EDFobject", "calls_EDFobject_iArr", "calls_EDFobject_v2", "calls_analytic", "calls_nested_tape", "calls_changing_arguments", "callbacks_fos_reverse", "callbacks_fov_reverse", "callbacks_fos_forward", "callbacks_fov_forward", "callbacks_zos_forward", "repeated_reverse", "sweep_jacobian"], technique=ORACLE + ", callback trace monitor", note=NOTE)
check("C18", [{"cfg": "asan", "src": "c18.cpp", "quick": 9000, "thorough": 600000}],
      "every fourth case drives revolve itself (all snapshot numbers 1..64 for 1..330 (thorough 1200) steps, up to 6000 steps at random, steps announced during the forward sweep) against a model of the snapshot stack and the recurrence for the minimal number of steps; the others: random programs with 1..10 checkpointed loops on 1..2 tapes, "
      "in place and with separate results, plain, branching (retaped), retaped always and with extra state saved by hooks, shared contexts and step tapes; values, zos/fos/fov forward, fos/fov reverse (repeated, interleaved between tapes) and jacobian against the loop written out; every state the step function sees must occur in the loop; number of passive steps of the reverse sweep equals the optimum; distinct by program and loops",
      must=["schedules", "schedules_online", "loops_inplace", "loops_separate", "loops_retaping", "loops_branching", "loops_plain", "loops_with_saved_state", "states_checked", "optimality_checked", "repeated_reverse", "sweep_fos_reverse", "sweep_fov_reverse", "sweep_fos_forward", "sweep_fov_forward", "sweep_jacobian", "sweep_outside"], technique=ORACLE + ", schedule monitor", note=NOTE)
check("C19", [{"cfg": "asan", "src": "c19.cpp", "quick": 5000, "thorough": 500000}],
      "random programs with 1..10 calls of fp_iteration over four families of contractions (five kinds, up to 4 states and 4 controls, contraction rate 0.05..0.75, three norms, smooth and branching) on 1..2 tapes, own and shared sub tapes, repeated recordings, zos/fos forward, fos reverse (repeated) and gradient, interleaved between the tapes, against the converged iteration in Taylor arithmetic; "
      "every tenth case: the number of iterations allowed is exactly the number needed or one less, and loose derivative tolerances against the exact solution of the implicit equation; distinct by program and iterations",
      must=["iterations", "residuals_checked", "numbers_compared", "repeated_reverse", "sweep_gradient", "sweep_fos_reverse", "sweep_fos_forward", "sweep_fos_forward_keep", "calls_branching", "calls_sharing_subtape_between_tapes", "outside", "iteration_bounds", "derivative_tolerances"], technique=ORACLE + ", residual monitor", note=NOTE)
check("C11", [{"cfg": "tsan", "src": "c11.cpp", "quick": 1500, "thorough": 60000}, {"cfg": "asan", "src": "c11.cpp", "quick": 3000, "thorough": 60000, "args": ["--salt", "5"]}],
      "2..6 threads released together, each playing random activities on tapes of its own (recordings with small or default buffers and on disk, all sweeps and drivers, nested and interleaved recordings, external functions, checkpointing, fixed points, abs-normal forms, sparse drivers, containers of active variables), with random yields, spins and sleeps between steps; every number a thread obtains compared bit for bit with the same activities in a thread running alone (before or after), "
      "once under ThreadSanitizer (ColPack colouring left out) and once under AddressSanitizer; distinct by the activities' seeds",
      must=["overlapping_runs", "steps_with_another_thread_active", "numbers_compared", "call_fos_reverse", "call_sparse_hess", "call_checkpointing", "call_fp_iteration", "call_abs_normal", "call_tensor_eval"] + ["activity_" + a for a in ("plain", "ext", "checkpointing", "fixpoint", "abs_normal", "variables", "sparse", "scripts")],
      technique="ThreadSanitizer happens-before race detection on the real threads plus bitwise comparison with single-threaded executions under random schedules", note=NOTE)
check("C09", [{"cfg": "asan", "src": "c09.cpp", "quick": 16000, "thorough": 500000}, {"cfg": "asannp", "src": "c09.cpp", "quick": 5000, "thorough": 150000, "args": ["--salt", "9"]}],
      "random histories of up to 120 (thorough 400) operations on singles, vectors, deques, lists, maps, arrays, optionals, structs, active vectors and borrowed locations of active variables on 1..3 tapes, in and out of recordings (copy, move, swap, self-assignment, insert, erase, sort, resize, temporaries, contiguous requests, both store managers, store controls, INITLIVE); "
      "after the operations every live variable holds its shadow value, all locations of live variables differ and lie inside the store, the library's live count equals the number of variables, contiguous arrays are contiguous; recordings evaluated at three points give the shadow values and consistent adjoints; repeated lives stop growing the store (bound from the first-fit argument) and leave nothing live; distinct by history",
      must=["variables_checked", "dependents_compared", "adjoint_identities", "contiguous_blocks", "singleton_store", "store_sizes_checked", "all_destroyed"] + ["op_" + o for o in ("std_swap", "self_move", "vector_erase", "vector_sort", "vector_insert", "advector_replace", "advector_write", "new_borrowed", "struct_copy", "optional_reset", "temporaries", "ensure", "trace_off")],
      technique="shadow-state monitor over random histories of the real containers, ASan+UBSan build", note=NOTE)
check("C20", [{"cfg": "asan", "src": "c20.cpp", "quick": 20000, "thorough": 600000}],
      "random histories of recordings and evaluations with misuses inserted between the steps: evaluations of every driver with contradicting dimensions or on unknown tapes, reverse sweeps without, with stale, discarded or aborted Taylor coefficients and with the wrong degree, wrong keep flags, safe modes on tapes with active subscripts, wrong parameter counts, trace_off without trace_on, unknown current tapes; "
      "and on tapes of their own during a recording: trace_on again, evaluating the tape being recorded, subscripts out of bounds, look-ups in decreasing vectors, null and non-contiguous external function arguments, non-contiguous vector operations, powers of non-positive bases, store manager changes with live variables, incomplete checkpointing contexts; "
      "each must raise the library's error, keep the current tape, leave the recording (values and gradients checked) and kept Taylor coefficients intact, and everything the history computes must equal, bit by bit, the same history without misuse; distinct by history",
      must=["misuse_shape", "misuse_unknown_tape", "misuse_own_tape", "misuse_reverse_degree", "misuse_keep", "misuse_mode", "misuse_parameters", "misuse_session", "rejected", "numbers_compared", "recordings_checked", "err_reverse_stale:fos_reverse", "err_reverse_aborted:fos_reverse", "err_subscript_read", "err_subscript_write", "err_lookup_decreasing", "err_ext_null", "err_ext_gap", "err_vec_gap", "err_checkpointing", "err_kept:jacobian"],
      technique="exception and state monitor: fault-free twin histories compared bit for bit, ASan+UBSan build", note=NOTE)

check("C21", [{"cfg": "asan", "src": "c21.cpp", "quick": 5000, "thorough": 150000},
              {"cfg": "memcheck", "src": "c21.cpp", "quick": 300, "thorough": 15000, "args": ["--salt", "21"], "stall": 150}],
      "sessions of 1..5 random activities (taping and every driver group, external functions, checkpointing, fixed points, abs-normal form, independent/dependent scopes, sparse drivers, interleaved scripts on several tapes, the tapeless types, the allocation helpers), "
      "each in a thread of its own, repeated: allocated bytes and open descriptors after a repetition must equal those before (confirmed by two further repetitions, attributed by allocation hooks), and 5..7 (on suspicion 400) equal recordings on one tape must stop growing memory and store; "
      "the first run under ASan+UBSan with uninitialised heap filled with NaN patterns, the second under valgrind memcheck with every result tested for definedness; distinct by activities and seed",
      must=["activity", "call", "repetitions_measured", "rerecordings", "sessions"],
      technique="ASan/UBSan and memcheck on random sessions over the whole library, with a monitor of heap bytes and descriptors across repetitions", note=NOTE)
check("C22", [{"cfg": "asan", "src": "c22.cpp", "quick": 40000, "thorough": 2000000, "extra": ["ADOL-C/c_interface/*.cpp"]}],
      "random histories of the C interface's functions on 1..3 tapes (create, update, combine, compare and free handles, begin and end recordings, parameters, assignments, min/max/ldexp/pow and every elementary function, all taped and tapeless forms) against a twin history of C++ adoubles (adtl::adoubles) in another thread: bitwise equal values, derivatives, current tape and results of all drivers on the recorded tapes, decisions and values against plain doubles on the operands; "
      "the forward(...)/reverse(...) overloads of interfaces.h against the C driver they forward to, the array allocation functions written and read through every alias; distinct by history",
      must=["numbers_compared", "values_compared", "arrays", "min_max_using_abs", "call_jacobian", "call_sparse_jac", "set_param_vec", "tl_create_with_ad", "tl_set_ad_value_idx"] + [f"forward{i}" for i in range(1, 7)] + [f"reverse{i}" for i in range(1, 11)]
      + ["tb_" + o for o in "add add_d d_add sub sub_d d_sub mul mul_d d_mul div div_d d_div add_to sub_to mul_to div_to assign assign_to pow pow_d ldexp max max_d d_max min min_d d_min eq eq_d d_eq le_d d_le l g ge independent dependent mkparam free_on_tape".split()],
      technique=ORACLE, note=NOTE)
check("C24", [{"cfg": "asan", "src": "c24.cpp", "quick": 30000, "thorough": 1500000}],
      "random histories of 3..14 sweeps and drivers on a recorded tape (all forward and reverse modes with what was kept, dense, sparse, pattern, tensor, ODE, inverse, linear solver, piecewise linear and abs-normal drivers, the forward overloads), played twice: the second time with other contents of every output array (NaN, infinities, random bits), evaluations at other points and of another tape in between, and every call repeated at once; "
      "all numbers of both histories equal bit by bit, every input array compared with a copy after each call, guard elements behind every array, statistics of the tape unchanged; distinct by programs",
      must=["numbers_compared", "calls_repeated", "inputs_checked", "histories_with_dirty_outputs", "evaluations_between", "evaluations_of_other_tape", "tapes_with_switches"]
      + ["call_" + d for d in "zos_forward fos_forward fov_forward hos_forward hov_forward hov_wk_forward fos_reverse fov_reverse hos_reverse hos_ti_reverse hov_reverse hov_ti_reverse hos_ov_reverse int_forward_tight int_reverse_tight indopro_forward_safe jacobian large_jacobian hessian hessian2 hess_vec hess_mat lagra_hess_vec tensor_eval inverse_tensor_eval jac_solv forode accode sparse_jac sparse_hess jac_pat hess_pat zos_pl_forward fos_pl_forward fov_pl_forward fos_pl_sig_forward fos_pl_reverse fov_pl_reverse fos_pl_sig_reverse abs_normal".split()],
      technique="twin histories of the real library compared bit for bit, input guards, ASan+UBSan build", note=NOTE)

check("C23", [{"cfg": "asan", "src": "c23.cpp", "quick": 120000, "thorough": 1500000}],
      "every overloaded operator, function, comparison, classification, conversion and conditional assignment on all pairs of operand categories (named, temporary, moved, constant, parameter, vector element, constant vector element, the same variable twice), with operands drawn from ordinary numbers, neighbours of integers and of 1, tiny, huge, denormal numbers, signed zeros, infinities and NaN, in and out of recordings; "
      "delivered values, compound results and types bit by bit against the same C++ expression on doubles (composite operations within rounding), operands unchanged afterwards, recorded tapes evaluated at the same and at other points, traceless and higher-order traceless types likewise; whole vector functions; distinct by the sequence of operations",
      must=["values_compared", "operands_checked", "replays", "replayed_values", "adtl_values", "hov_values", "infinite_values", "nan_values", "zero_values", "functions_checked", "vector_functions"]
      + ["condassign_%d" % i for i in range(8)] + ["u_" + k for k in "named element const_element moved temporary parameter".split()]
      + ["b_%s_%s" % (a, b) for a in "named element const_element moved temporary".split() for b in "named element const_element moved temporary parameter constant".split()]
      + ["op_" + o for o in "add sub mul dvd addto subto multo divto assign neg plus preinc predec postinc postdec eq ne lt le gt ge fmin_ fmax_ min_ max_ fabs_ abs_ ceil_ floor_ pow_ atan2_ sin_ cos_ tan_ asin_ acos_ atan_ sinh_ cosh_ tanh_ asinh_ acosh_ atanh_ exp_ log_ log10_ sqrt_ cbrt_ erf_ erfc_ isnan_ isinf_ isfinite_ isnormal_".split()],
      technique="twin execution on doubles with the same expression templates (bitwise), tape replay monitor, ASan+UBSan build", note=NOTE)
check("C25", [{"cfg": "asan", "src": "c25.cpp", "quick": 16000, "thorough": 800000}],
      "random programs (all operations, parameters, active subscripts, loops, vector operations, abs-normal mode) recorded 1..3 times on a tape, in memory, on file, with buffers from a few entries, with kept Taylor values; every tape_doc listing parsed and carried out independently at up to three points against the program's values; "
      "operations numbered consecutively and as many as reported, operand locations inside the store, locations, values, Taylor entries (also as saved by a sweep), products, switches, independents, dependents and parameters recounted from the listing and compared with tapestats and printTapeStats, between any sequence of sweeps; listings repeatable, wrong dimensions refused; all results bitwise equal to a twin that never asked for listings or statistics; distinct by program hash",
      must=["operations_listed", "listing_values_compared", "listings_after_recording", "listings_between_sweeps", "listings_of_several_blocks", "listings_repeated", "reported_numbers", "numbers_compared", "small_buffers", "stats_between", "stats_printed", "taylor_counts", "wrong_counts_refused", "listed_block_ends"]
      + ["listed_op%d" % i for i in list(range(0, 31)) + [34, 35, 36, 37, 38, 40, 41, 42, 43, 44, 45, 46, 47, 49, 50, 51, 53, 54, 55, 56, 57, 58, 59, 64, 65, 66, 67, 84, 85, 89]],
      technique="offline checker over the tape's own listing (parsed and interpreted), counter monitor, twin histories, ASan+UBSan build", note=NOTE)
check("C26", [{"cfg": "asan", "src": "c26.cpp", "quick": 80000, "thorough": 4000000}],
      "random compositions of abs, min, max (also through abs), zero-base powers, roots and smooth functions evaluated exactly at ties (up to dozens at once, ties within ties), recorded there or elsewhere; all forward modes and the tapeless types against an independent one-sided Taylor series along random, sparse, zero-leading and tangential curves, which itself is checked against values at small steps; "
      "reverse sweeps against the hull of the gradients of all resolutions of the ties, the segment between the two pieces of a single tie, the subgradient inequality of convex programs and the gradient where all pieces agree; distinct by program hash and point",
      must=["coefficients_compared", "nonzero_coefficients", "ties_decided_by_direction", "ties_open_along_the_curve", "gradients_in_segment", "gradients_convex", "subgradient_inequalities", "gradients_in_hull", "gradients_same_pieces", "gradients_smooth", "fos_forward", "fov_forward", "hov_forward", "hov_wk_forward", "fos_reverse", "fov_reverse", "hos_reverse", "hov_reverse", "adtl", "adtl_hov", "minmax_by_abs", "recorded_elsewhere", "values_along_the_curve", "value_ties_1", "value_ties_4"]
      + ["op_" + o for o in "ABS MIN MAX MINC MAXC CMIN CMAX POWF POWI SQRT0 SQRTP".split()],
      technique=ORACLE, note=NOTE)

"""Writes /verif/properties.jsonl (the committed source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {}), "hook_needed": None}})
S = "ADOL-C/src/"; I = "ADOL-C/include/adolc/"
prop("C01", "First-order tape sweeps equal the derivatives of the recorded program",
  "For every program recorded on a tape and every point at which it takes the recorded decisions, the first-order forward sweeps (scalar, vector, offset, partitioned and Fortran entry points) return the function value and the exact directional derivatives, and the first-order reverse sweeps return the exact adjoints. This holds at the taping point, at any other such point, for any number of directions or weights, and for a reverse sweep that follows either the recording itself or any forward sweep that kept values.",
  ["programs", "inputs", "histories"], "all straight-line/branching programs over the overloaded operation set, all evaluation points off kinks, all seeds, all keep/reverse orders",
  "The suite checks single operations and a few fixed functions at fixed points; register reuse, self-assignment, aliasing operands and sequences of sweeps over arbitrary programs are a product space tests sample at a handful of points.",
  [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"interfaces.cpp", S+"adouble.cpp", S+"fortutils.cpp", I+"interfaces.h"],
  [("tape interpreter, forward", S+"uni5_for.cpp zos/fos/fov"), ("tape interpreter, reverse", S+"fo_rev.cpp fos_reverse/fov_reverse"), ("recording operators", S+"adouble.cpp"), ("argument marshalling", S+"interfaces.cpp")],
  ["return values and output arrays of zos/fos/fov_forward, *_partx, fov_offset_forward, forward(), fos/fov_reverse, reverse() and Fortran wrappers"])
prop("C02", "Higher-order forward sweeps propagate exact Taylor coefficients",
  "For every recorded program and every input polynomial curve (or family of curves), the higher-order forward sweeps return exactly the Taylor coefficients of the function composed with that curve, for every order and number of curves. Lower-order coefficients do not depend on the order requested, and sweeps that also keep values for reverse mode return the same coefficients as those that do not.",
  ["programs", "inputs"], "all programs over the operation set, all degrees, numbers of directions and coefficient arrays at points off kinks",
  "Each operation has its own recurrence, with separate code for aliased operands, and its errors show only at certain degrees, coefficient patterns or aliasings; tests use fixed low degrees on single operations.",
  [S+"uni5_for.cpp", S+"interfaces.cpp", S+"convolut.cpp"], [("per-operation Taylor recurrences", S+"uni5_for.cpp hos/hov/hov_wk"), ("overloads that repack coefficients", S+"interfaces.cpp forward")],
  ["output arrays of hos_forward, hov_forward, hov_wk_forward, forward()"])
prop("C03", "Higher-order reverse sweeps return Taylor coefficients of the adjoint",
  "After a forward sweep that kept the required number of coefficients, every higher-order reverse sweep returns, for each weight, the Taylor coefficients along the curve of the adjoint of the weighted function, for every degree, every number of weights or curves, and with time-dependent weights. The reported nonzero pattern never claims that an entry vanishes (or is constant) when it does not.",
  ["programs", "inputs"], "all programs with operations supported in higher-order reverse mode, all degrees, weights, weight curves and numbers of vectors",
  "The reverse recurrences are separate code per operation, with zero-adjoint shortcuts and dependency flags that act only for particular weights and degrees; tests fix one function and one degree.",
  [S+"ho_rev.cpp", S+"interfaces.cpp", S+"convolut.cpp"], [("adjoint recurrences", S+"ho_rev.cpp"), ("convolution kernels", S+"convolut.cpp"), ("nonzero-pattern flags", S+"ho_rev.cpp MAXDEC")],
  ["output arrays and nz patterns of hos_reverse, hos_ti_reverse, hos_ov_reverse, hov_reverse, hov_ti_reverse, reverse()"])
prop("C04", "Easy-to-use drivers return exact derivatives for every shape",
  "The high-level drivers for function value, gradient, Jacobian, large Jacobian, vector-Jacobian, Jacobian-vector, Hessian, alternative Hessian, Hessian-vector, Hessian-matrix and Lagrangian products return the exact derivative objects for any recorded program, any dimensions and any point. Their C and Fortran forms agree, and they leave entries outside their documented output (such as the upper triangle of a Hessian) untouched.",
  ["programs", "inputs", "histories"], "all recorded programs, all n and m (including n<m, n=m, n>m, chunked products), all vectors and interleavings of driver calls on one tape",
  "Drivers choose forward or reverse mode and chunk sizes by shape; the suite uses very few shapes and calls each driver once on a fresh tape.",
  [S+"drivers/drivers.cpp", S+"drivers/driversf.cpp", I+"drivers/drivers.h"], [("mode and chunk selection", S+"drivers/drivers.cpp jacobian/large_jacobian/hessian"), ("layout conversion", S+"drivers/driversf.cpp, "+S+"fortutils.cpp")])
prop("C05", "Derivative tensors and inverse Taylor expansions are exact",
  "For every recorded function, seed matrix and order, the tensor drivers return exactly the derivative tensors of the function restricted to the seed directions, addressed through the documented index maps. The inverse-function drivers return coefficients of an inverse curve: pushing the returned curve through the function gives back the prescribed image curve, and the linear solver driver returns the exact solution and reports singular Jacobians.",
  ["programs", "inputs"], "all functions, seed matrices, degrees and multi-indices; all regular square systems for the inverse drivers",
  "The number of multi-indices and interpolation directions grows combinatorially with degree and directions; tests check a few entries at one degree.",
  [S+"drivers/taylor.cpp"], [("interpolation coefficients", S+"drivers/taylor.cpp multma*vec*/coeff"), ("tensor address map", S+"drivers/taylor.cpp tensor_address"), ("inverse Taylor", S+"drivers/taylor.cpp inverse_Taylor_prop/inverse_tensor_eval")])
prop("C06", "ODE and Lie-derivative drivers return the exact series",
  "For any recorded right-hand side, the ODE drivers return the Taylor coefficients of the true solution curve through the given point and its exact dependence on the initial state, for any order and time scale, and continue consistently when the degree is extended. The Lie drivers return the exact iterated Lie derivatives of scalar fields, vector fields and covector fields and of their gradients, for all orders.",
  ["programs", "inputs"], "all smooth right-hand sides, output maps and (co)vector fields, all degrees and points",
  "Tests cover one fixed system for each driver; the recursion couples every coefficient to every operation's series and to the accumulation of total Jacobians.",
  [S+"drivers/odedrivers.cpp", S+"drivers/odedriversf.cpp", S+"lie/adolc_lie.cpp", S+"lie/adolc_lie_c.cpp"], [("forode/accode", S+"drivers/odedrivers.cpp, "+S+"interfaces.cpp"), ("Lie brackets and gradients", S+"lie/adolc_lie.cpp")])
prop("C07", "Tapeless types propagate exact values, derivatives and dependencies",
  "For every program over the tapeless active types, the value equals the plain floating-point result and the propagated derivatives are the exact first-order (or higher-order) directional derivatives for every configured number of directions. The index-domain type reports a dependency pattern that contains every true dependency, and changing the number of directions or the order between computations has no effect on the correctness of later ones.",
  ["programs", "inputs", "histories"], "all programs over the tapeless operator set, all numbers of directions and degrees, all orders of reconfiguration",
  "Hand-written overloads for each operand mix (active/passive, left/right, compound) times direction count; tests exercise single operations.",
  [I+"adtl.h", I+"adtl_hov.h", I+"adtl_indo.h", S+"adouble_tl.cpp", S+"adouble_tl_hov.cpp", S+"adouble_tl_indo.cpp"], [("operator overloads", I+"adtl.h"), ("higher-order recurrences", I+"adtl_hov.h"), ("index domains", I+"adtl_indo.h")])
prop("C08", "Where a tape is stored never changes any result",
  "Results of recording and of every sweep and driver are bitwise identical whatever the sizes of the operation, location, value and Taylor buffers, whether the tape stays in memory or spills to files, whether it is kept on disk at the end of recording, and whether buffer sizes come from the call, the settings file or the defaults. Tape statistics that describe the program do not depend on them either.",
  ["configurations", "programs", "histories"], "all buffer-size combinations down to the smallest allowed, all file-retention flags, all programs and sweep histories",
  "The tests run with default buffers of half a million entries, so block boundaries, refills and multi-block Taylor stacks are practically never crossed.",
  [S+"valuetape/valuetape.cpp", S+"valuetape/tapeinfos.cpp", S+"valuetape/globaltapevarscl.cpp", S+"internal/adolc_settings.cpp", I+"valuetape/tapeinfos.h"], [("block writers/readers", S+"valuetape/tapeinfos.cpp"), ("Taylor stack", S+"valuetape/tapeinfos.cpp write_taylors/get_taylors"), ("settings", S+"valuetape/valuetape.cpp readConfigFile")])
prop("C09", "Active variables never share or lose their storage",
  "However active variables are created, copied, moved, swapped, stored in containers and destroyed, in any order and across growth of the store, each live variable keeps the value last assigned to it and no two live variables alias. Arrays of active variables obtained contiguously stay contiguous, and storage of dead variables is reclaimed rather than leaking without bound.",
  ["histories", "configurations"], "all create/copy/move/destroy histories of scalars, containers and arrays, with either store implementation, before, during and after recording",
  "Fragmentation, block consolidation and reuse depend on long interleaved lifetimes; the tests create a few variables in stack order.",
  [S+"storemanager.cpp", I+"storemanager.h", S+"valuetape/globaltapevarscl.cpp", S+"adouble.cpp"], [("free lists and blocks", S+"storemanager.cpp"), ("store growth", S+"storemanager.cpp grow"), ("contiguous reservation", S+"valuetape/valuetape.cpp ensureContiguousLocations")])
prop("C10", "Tapes are isolated: every other tape is unaffected by work on one",
  "Recording, re-recording, evaluating, removing or resizing one tape never changes the results, statistics or parameters of another, including when recordings are nested, when the current tape is switched between statements, and when identifiers are reused. Re-recording a tape gives exactly the results of a fresh tape.",
  ["histories", "programs"], "all interleavings of recording, nested recording, switching, evaluation, re-recording and removal over several tapes",
  "Cross-tape interference needs particular interleavings of several tapes; the tests mostly use one tape at a time.",
  [S+"tape_interface.cpp", I+"tape_interface.h", S+"valuetape/valuetape.cpp", S+"interfaces.cpp"], [("current-tape stack", S+"valuetape/valuetape.cpp trace_on/trace_off"), ("tape registry", S+"tape_interface.cpp, "+I+"tape_interface.h")])
prop("C11", "Threads working on their own tapes do not influence each other",
  "When several threads record and differentiate concurrently, each on its own tapes, every thread obtains exactly the results it would obtain alone, under every schedule. There is no data race between them, neither in the library's own state nor in its drivers.",
  ["schedules", "programs"], "all schedules of any number of threads each using its own tapes and any drivers",
  "The suite's threaded tests run few operations; races need overlapping calls into drivers with hidden static state and are schedule dependent.",
  [S+"interfaces.cpp", S+"tape_interface.cpp", S+"valuetape/valuetape.cpp", S+"drivers/taylor.cpp", S+"fixpoint.cpp", S+"checkpointing.cpp"], [("thread-local tape registry", S+"tape_interface.cpp, "+I+"tape_interface.h"), ("function-local work arrays", S+"interfaces.cpp")])
prop("C12", "A sweep reports when the recorded decisions no longer apply",
  "Evaluating a tape at a new point returns a status that is negative exactly when a recorded comparison would come out differently, and otherwise reports whether a minimum, absolute value or step selection changed side or sits on a tie. Runtime selections (conditional assignment, min/max, absolute value, active subscripts of vectors) always follow the new point, so values and derivatives are those of the program re-executed there, and no false alarm is raised where all decisions agree.",
  ["programs", "inputs"], "all programs with comparisons, selections and active subscripts, all pairs of taping and evaluation points including ties",
  "Needs pairs of points on different sides of every kind of decision and combinations of decisions; tests check one decision at a time.",
  [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"adouble.cpp", S+"advector.cpp"], [("return-code minimum", S+"uni5_for.cpp MINDEC"), ("recorded comparisons", S+"uni5_for.cpp eq_zero..le_zero, *_a_a"), ("selection operations", S+"uni5_for.cpp cond_assign/min_op/abs_val/subscript")])
prop("C13", "Changing tape parameters equals re-recording with the new values",
  "A tape whose parameters are replaced evaluates, in all modes and orders, exactly like a tape recorded with those parameter values, and repeatedly. Setting parameters changes nothing else about the tape, and parameters of one tape never reach another.",
  ["programs", "inputs", "histories"], "all programs mixing parameters with active variables in every operator, all parameter vectors, any sequence of updates and sweeps",
  "Every operator has parameter variants with their own operation codes in every sweep; tests set parameters once on a small function.",
  [S+"pdouble.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"valuetape/valuetape.cpp"], [("parameter operations", S+"pdouble.cpp"), ("parameter store", S+"valuetape/valuetape.cpp set_param_vec")])
prop("C14", "Reported sparsity patterns never miss a structural nonzero",
  "For every recorded program the Jacobian pattern (all modes: forward, reverse, index domain, bit vector, safe and tight) and Hessian or nonlinear-interaction pattern contain every entry that can be nonzero at the evaluated point; safe patterns do so for every point. Compressed patterns are well-formed (sorted by block, unique, in range, with consistent counts), and the modes are mutually consistent: tight is contained in safe.",
  ["programs", "inputs", "configurations"], "all programs, all option combinations, all block partitions of rows and columns",
  "A missed entry needs a particular data flow through a particular operation in a particular mode; tests check a handful of small functions.",
  [S+"sparse/sparsedrivers.cpp", S+"sparse/sparse_fo_rev.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp"], [("bit-pattern propagation", S+"uni5_for.cpp _INT_FOR_, "+S+"fo_rev.cpp _INT_REV_"), ("index domains", S+"uni5_for.cpp _INDO_"), ("nonlinear interaction domains", S+"uni5_for.cpp _NONLIND_")])
prop("C15", "Sparse Jacobian and Hessian drivers return the exact nonzeros",
  "For every recorded program the sparse Jacobian and sparse Hessian drivers return coordinate lists that contain every nonzero of the true matrix, each with its exact value and position, whatever the compression, recovery and pattern options. A repeated call that reuses the pattern at another point returns the values at that point, and the results equal the dense drivers'.",
  ["programs", "inputs", "histories", "configurations"], "all programs, option vectors, and repeat/new-pattern call sequences, including interleavings over several tapes",
  "Seed coloring and recovery errors show only for patterns where directions collide; tests use one or two patterns.",
  [S+"sparse/sparsedrivers.cpp", S+"valuetape/sparseinfos.cpp", I+"sparse/sparsedrivers.h"], [("seed generation, recovery", S+"sparse/sparsedrivers.cpp"), ("per-tape cached patterns", S+"valuetape/sparseinfos.cpp")])
prop("C16", "The abs-normal form reproduces the piecewise smooth function",
  "For every program built from smooth operations and absolute values, minima and maxima, the abs-normal data (switching variables, their count, Z, L, J, Y, cz, cy) evaluated at any point yields a piecewise linear model that equals the function value at that point and agrees to first order along every direction, including across kinks, and L is strictly lower triangular. The signature-fixed directional drivers return the one-sided directional derivatives selected by the given direction.",
  ["programs", "inputs"], "all abs-smooth programs with nested absolute values, all points on and off kinks, all directions",
  "Switching order, nesting and kinks multiply; tests use a few fixed functions.",
  [S+"drivers/psdrivers.cpp", S+"drivers/psdriversf.cpp", S+"drivers/absnormalform.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp"], [("abs-normal sweeps", S+"uni5_for.cpp _ABS_NORM_"), ("matrix assembly", S+"drivers/psdrivers.cpp abs_normal")])
prop("C17", "External functions behave as if inlined, with exactly one call per use",
  "A program that calls user-supplied external functions gives, in recording, forward and reverse sweeps of first order and in vector mode, the same values and derivatives as the same program with the function body recorded inline. Callbacks receive the current argument values and the exact seeds or weights, are called exactly once per recorded use and sweep in program order (reverse order in reverse sweeps), and values overwritten by a call are restored for the reverse sweep.",
  ["programs", "histories"], "all programs placing external calls of every interface variant (plain, integer arrays, version 2, object-style) among other operations, several calls of one function with different shapes and arrays, all sweep histories",
  "Interaction with value restoration, aliasing inputs/outputs and repeated sweeps needs composed programs; tests call one external function once.",
  [S+"externfcts.cpp", S+"externfcts2.cpp", I+"edfclasses.h", S+"uni5_for.cpp", S+"fo_rev.cpp"], [("call recording", S+"externfcts.cpp call_ext_fct"), ("replay", S+"uni5_for.cpp ext_diff*, "+S+"fo_rev.cpp ext_diff*")])
prop("C18", "Checkpointed time stepping gives the plain recording's derivatives",
  "For any time-step function, number of steps and number of checkpoints, a checkpointed loop yields the same final state and the same adjoints as the loop recorded in full. The checkpointing schedule is valid: it never uses more than the allowed checkpoints, restores only states that were stored, visits every step in reverse order exactly once for the adjoint, and uses the minimal number of forward steps.",
  ["programs", "inputs", "configurations"], "all step counts and checkpoint numbers (online and offline schedules), all step functions, repeated sweeps",
  "The schedule's correctness is combinatorial in steps and checkpoints; the tests run one pair.",
  [S+"checkpointing.cpp", S+"revolve.cpp", I+"checkpointing.h", I+"revolve.h"], [("revolve schedule", S+"revolve.cpp"), ("checkpoint stack and replay", S+"checkpointing.cpp")])
prop("C19", "Fixed-point iterations differentiate to the implicit-function derivatives",
  "For every contractive iteration, the recorded fixed-point call returns the converged state within the requested tolerance and, in forward and reverse sweeps, derivatives that satisfy the implicit function theorem to the requested derivative tolerance. Several fixed-point calls, on one or several tapes, do not interfere.",
  ["programs", "inputs", "histories"], "all contractions, dimensions, tolerances, numbers of calls and sweeps",
  "Tests run one iteration on one tape; interference and tolerance handling need families of problems.",
  [S+"fixpoint.cpp", I+"fixpoint.h"], [("iteration and its adjoint iteration", S+"fixpoint.cpp"), ("call registry", S+"fixpoint.cpp fpi_stack")])
prop("C20", "Misuse is rejected with an error and leaves the library usable",
  "A call whose arguments contradict the tape (wrong numbers of dependents or independents, unknown tapes, reverse sweeps without or with insufficient kept values, wrong degrees, unsupported modes, bad parameter counts) fails with the library's error type and never corrupts memory or returns plausible wrong numbers. After catching the error, valid calls on the same and on other tapes give correct results.",
  ["inputs", "histories"], "all wrong-argument calls at any point in a history of valid calls",
  "Tests check that a few errors are thrown, not what is left behind for all later calls.",
  [S+"adolcerror.cpp", I+"adolcerror.h", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"valuetape/valuetape.cpp", S+"interfaces.cpp"], [("argument checks", S+"uni5_for.cpp/"+S+"fo_rev.cpp sweep prologues"), ("error type", I+"adolcerror.h")])
prop("C21", "No session history reads or writes invalid memory, overflows or leaks",
  "Any sequence of valid public calls (recording, sweeps, drivers, tape creation and removal, containers of active variables, configuration changes) runs without out-of-bounds or use-after-free accesses, undefined arithmetic or uninitialised results. When the session's objects are destroyed the memory the library acquired for them is released, so repeating a session does not grow memory.",
  ["histories", "programs", "configurations"], "all sequences of valid calls and all programs, with all sizes including the smallest",
  "The suite runs without memory monitors and with single short sessions.",
  [S+"valuetape/valuetape.cpp", S+"valuetape/tapeinfos.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"adalloc.cpp", S+"sparse/sparsedrivers.cpp"], [("ownership by containers", S+"valuetape/*.cpp"), ("allocation helpers", S+"adalloc.cpp")])
prop("C22", "The C interface is equivalent to the C++ interface",
  "Every operation and driver reached through the C interface yields the same recordings, values, derivatives, patterns and status codes as its C++ counterpart on the same program and inputs. Handles stay valid until freed, and freeing them releases exactly the objects they denote.",
  ["programs", "histories"], "all programs expressed through handles, all drivers, all handle lifetimes",
  "Hand-written one-line forwarders per operator and driver; one wrong forwarder passes tests that use other operators.",
  ["ADOL-C/c_interface/ADOLC_TB_interface.cpp", "ADOL-C/c_interface/ADOLC_TL_interface.cpp", "ADOL-C/c_interface/driver_interface.cpp", "ADOL-C/c_interface/array_handler.cpp"], [("handle wrappers", "ADOL-C c_interface sources")])
prop("C23", "Active arithmetic computes exactly what double arithmetic computes",
  "Every overloaded operator, function, comparison, conversion and stream operation on active variables (taped, tapeless and higher-order tapeless) yields the value that the same expression yields on plain doubles, for all operand categories (named, temporary, moved, constant, parameter, element of an active vector), for all inputs including signed zeros, infinities and NaN, whether or not a recording is active: exactly for operations the library computes directly, within rounding for those it composes of others. Evaluating the tape at another point gives the values of doubles there (up to the sign of a zero). Evaluating an operation never alters its operands unless it is defined to.",
  ["inputs", "programs"], "all operand-category combinations of all operators and functions, all double values including special ones",
  "Dozens of overloads per operator differ only in value categories; tests use ordinary values and few categories.",
  [S+"adouble.cpp", I+"adtb_types.h", S+"pdouble.cpp", S+"advector.cpp"], [("operator overloads", S+"adouble.cpp"), ("rvalue reuse", S+"adouble.cpp && overloads")])
prop("C24", "Evaluating is repeatable and leaves its inputs and the tape unchanged",
  "Calling any sweep or driver again with the same inputs gives bitwise the same outputs, whatever other sweeps, drivers or evaluations at other points ran in between, and input arrays are never modified. Outputs depend only on the documented inputs, never on previous contents of output arrays or of workspace.",
  ["histories", "programs", "inputs"], "all histories of sweeps on a tape, all prior contents of output arrays",
  "Stale state shows only for specific call orders and dirty outputs; tests call each driver once with zeroed arrays.",
  [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"interfaces.cpp", S+"drivers/drivers.cpp", S+"valuetape/valuetape.cpp"], [("workspace initialisation per sweep", S+"uni5_for.cpp, "+S+"fo_rev.cpp, "+S+"ho_rev.cpp")])
prop("C25", "Tape statistics and listings describe the recording truthfully",
  "The reported numbers of independents, dependents, operations, locations, values, maximal live variables and Taylor-stack entries equal those of the recorded program, and describe it consistently after re-recording, evaluation and reloading. The tape listing enumerates each recorded operation once, in order, with its operands and constants, so that carrying out the listed operations gives the function values; printing listings and statistics alters no later result, and a listing asked for with wrong dimensions is refused.",
  ["programs", "histories", "configurations"], "all programs, all points, any sequence of recordings",
  "Tests check counters of one or two tiny tapes.",
  [S+"tapedoc/tapedoc.cpp", S+"valuetape/valuetape.cpp", S+"tape_interface.cpp"], [("counters", S+"valuetape/valuetape.cpp tapestats"), ("listing", S+"tapedoc/tapedoc.cpp")])
prop("C26", "At kinks, derivatives are the one-sided ones of the seed direction",
  "At points where an absolute value, minimum or maximum is tied or where a power has a zero base, forward sweeps return the one-sided directional derivative (Taylor coefficients) of the function along the given curve, so the value along the curve is reproduced for small positive steps. Reverse sweeps at such ties return an element of the generalized gradient. Conditional assignments, which need not be continuous, are outside this statement.",
  ["programs", "inputs"], "all compositions of nonsmooth operations evaluated exactly at ties, all directions and degrees",
  "Exact ties with higher-order tie-breaking are measure-zero inputs that tests visit only in isolated single-operation form.",
  [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"], [("tie breaking by leading coefficient", S+"uni5_for.cpp abs_val/min_op"), ("sign rules in reverse", S+"fo_rev.cpp abs_val/min_op")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

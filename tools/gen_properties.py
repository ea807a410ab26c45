#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PC = "parallel_control/"
prop("C01", "Associative scan yields all ordered prefixes under any execution order",
 "For every non-empty list and every associative, not necessarily commutative, combine operation, the simulated parallel scan returns exactly the inclusive prefix products (suffix products when reversed), each being the combination of its elements in their original order. The result does not depend on the order in which the combinations of one parallel level are carried out or on how concurrent scans interleave, and the caller's list and elements are left unchanged. If the combine operation fails, the failure reaches the caller and a repeated call gives the complete correct result.",
 ["inputs", "schedules", "fault_sequences"],
 "All list lengths (including 1 and non powers of two), all associative operations, both directions, all orders of the iterations inside each level marked parallel, all points at which the operation may fail, all interleavings of concurrent scans.",
 "tests/test_my_assoc_scan.py runs string-like concatenation on a few fixed lengths in one fixed left-to-right order; no run permutes a parallel level, lets the operation fail, or overlaps two scans.",
 [PC+"my_assoc_scan.py"],
 [("up sweep / down sweep / final pass with absent-element padding", PC+"my_assoc_scan.py:my_assoc_scan"),
  ("reversal by swapping operands", PC+"my_assoc_scan.py:my_assoc_scan(reverse=True)")],
 observe="return value of the scan; the calls made to the operation")

prop("C02", "Discrete-time LQR/LQT: parallel solution equals the sequential optimum",
 "For every well-posed discrete-time linear quadratic regulation or tracking problem (any horizon of at least one step, dimensions, time-varying matrices, affine terms, reference signals, control references and state-control cross costs), the parallel backward, forward and forward-backward solvers return the same gains, offsets, value functions, controls and states as the sequential ones, and the trajectory minimises the stated total cost over all control sequences. This holds for every way of splitting the horizon into sub-intervals, every order in which the partial results are combined, and every re-execution or duplicated delivery of a partial result.",
 ["inputs", "schedules", "fault_sequences"],
 "All problem sizes and data with positive definite control cost; all bracketings of the associative combination that yield all prefixes/suffixes; all worker assignments, completion orders, worker crashes with re-execution and duplicated deliveries.",
 "The tests compare on a handful of fixed problems and only with the one bracketing of the built-in scan, executed in one order by one worker; a combination rule that is right for that tree and wrong for another, or mutates a shared partial result, passes them.",
 [PC+"lqt_np.py", PC+"my_assoc_scan.py"],
 [("associative combination of conditional value functions", PC+"lqt_np.py:combine_abcej"),
  ("associative combination of closed-loop maps", PC+"lqt_np.py:combine_fc"),
  ("element initialisation and extraction", PC+"lqt_np.py:LQT.parBackwardPass_init, parBackwardPass_extract, parForwardPass*, parFwdBwdPass*")],
 state=[("A,b,C,eta,J", "conditional value function between two instants", PC+"lqt_np.py")],
 observe="gains, offsets, value functions, controls and states returned by the public solver methods")

prop("C03", "Discrete-time LQT on TensorFlow: parallel equals sequential optimum",
 "For every well-posed discrete-time linear quadratic tracking problem, the TensorFlow parallel backward, forward and forward-backward passes return the same value functions, gains, offsets, states and controls as the TensorFlow sequential passes and as the independent optimum, for every admissible setting of the parallelism limit (one whose scan levels suffice for the horizon). The general form with cross costs and control references converts to the canonical form and back without changing the solution. The results do not depend on how the horizon is split and in what order, or how often, partial results are computed.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All horizons and dimensions, all parallelism limits (1 upwards), all bracketings and completion orders of the scan tasks including re-executed and duplicated ones, eager and graph execution.",
 "The tests use a few fixed models, the library's own bracketing and one parallelism limit (the horizon length); the scan's tasks always run once, in one order.",
 [PC+"lqt_tf.py"],
 [("batched associative combination", PC+"lqt_tf.py:combine_abcej, combine_fc"),
  ("associative scan with a level limit", PC+"lqt_tf.py:par_*_scan"),
  ("canonical-form conversion", PC+"lqt_tf.py:lqt_gen_to_canon, lqt_canon_to_gen")],
 observe="tensors returned by the public functions")

prop("C04", "Finite-state control: parallel dynamic programming equals exhaustive optimum",
 "For every finite-state, finite-control problem with finite costs, the parallel backward pass returns the same value functions as the sequential one and both equal the true minimal cost-to-go, and every reported control sequence and state trajectory from every initial state is consistent with the dynamics and attains that minimal total cost. The parallel forward-backward variants do so whenever the optimal path is unique. This holds in both the NumPy and the TensorFlow versions for every splitting, combination order, parallelism limit, worker crash with re-execution and duplicated partial result.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All transition tables (including unreachable and absorbing states), integer- or real-valued finite cost tables, horizons from one step, initial states; all bracketings and completion orders.",
 "The tests use two small hand-made tables and a random tracking model with the fixed tree of the built-in scan; single-step horizons, integer cost tables and other bracketings never occur.",
 [PC+"fsc_np.py", PC+"fsc_tf.py"],
 [("min-plus combination with arg-min bookkeeping", PC+"fsc_np.py:combine_V; fsc_tf.py:combine_V"),
  ("composition of closed-loop tables", PC+"fsc_np.py:combine_f"),
  ("argmin extraction", PC+"fsc_np.py:FSC.parBackwardPass_extract, parFwdBwdPass")],
 observe="value tables, control laws, controls and trajectories returned")

prop("C05", "Viterbi decoding: every variant returns a maximum-probability path",
 "For every hidden Markov model and observation sequence that has at least one path of positive probability, every sequential and parallel decoder (NumPy and TensorFlow) returns a state path whose probability is the maximum over all paths and the matching value functions; when the maximising path is unique all decoders return the same path. (The variants that read the path off the combined forward and backward messages need the maximising path to be unique, and the plain-probability reference decoder needs path probabilities that do not underflow.) This holds for every sequence length from one, for zero entries in the prior, transition and emission tables, and for every splitting and combination order of the parallel work, and decoding leaves the caller's data unchanged, also when the decoding is interrupted.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All models, lengths and observation sequences, including structural zeros and ties; all bracketings and completion orders, parallelism limits, interruption points.",
 "The tests decode one simulated Gilbert-Elliott style sequence per variant; length-one sequences, structural zeros, ties and other combination orders are not exercised.",
 [PC+"viterbi_np.py", PC+"viterbi_tf.py", PC+"fsc_np.py", PC+"fsc_tf.py"],
 [("reduction to time-reversed finite-state control", PC+"viterbi_np.py:Viterbi_np.getFSC, fscToViterbi; viterbi_tf.py:make_viterbi_fsc"),
  ("direct log-domain max-plus scan", PC+"viterbi_tf.py:viterbi_par_fwbw, viterbi_par_fwbwfw, viterbi_seqpar_fwbw")],
 observe="returned path and value functions")

prop("C06", "Partial condensing preserves the solution for every block length",
 "For every discrete-time linear quadratic tracking problem in the supported form and every block length (also one, the whole horizon, longer than the horizon, and one that does not divide it), solving the condensed problem with any of the sequential or parallel solvers and expanding the result gives the same controls and states as solving the original problem. This holds for any sequence of uses of one condenser as long as a result is expanded against the problem that was condensed last, in NumPy and TensorFlow, and for any schedule of the parallel solver.",
 ["inputs", "histories", "schedules"],
 "All problems, block lengths and dimensions (including outputs of lower dimension than the state), all sequences of condense/solve/expand on a shared condenser, all scan schedules.",
 "The tests condense one model with two or three dividing block lengths once; re-use of the condenser, remainders together with low-rank outputs, and other schedules are not reached.",
 [PC+"condensing_np.py", PC+"condensing_tf.py"],
 [("block construction and padding", PC+"condensing_np.py:LQTCondenser.condense; condensing_tf.py:condense"),
  ("expansion of condensed controls", PC+"condensing_np.py:LQTCondenser.convertUX; condensing_tf.py:convertUX")],
 state=[("remembered block matrices", "what expansion uses", PC+"condensing_np.py:LQTCondenser")],
 observe="controls and states after expansion")

prop("C07", "Continuous-time LQR/LQT: block-parallel solution equals the sequential one",
 "For every continuous-time linear quadratic regulation or tracking problem and every division of the horizon into blocks and steps, the block-parallel backward, forward and forward-backward passes (with every initialisation and extraction option, forward or backward value-function propagation, and with or without zero-order hold) agree with the sequential passes on the same grid up to the discretisation error, which vanishes at the order of the integrator as the grid is refined, and solve the stated optimal control problem. The agreement does not depend on the order in which block results are combined, nor on re-executing or duplicating a combination.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All problems with smooth coefficients and positive definite control cost, all block and step counts, start times, methods and options, all combination trees and completion orders, crashes of workers with re-execution.",
 "The tests check a few fixed grids on one or two models, with blocks always processed in ascending order by one worker and one combination tree.",
 [PC+"clqt_np.py", PC+"diffeq_np.py", PC+"lqt_np.py"],
 [("block ODE initialisation, scan, extraction", PC+"clqt_np.py:CLQT.parBackwardPass, CLQR.parBackwardPass"),
  ("forward scan and block interpolation", PC+"clqt_np.py:CLQT.parForwardPass, parFwdBwdPass"),
  ("combination of forward and backward value functions", PC+"clqt_np.py:combineForwardBackward")],
 observe="gains, offsets, value functions, controls and states returned")

prop("C08", "Continuous-time LQT on TensorFlow: block-parallel equals sequential",
 "For every continuous-time linear quadratic tracking problem and every division of the horizon into blocks and steps, the TensorFlow block-parallel backward, forward and forward-backward passes agree with the TensorFlow sequential passes and with the NumPy reference on the same grid up to the discretisation error, for every start time, propagation direction, hold option and parallelism limit. The results do not depend on the order in which block results are combined, nor on re-executed or duplicated combinations.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All problems, block/step counts, start times, options, parallelism limits and combination orders.",
 "The tests use one model, a few grids and the library's own combination tree.",
 [PC+"clqt_tf.py", PC+"diffeq_tf.py"],
 [("vectorised block integration", PC+"clqt_tf.py:clqt_par_backwardpass_init, extract"),
  ("associative scan", PC+"clqt_tf.py:clqt_par_backwardpass, clqt_par_forwardpass, clqt_par_fwdbwdpass")],
 observe="tensors returned")

prop("C09", "Parareal solvers converge to the fine sequential solution and self-heal",
 "For every continuous-time linear quadratic tracking problem, after as many iterations as there are blocks (the default) the parareal backward, forward and forward-backward passes equal the fine sequential solution at every grid point, and after k iterations the k blocks nearest the start of the propagation already do. The result of an iteration does not depend on the order in which blocks are processed. If block results are lost, replaced by stale ones or damaged in some iterations, the iteration still reaches the fine sequential solution within one fault-free iteration per block plus one.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "All problems, block and step counts, iteration counts, block processing orders, and all finite sequences of lost, stale or damaged block results followed by fault-free iterations.",
 "The tests run fixed grids to convergence in fixed order without faults; the finite-termination guarantee per block and recovery from a lost block result are not tested.",
 [PC+"parareal_clqt_np.py", PC+"parareal_clqt_tf.py"],
 [("fine/coarse correction update", PC+"parareal_clqt_np.py:Parareal_CLQT_np.*Pass"),
  ("vectorised fine propagation and coarse sweep", PC+"parareal_clqt_tf.py:pclqt_*")],
 observe="value functions, gains, states and controls returned",
 hook="no hook in the shipped code: the block-level methods (dense, coarse) are the seam")

prop("C10", "Iterated nonlinear LQT: each parallel iterate equals the sequential one",
 "For every smooth nonlinear model and every current trajectory, one solver iteration by any of the parallel methods produces the same new controls and states as the sequential method, which are those of the exact linear quadratic subproblem around that trajectory, in NumPy and TensorFlow. Any history of iterations, also one with failed or interrupted iterations in between and with methods mixed, continues as if the failed ones had not been attempted, and repeated iterations that converge end in a trajectory that satisfies the nonlinear dynamics.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All models and trajectories, all sequences of iterations with any method, all interruption points inside an iteration, all scan schedules.",
 "The tests iterate one pendulum-like model a fixed number of times per method without interruptions and with one schedule.",
 [PC+"nlqt_np.py", PC+"nlqt_tf.py"],
 [("linearisation written into the working problem", PC+"nlqt_np.py:NLQT.linearize"),
  ("method dispatch", PC+"nlqt_np.py:NLQT.iterate; nlqt_tf.py:nlqt_iterate_seq, nlqt_iterate_par_1, nlqt_iterate_par_2")],
 state=[("working problem", "overwritten by each linearisation", PC+"nlqt_np.py:NLQT.lqt")],
 observe="returned controls and states")

prop("C11", "Grid HJB: min-plus block combination is independent of the schedule",
 "For every family of block cost-to-go tables on a grid, combining them in parallel gives the same value functions as combining them sequentially from the end, and both equal the minimum over all grid paths; the interpolating variant does the same whenever the interpolation is exact. This holds in the NumPy and TensorFlow versions for every number of blocks, every bracketing and execution order and every admissible parallelism limit (one whose scan levels suffice for the number of blocks), with re-executed or duplicated combinations.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "All block tables (finite values), grids and block counts from one, all combination trees and execution orders, parallelism limits.",
 "The tests evaluate one or two example models on one grid with the built-in tree and loose accuracy bounds; the TensorFlow tests are not even run.",
 [PC+"hjb_grid_1d_np.py", PC+"hjb_grid_1d_tf.py"],
 [("min-plus combination", PC+"hjb_grid_1d_np.py:combine_V, combine_V2; hjb_grid_1d_tf.py:combine_V"),
  ("three-point interpolated minimum", PC+"hjb_grid_1d_np.py:combine_V_interp; hjb_grid_1d_tf.py:combine_V_interp")],
 observe="value-function tables returned")

prop("C12", "Concurrent solver calls do not affect each other or their inputs",
 "Any number of concurrent calls of the solving and simulation methods, on the same problem object or on objects that share data, return exactly what each would return when run alone, under every interleaving of the callers. No call modifies the problem data, gains, value functions, trajectories or any other argument handed to it, and results already returned are not changed by later calls.",
 ["schedules", "histories", "inputs"],
 "All interleavings of the statements of two or more caller threads over all public solver entry points that do not document themselves as storing state, all orders and combinations of calls, all problems.",
 "Every test is single-threaded and most build a fresh object per call; none compares the inputs before and after, and none holds on to earlier results.",
 [PC+"lqt_np.py", PC+"fsc_np.py", PC+"viterbi_np.py", PC+"clqt_np.py", PC+"condensing_np.py", PC+"parareal_clqt_np.py", PC+"nlqt_np.py", PC+"my_assoc_scan.py"],
 [("no writes to attributes or arguments during solving", "all *Pass methods"),
  ("local working copies", PC+"my_assoc_scan.py; viterbi_np.py:fscToViterbi")],
 observe="return values of each caller; arguments and object attributes before and after")

prop("C13", "An interrupted or failed solver call leaves everything reusable",
 "When a solver call is aborted at any point by an interrupt, memory exhaustion or a failing linear-algebra kernel, the error reaches the caller, the problem data and all arguments are as they were before the call, and repeating the call on the same objects gives the same result as if the abort had never happened.",
 ["crash_points", "fault_sequences", "inputs", "histories"],
 "All statement boundaries inside the library and all linear-algebra calls as abort points, all public solver entry points, sequences of several aborted calls.",
 "No test aborts a call; an abort between two statements that temporarily change shared data is a history unit tests never produce.",
 [PC+"lqt_np.py", PC+"fsc_np.py", PC+"viterbi_np.py", PC+"clqt_np.py", PC+"condensing_np.py", PC+"parareal_clqt_np.py", PC+"nlqt_np.py", PC+"my_assoc_scan.py"],
 [("problem data is never temporarily modified", "all *Pass methods"),
  ("working copies", PC+"viterbi_np.py:fscToViterbi; my_assoc_scan.py")],
 observe="exception seen by the caller; arguments and attributes afterwards; result of the repeated call")

prop("C14", "Simulated data depends on the seed alone and leaves global randomness alone",
 "Model data generated for a given seed and size is the same in every process and call history, whatever other random numbers the program draws before, during or concurrently with the generation. Generating it does not change the random numbers that the rest of the program obtains from the global generator.",
 ["schedules", "histories", "configurations"],
 "All interleavings of generation with other users of randomness (including two generators in different threads), all orders of generator calls, hash seeds and seeds.",
 "The tests call each generator once with its default seed, alone in the process.",
 [PC+"ge_model_np.py", PC+"linear_model_np.py", PC+"finite_model_np.py", PC+"mass_model_np.py"],
 [("seeded generator created per call", PC+"ge_model_np.py:GEModel.genData; linear_model_np.py:LinearModel.genData; finite_model_np.py:FiniteModel.genData")],
 observe="generated arrays; state of the global generator before and after")

prop("C15", "Benchmark timings are per-solve means that exclude warm-up and clock steps",
 "Each benchmark routine reports, for every problem size in order, the elapsed solving time divided by the number of measured solves, excluding the first compilation run and the generation of the problem. The reported time is that of a clock that never steps backwards, so adjustments of the wall clock during the measurement do not change it, and it is never negative.",
 ["fault_sequences", "configurations", "inputs"],
 "All durations of the individual solves (warm-up much slower, stalls), iteration counts and problem-size sequences, all wall-clock jumps forwards and backwards at any instant.",
 "Durations are real and unasserted in the tests (the ones for some benchmarks are not even run), and no test can make the wall clock jump.",
 [PC+"linear_speedtest.py", PC+"finite_speedtest.py", PC+"nonlinear_speedtest.py", PC+"contlin_speedtest.py", PC+"hjb_grid_1d_speedtest.py", PC+"viterbi_tf.py"],
 [("warm-up call before the timed loop; mean over iterations", "every *_speedtest function")],
 observe="returned sizes and run times under a simulated clock")

prop("C16", "A crashed experiment run keeps every result that was already completed",
 "Each experiment script runs exactly the methods selected by its mask, with the requested settings and problem sizes; invalid arguments are rejected before anything is run. The six scripts with one result file per method store the complete rows of each finished method, one row per problem size with the reported times and errors, in that method's own file before the next method starts. If the process dies, a method fails or a file operation fails at any point, the files of all methods finished before (in this or an earlier process) remain complete and correct, and files of methods that were not selected are not touched. The two text scripts, which store one file at the end, leave there one correct row per selected method and touch no other results.",
 ["crash_points", "fault_sequences", "configurations"],
 "All masks and parameter settings, all crash points between and inside methods and file operations, full disks and I/O errors, pre-existing result files.",
 "The scripts have no tests at all.",
 ["experiments-bellman/run_linear_experiments.py", "experiments-bellman/run_finite_experiments.py", "experiments-bellman/run_nonlinear_experiments.py",
  "experiments-hjb/run_contlin_experiments.py", "experiments-hjb/run_nonlin_experiments.py",
  "experiments-viterbi/run_viterbi_experiments.py", "experiments-viterbi/run_text_experiments.py", "experiments-viterbi/run_text_experiments_2.py"],
 [("write after each method", "experiments-*/run_*.py:main"), ("one file per method, closed on leaving the block", "experiments-*/run_*.py:write_to_file")],
 observe="contents of the result directory after a simulated crash")

prop("C17", "Numerical building blocks have their textbook accuracy",
 "The linear discretisation, the fixed-step integrator, the quadratic-programming and quasi-Newton solvers and the example models compute what their textbook definitions say, to the documented order of accuracy.",
 ["inputs"],
 "All inputs of each function.",
 "The tests sample a few inputs per function.",
 [PC+"disc.py", PC+"diffeq_np.py", PC+"diffeq_tf.py", PC+"sqp_np.py", PC+"sqp_tf.py", PC+"nonlinear_model_np.py", PC+"nonlinear_model_tf.py", PC+"cnonlin_models_np.py", PC+"cnonlin_models_tf.py", PC+"text_model.py", PC+"linear_model_np.py", PC+"mass_model_np.py"],
 [("closed-form or fixed-iteration computations without state", PC+"disc.py, diffeq_*.py, sqp_*.py")],
 observe="return values")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

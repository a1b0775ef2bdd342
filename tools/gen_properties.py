#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe or ["public API return values and the solver's info/solution/settings structures"],
            hook_needed=hook)))

API="src/osqp_api.c"; AUX="src/auxil.c"
prop("C01","Setup accepts exactly the valid problems and settings",
 "osqp_setup returns 0 for every well-formed problem (n>0, m>=0, P square n-by-n and given by its upper triangle, A m-by-n, l<=u elementwise) with settings inside their documented ranges. A malformed problem returns the data-validation code, an out-of-range or missing settings structure returns the settings-validation code, and neither rejection crashes or leaves memory behind. The boundary of every documented range is on the documented side (for example alpha strictly inside (0,2), eps_abs and eps_rel not both zero, polish_refine_iter = 0 and check_termination = 0 allowed).",
 ["inputs","configurations"],"every problem shape / bound pair and every combination of setting values on, just inside and just outside each range boundary",
 "the unit tests try one bad value per setting; they do not enumerate both sides of each boundary nor combinations with valid neighbours",
 [AUX,API,"src/error.c"],[("validate_data / validate_settings",AUX),("early returns of osqp_setup",API)])
prop("C02","A solved verdict is backed by the optimality criteria",
 "Whenever osqp_solve reports 'solved', the returned x and y, together with some z inside [l,u], satisfy on the user's own current data the primal-residual, dual-residual and (when check_dualgap is on) duality-gap tests with tolerances eps_abs + eps_rel*max(norms); 'solved inaccurate' means the same with both tolerances multiplied by 10. With scaled_termination off this is measured in the user's units whatever the scaling; the verdict is never left over from an earlier solve.",
 ["inputs","configurations","histories"],"all problems, all tolerance/scaling/check settings and all histories of earlier solves and updates on the same solver",
 "tests compare a handful of optimal values with fixed tolerances; they never recompute the criteria, and a stale or one-sided check passes them",
 [AUX,API],[("check_termination, compute_*_tol, compute_*_res",AUX),("final exact/approximate check after the loop",API)],
 [("info.status_val","verdict","include/public/osqp_api_types.h")])
prop("C03","Infeasibility verdicts carry valid certificates",
 "Whenever a solve reports primal (dual) infeasible, the returned primal (dual) infeasibility certificate is a vector of infinity norm 1 that satisfies the documented certificate conditions on the user's data within eps_prim_inf (eps_dual_inf; 10 times that for the inaccurate verdicts; measured in scaled units only if scaled_termination is on), one-sided infinite bounds being respected. The objective is then reported as +infinity (-infinity), and a problem with a bounded optimal solution and comfortable tolerances is never declared infeasible.",
 ["inputs","configurations","histories"],"all infeasible and feasible problems, bound patterns (finite, one-sided, free, equality), scalings and histories",
 "tests have three fixed infeasible problems and mostly compare the status only",
 [AUX,"algebra/mkl/vector.c"],[("is_primal_infeasible, is_dual_infeasible",AUX),("certificate unscaling and normalisation",AUX)])
prop("C04","Reported info describes the returned point",
 "After a solve that returns a solution, obj_val, dual_obj_val, duality_gap, prim_res, dual_res and rel_kkt_error are the values of those quantities for the returned x and y on the user's data (residuals in scaled units only if scaled_termination is on), duality_gap = obj_val - dual_obj_val, and rel_kkt_error is the largest of the two residuals and |duality_gap|. The status string always matches status_val and iter is the number of iterations that produced the point.",
 ["inputs","configurations","histories"],"all ways a solve can end (solved, inaccurate, iteration limit, time limit, polished or not)",
 "tests check obj_val on a few solved problems; the other fields and the non-solved endings are never recomputed",
 [AUX,API,"src/polish.c"],[("update_info, compute_obj_val_dual_gap",AUX),("post-loop info refresh",API)])
prop("C05","Termination happens exactly on schedule",
 "A solve stops at the first iteration that is a multiple of check_termination and satisfies a termination criterion; with check_termination = 0 criteria are examined only once max_iter iterations have run. It never performs more than max_iter iterations; when max_iter is reached the exact criteria, then the 10-times-relaxed criteria, are tried before 'maximum iterations reached' is reported, and iter is the number of iterations performed in this solve.",
 ["inputs","configurations","histories"],"all check_termination / max_iter pairs, including max_iter not a multiple of the interval, max_iter smaller than the interval, and repeated solves",
 "tests use the default interval and two max_iter values",
 [API,AUX],[("main ADMM loop and post-loop checks of osqp_solve",API),("check_termination",AUX)])
prop("C06","Iterates follow the documented ADMM recursion",
 "Starting from given x and y (z = Ax, or all zero when cold), the point returned after k iterations is the k-th iterate of the documented over-relaxed ADMM with parameters sigma, alpha and rho, where equality constraints use 1000*rho, constraints with two infinite bounds use the minimum rho, all others use rho, and a scalar rho is used for all of them when rho_is_vec = 0. rho is confined to [1e-6, 1e6].",
 ["inputs","configurations","histories"],"all convex problems, starting points, iteration counts, and sigma/alpha/rho/rho_is_vec settings",
 "tests only look at converged answers, which hide a wrong relaxation, step size or sigma because ADMM still converges",
 [AUX,API,"algebra/_common/kkt.c","algebra/mkl/lin_sys/direct/pardiso_interface.c","algebra/mkl/vector.c"],
 [("update_xz_tilde/update_x/update_z/update_y, set_rho_vec",AUX),("form_KKT","algebra/_common/kkt.c"),("solve_linsys_pardiso","algebra/mkl/lin_sys/direct/pardiso_interface.c")])
prop("C07","Step size adapts only when and how it is documented to",
 "rho changes during a solve only if adaptive_rho is enabled, only at multiples of the adaptation interval (0 means the documented automatic choice), and only if the balanced-residual estimate differs from the current rho by more than a factor adaptive_rho_tolerance; then it becomes exactly that estimate clipped to [1e-6, 1e6] and rho_updates counts it. The solver keeps the adapted value as its rho setting, an explicit osqp_update_rho(r) makes the following solve behave like a solver set up with rho = r, and non-positive r is rejected without effect.",
 ["inputs","configurations","histories"],"all adaptation modes, intervals, tolerances, fractions and residual histories",
 "tests check that rho updates do not increase iteration counts much and that an updated rho gives the same iteration count on one problem",
 [AUX,API],[("compute_rho_estimate, adapt_rho",AUX),("adaptation schedule in osqp_solve, osqp_update_rho",API)])
prop("C08","Vector updates equal a fresh problem; rejected ones change nothing",
 "After osqp_update_data_vec succeeds (any subset of q, l, u), the solver behaves as if it held the new problem: the next solve returns what the unchanged iterates on a solver for the new data would give, including the constraint-type dependent step sizes. If the resulting bounds would cross (up to rounding of the stored data), it returns a nonzero code and data, status, iterates, solution and certificates are exactly as before.",
 ["inputs","histories"],"all sequences of vector updates (subsets, type-changing bounds, infinite bounds, rejected ones) interleaved with solves",
 "tests update once per vector and compare the optimum; they do not interleave, change constraint types, or look after a rejected update",
 [API,AUX],[("osqp_update_data_vec",API),("update_rho_vec",AUX)])
prop("C09","Matrix updates equal a fresh problem with the new matrices",
 "After osqp_update_data_mat succeeds with full or indexed new values for P and/or A, the solver behaves as if it held the updated matrices with everything else unchanged, whatever scaling, sigma and sparsity pattern (missing or off-diagonal entries of P included). Element counts out of range, or partial updates without an index vector, are rejected with a nonzero code and no effect.",
 ["inputs","histories","configurations"],"all partial/full update sequences over all sparsity patterns of P and A and all settings",
 "tests update one fixed pattern with the default tiny sigma, under which a wrong diagonal regularisation is invisible",
 [API,"algebra/_common/kkt.c","src/scaling.c","algebra/mkl/matrix.c"],[("osqp_update_data_mat",API),("update_KKT_P, update_KKT_A, PtoKKT maps","algebra/_common/kkt.c"),("scale_data/unscale_data","src/scaling.c")])
prop("C10","Settings updates are validated, all-or-nothing and confined",
 "osqp_update_settings with valid settings changes exactly the run-time settings (verbosity, warm starting, polishing, alpha, CG parameters, iteration/tolerance/termination/time settings, delta, refinement steps, profiler level), which take effect from the next solve, and leaves the setup-time ones (device, linear solver, allocation, scaling, rho, rho_is_vec, sigma, adaptive-rho options) as they were. If any updatable value is out of range it returns the settings-validation code and changes nothing.",
 ["inputs","configurations","histories"],"all pairs of old and new settings, at every point of a solver's life",
 "tests update a few fields and check a few fields",
 [API,AUX],[("osqp_update_settings",API),("validate_settings",AUX)])
prop("C11","Warm and cold starting are exact",
 "osqp_warm_start(x,y) makes the next solve start from exactly those values in the user's units (z = Ax; a missing vector leaves that part as it is) and switches warm starting on; osqp_cold_start, or warm_starting = 0, makes the solve start from zero; with warm_starting = 1 a solve continues from where the previous one stopped. After an infeasible or non-convex verdict the next solve starts from zero.",
 ["inputs","histories","configurations"],"all starting points, scalings and sequences of starts, solves and updates",
 "tests only check that warm starting at the optimum needs fewer iterations",
 [API,AUX],[("osqp_warm_start, osqp_cold_start",API),("store_solution reset",AUX)])
prop("C12","Data scaling is invisible to the user",
 "For every number of scaling iterations the solver accepts data, bounds, warm starts and updates in the user's units and returns solutions, duals, certificates, objectives and residuals in the user's units; the scaled solver is the documented equilibrated problem (variables and constraints scaled by powers of inverse square roots of column norms limited to [1e-4,1e4], cost normalised) and repeated matrix updates do not make the scaled problem drift from the user's problem.",
 ["inputs","configurations","histories"],"badly scaled data, zero rows/columns, all scaling counts and update histories",
 "tests run a couple of problems with scaling on and off and compare the optimum loosely",
 ["src/scaling.c",AUX,API],[("scale_data, unscale_data, unscale_solution","src/scaling.c"),("unscaled norms in the termination tests",AUX)])
prop("C13","Polishing never worsens the answer and reports truthfully",
 "Polishing runs only after a 'solved' verdict; status_polish is 'success' exactly when the returned point is the polished one, whose residuals are both smaller than the unpolished ones (a residual below 1e-10 counts as zero), and on every other polish outcome the unpolished point and its info are returned unchanged. The polished point solves the equality-constrained problem on the constraints judged active, has multipliers of the right sign for its bounds, and a solve without polishing reports 'not performed'.",
 ["inputs","configurations","histories"],"all problems, active-set guesses (right, wrong, empty), delta and refinement counts, repeated solves with polishing toggled",
 "tests polish three small problems where it succeeds",
 ["src/polish.c",API],[("polish, form_Ared, iterative_refinement","src/polish.c")])
prop("C14","The time limit is honoured exactly",
 "A solve stops at the first iteration after which the elapsed time (setup plus solve on the first solve, update plus solve afterwards) has reached time_limit, reports 'run time limit reached' unless the exact or relaxed criteria hold at that point, and returns that iteration's point with matching info. A limit that is not reached has no influence on the result.",
 ["schedules","inputs","histories"],"all timings of iterations, setup and updates relative to the limit",
 "tests can only set a tiny limit and wait for the wall clock",
 [API,"src/timing_linux.c"],[("time check in osqp_solve",API)])
prop("C15","Interrupts stop the solve cleanly and restore the handler",
 "A SIGINT delivered at any moment of a solve's iterations makes that solve stop at the end of the current iteration with status 'interrupted' and a nonzero return; without one (or with one that arrives after the iterations, while polishing), a solve is never reported as interrupted, even if earlier ones were. On every way out of osqp_solve the caller's SIGINT disposition is back in force, and the solver can be updated, re-solved and cleaned up afterwards with correct results.",
 ["schedules","fault_sequences","histories"],"all iterations at which the signal can arrive and all ways a solve can end",
 "no test sends a signal",
 ["src/interrupt_unix.c",API],[("interrupt listener","src/interrupt_unix.c"),("interrupt check and exit path in osqp_solve",API)])
prop("C16","Timing fields account for each phase once",
 "setup_time, update_time, solve_time and polish_time are the durations of the setup, of all updates since the previous completed solve, of this solve's iterations and of this solve's polishing; run_time is setup + solve + polish for the first completed solve and update + solve + polish for later ones. A phase that did not occur counts zero, and no phase leaks into a later solve's accounting.",
 ["schedules","histories"],"all sequences of updates, solves (polished, interrupted, limited) and all phase durations",
 "wall-clock times are not controllable in the tests, which check at most that they are non-negative",
 [API,AUX,"src/timing_linux.c"],[("first_run / clear_update_time / rho_update_from_solve bookkeeping",API),("reset_info",AUX)])
prop("C17","Solvers are deterministic and isolated",
 "osqp_setup and the update/warm-start calls copy what they are given: they never modify the caller's arrays, and later changes to (or freeing of) those arrays or of the settings structure do not influence the solver. Two solvers used in any interleaving behave exactly as if each were used alone, and the same call history always gives identical results.",
 ["histories","inputs"],"all interleavings of API calls on several live solvers and all later modifications of caller memory",
 "tests use one solver at a time and keep the input alive and unmodified",
 [API,"algebra/mkl/matrix.c","algebra/mkl/vector.c","src/util.c"],[("copies in osqp_setup",API),("copy_settings","src/util.c")])
prop("C18","Every resource is released and allocation failures are survived",
 "After osqp_cleanup every byte the library allocated for that solver has been freed, exactly once, whatever history preceded it, including rejected updates, failed setups, infeasible verdicts and polishing. If any single memory allocation inside a library call fails, the call returns a nonzero code (or keeps working) without crashing, and osqp_cleanup (the only call allowed after a failed setup) still succeeds.",
 ["fault_sequences","histories"],"every allocation index of setup, solve/polish, updates and helper constructors, and all call histories",
 "tests never make an allocation fail and do not track leaks",
 [API,"src/polish.c","algebra/mkl/vector.c","algebra/mkl/matrix.c","algebra/mkl/lin_sys/direct/pardiso_interface.c","algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],[("osqp_cleanup and error paths",API)])
prop("C19","Calls on missing or unsupported objects fail safely",
 "Every API call given a NULL solver returns the workspace-not-initialised code (osqp_cleanup returns 0, dimensions are reported as -1) without crashing, and functions this build does not support return the not-implemented code. Capabilities, version, error messages (for any integer), problem dimensions and default settings are always truthful, and the default settings are accepted by setup.",
 ["inputs","histories"],"all API entry points, all error codes and all solver states",
 "tests check a few uninitialised calls and some messages",
 [API,"src/error.c"],[("workspace checks at API entry",API)])
prop("C20","Solution storage follows the verdict",
 "After a solve with a solution, x and y are stored and both certificate vectors hold the library's not-a-number marker; after an infeasible verdict x, y and the other certificate hold the marker; after a non-convex verdict all four do (an interrupted solve stores nothing). Directly after a solve osqp_get_solution writes into caller memory exactly what the solver's own solution holds; it may be called any number of times without changing later behaviour, and works when allocate_solution = 0.",
 ["histories","inputs","configurations"],"all verdicts and all sequences of solves and retrievals",
 "tests look at x and y of solved problems only",
 [AUX,API],[("store_solution, has_solution",AUX),("osqp_get_solution",API)])
prop("C21","The indirect linear solver gives the same answers as the direct one",
 "Choosing the indirect linear-system solver changes neither verdicts' validity nor the solution beyond the requested tolerances: it satisfies the same optimality criteria and certificate conditions, for every supported setting (scalar or vector rho, preconditioner, polishing, scaling) and after every kind of update. Each of its linear systems (current matrices, current rho) is iterated until the residual is below the tolerance the cg settings prescribe, no further, and never beyond cg_max_iter; the preconditioner used is the one configured, of the current matrix; changed cg settings take effect at the next solve.",
 ["inputs","configurations","histories"],"all problems, CG settings and update histories",
 "tests run the indirect solver on the standard small problems with mostly default options",
 ["algebra/mkl/lin_sys/indirect/mkl-cg_interface.c","algebra/_common/reduced_kkt.c"],[("solve_linsys_mklcg, update_rho_linsys_mklcg","algebra/mkl/lin_sys/indirect/mkl-cg_interface.c")])
prop("C22","Console output is silent when off and truthful when on",
 "With verbose = 0 a successful call prints nothing. With verbose = 1 setup prints a header describing the problem and the settings in use, and a solve prints one line for iteration 1, for every multiple of 200, for every iteration at which rho was changed (marked), and for the last iteration, each iteration at most once and in increasing order, with that iteration's objective, residuals, gap, rho and elapsed time (cumulative since setup on the first solve, of this solve afterwards), and a footer whose status, polish outcome, iteration count and objective are those in info; a verbose solve computes the same result as a silent one.",
 ["inputs","configurations","histories"],"all verdicts, iteration counts, adaptation schedules and check intervals",
 "tests never look at the output",
 ["src/util.c",API,"include/private/printing.h"],[("print_summary, print_footer, print_setup_header","src/util.c")])
prop("C23","Non-convexity is reported, never answered with a solution",
 "If P + sigma*I is clearly indefinite on the unconstrained directions so that the direct solver's initial factorisation has the wrong inertia, osqp_setup returns the non-convex code and the partially built solver can be cleaned up; if residuals exceed 1e30 during a solve the status is 'problem non convex' and no solution is stored. A convex problem (P positive semidefinite, singular included) is never reported non-convex at setup.",
 ["inputs","configurations"],"all symmetric P (definite, singular, indefinite), sigma values and sparsity patterns",
 "tests have one non-convex problem",
 ["algebra/mkl/lin_sys/direct/pardiso_interface.c",AUX,API],[("inertia check after factorisation","algebra/mkl/lin_sys/direct/pardiso_interface.c"),("divergence check in check_termination",AUX)])
prop("C24","CSC matrix helpers build exactly what they describe",
 "The matrix constructors (new / set_data / zeros / identity / scaled and vector diagonal) produce, for all dimensions including tall, wide and empty ones, a structurally valid compressed-column matrix with exactly the documented entries; freeing releases what the library allocated and never the caller's arrays. Such matrices are accepted by setup and mean what they describe.",
 ["inputs"],"all dimensions and values",
 "tests construct a few fixed sizes",
 [API],[("OSQPCscMatrix_* helpers",API)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

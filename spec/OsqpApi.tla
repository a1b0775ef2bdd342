------------------------------ MODULE OsqpApi ------------------------------
(* What the API calls do to the status, the times and the "has anything happened since the last solve" knowledge of a
   solver, free of numbers (times are combined by the caller).  Shared by OsqpTrace (recorded executions) and OsqpControl
   (everything enumerated).

   s: a solver record with at least  first (no solve has completed), clr (the next update or solve starts a new account of
   update times), upT (update time), seT (setup time), status, fresh (nothing happened since the last completed solve),
   polished, vst (settings the last solve ran with), st (settings)  *)
EXTENDS Integers

\* status values, error codes, polish outcomes (include/public/osqp_api_constants.h)
StSolved == 1  StSolvedInac == 2  StPinf == 3  StPinfInac == 4  StDinf == 5  StDinfInac == 6
StMaxIter == 7  StTime == 8  StNonCvx == 9  StSigint == 10  StUnsolved == 11
StatusText == <<"solved", "solved inaccurate", "primal infeasible", "primal infeasible inaccurate", "dual infeasible",
  "dual infeasible inaccurate", "maximum iterations reached", "run time limit reached", "problem non convex",
  "interrupted", "unsolved">>
ErrData == 1  ErrSettings == 2  ErrLinsys == 3  ErrNonCvx == 4  ErrMem == 5  ErrNotInit == 6  ErrAlgebra == 7  ErrNotImpl == 11
PolLinsys == -2  PolFailed == -1  PolNone == 0  PolOk == 1  PolNoActive == 2
HasSol(st) == st \notin {StPinf, StPinfInac, StDinf, StDinfInac, StNonCvx}
VerdictStatus(v, inac) == CASE v = "solved" -> IF inac THEN StSolvedInac ELSE StSolved
                            [] v = "pinf"   -> IF inac THEN StPinfInac ELSE StPinf
                            [] v = "dinf"   -> IF inac THEN StDinfInac ELSE StDinf
                            [] v = "ncvx"   -> StNonCvx
EndStatus(word, inac) == CASE word = "unsolved" -> StUnsolved [] word = "time" -> StTime [] word = "maxiter" -> StMaxIter
                           [] word = "sigint" -> StSigint [] OTHER -> VerdictStatus(word, inac)

\* an update, accepted or refused, opens a new account of update times after a completed solve
ClearUp(s, zero) == IF s.clr THEN [s EXCEPT !.clr = FALSE, !.upT = zero] ELSE s
\* an accepted update of vectors or matrices (s: after ClearUp; t: the new update time)
DataAccepted(s, t) == [s EXCEPT !.upT = t, !.status = StUnsolved, !.fresh = FALSE, !.polished = FALSE]
RhoAccepted(s, t) == [s EXCEPT !.upT = t]
Started(s) == [s EXCEPT !.fresh = FALSE]                       \* warm or cold start
SolveBegins(s, zero) == [s EXCEPT !.upT = IF s.clr THEN zero ELSE @, !.status = StUnsolved, !.polished = FALSE, !.fresh = FALSE]
SolveEnds(s, st, pol) == [s EXCEPT !.status = st, !.first = FALSE, !.clr = TRUE, !.polished = pol = PolOk, !.fresh = TRUE, !.vst = s.st]
SolveInterrupted(s) == [s EXCEPT !.status = StSigint]
\* the time that counts towards the limit and the run time in addition to that of the solve
TimeBase(s) == IF s.first THEN s.seT ELSE s.upT
\* which vectors a completed solve stores
StoredKind(st) == CASE st = StNonCvx -> "none" [] st \in {StPinf, StPinfInac} -> "pcert" [] st \in {StDinf, StDinfInac} -> "dcert" [] OTHER -> "point"
=============================================================================

------------------------------ MODULE OsqpLoop ------------------------------
(* The control structure of osqp_solve, free of numbers: which iteration examines which criterion, when the step size
   may change, what is printed, how a solve ends.  Shared by OsqpControl (where the outcomes of the numerical tests, the
   clock and the signals are chosen nondeterministically and everything is enumerated) and by OsqpTrace (where they are
   computed from the data, and the result is compared with recorded executions of the library).

   S  : [max_iter, check_termination, verbose, adaptive_rho, polishing]   (settings that matter here)
   cr : the control record of a solve in flight
   o  : outcomes of iteration k = cr.k + 1:  sig (SIGINT arrived during it), late (time limit reached after it),
        frac (time-based adaptation: enough time has passed), v (exact verdict), kkt (KKT error small enough to adapt),
        rho (estimate outside of the tolerance)  *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
RoundMultiple(k, q) == ((k + q \div 2) \div q) * q          \* k rounded to the closest multiple of q
PrintEvery == 200
\* adaptation modes
AdOff == 0  AdIter == 1  AdTime == 2  AdKkt == 3
InitInterval(mode, interval, ct) ==                          \* the automatic interval chosen at setup
  IF interval # 0 THEN interval
  ELSE IF mode = AdIter THEN (IF ct > 0 THEN 4 * ct ELSE 100) ELSE IF mode = AdKkt THEN 1 ELSE 0

CrInit(interval) ==
  [k |-> 0, phase |-> "iter", status |-> "unsolved", inac |-> FALSE, interval |-> interval, checked |-> FALSE, canprint |-> FALSE,
   summary |-> FALSE, infoIter |-> 0, rhoUpdates |-> 0, rhoMark |-> FALSE, lines |-> <<>>, ret |-> 0]

\* ---- what iteration k looks at
Checks(S, k)        == S.check_termination > 0 /\ k % S.check_termination = 0
Prints(S, k)        == S.verbose /\ (k % PrintEvery = 0 \/ k = 1)
NextInterval(S, interval, k, frac) ==
  IF S.adaptive_rho = AdTime /\ interval = 0 /\ frac
  THEN Max(1, Max(RoundMultiple(k, IF S.check_termination > 0 THEN S.check_termination ELSE 25), S.check_termination))
  ELSE interval
Adapts(S, interval, k) == S.adaptive_rho # AdOff /\ interval > 0 /\ k % interval = 0
Updates(S, interval, k) == Checks(S, k) \/ Prints(S, k) \/ Adapts(S, interval, k) \/ k = 1

\* ---- one iteration
LoopIter(S, cr, o) ==
  LET k   == cr.k + 1
      iv  == NextInterval(S, cr.interval, k, o.frac)
      ck  == Checks(S, k)
      pr  == Prints(S, k)
      up  == Updates(S, iv, k)
      ad  == Adapts(S, iv, k) /\ (S.adaptive_rho = AdKkt => o.kkt)
      ch  == ad /\ o.rho
      line == pr \/ (S.verbose /\ ch)
  IN IF o.sig THEN [cr EXCEPT !.k = k, !.phase = "abort", !.status = "sigint", !.ret = 1]
     ELSE IF o.late THEN [cr EXCEPT !.k = k, !.phase = "post", !.status = "time", !.checked = FALSE, !.canprint = FALSE,
                               !.rhoMark = FALSE]
     ELSE IF ck /\ o.v # "none"
          THEN [cr EXCEPT !.k = k, !.phase = "post", !.status = o.v, !.checked = TRUE, !.canprint = pr, !.interval = iv,
                          !.infoIter = k, !.summary = FALSE, !.rhoMark = FALSE]
     ELSE [cr EXCEPT !.k = k, !.interval = iv, !.checked = ck, !.canprint = line,
                     !.infoIter = IF up THEN k ELSE @,
                     !.rhoUpdates = @ + (IF ch THEN 1 ELSE 0), !.rhoMark = ch,
                     !.lines = IF line THEN Append(@, <<k, ch>>) ELSE @,
                     !.summary = IF line THEN TRUE ELSE IF up THEN FALSE ELSE @,
                     !.phase = IF k = S.max_iter THEN "post" ELSE "iter"]

\* ---- after the loop: the exact criteria if the last iteration did not examine them, then the relaxed ones
PostNeedsExact(cr) == cr.phase = "post" /\ ~cr.checked
PostExact(S, cr, v) ==
  LET fresh == ~cr.canprint                                    \* the info does not describe the last iteration yet
      sum0  == IF fresh THEN FALSE ELSE cr.summary
      line  == S.verbose /\ ~sum0
  IN [cr EXCEPT !.infoIter = IF fresh THEN cr.k ELSE @,
                !.lines = IF line THEN Append(@, <<cr.k, cr.rhoMark>>) ELSE @, !.summary = sum0 \/ line,
                !.status = IF v # "none" THEN v ELSE @, !.checked = TRUE]
PostNeedsApprox(cr) == cr.phase = "post" /\ cr.checked /\ cr.status \in {"unsolved", "time"}
PostPrint(S, cr) ==                                            \* the last iteration is always printed
  IF S.verbose /\ ~cr.summary THEN [cr EXCEPT !.lines = Append(@, <<cr.k, cr.rhoMark>>), !.summary = TRUE] ELSE cr
PostApprox(cr, v) ==
  IF v # "none" THEN [cr EXCEPT !.status = v, !.inac = TRUE]
  ELSE [cr EXCEPT !.status = IF @ = "time" THEN "time" ELSE "maxiter"]
Finish(cr) == [cr EXCEPT !.phase = "done"]
Polishes(S, cr) == S.polishing /\ cr.status = "solved" /\ ~cr.inac
=============================================================================

------------------------------ MODULE OsqpHist ------------------------------
(* Histories of API calls on one solver, with the numbers abstracted away: the outcome of a solve is chosen freely (Drive =
   FALSE) or follows from the kind of the current data (Drive = TRUE: the histories are exported and replayed on the library).
   Calls take 0 or 1 unit of time.  The solver's bookkeeping is that of OsqpApi, the one OsqpTrace judges recorded histories
   with; the ghosts are recomputed from the sequence of calls alone, and the invariants compare the two.  *)
EXTENDS OsqpApi, Sequences, TLC

CONSTANTS Depth, Drive, Times, Ops
VARIABLES s, n, g, hist, out
vars == <<s, n, g, hist, out>>

Dead == [live |-> FALSE]
Ghost0 == [since |-> 0, solved |-> 0, start |-> "zero", data |-> 0, used |-> 0, kind |-> "none", stale |-> 0, set |-> 0]
NoOut == [op |-> "", ret |-> 0]
Fresh(d) == [live |-> TRUE, first |-> TRUE, clr |-> FALSE, upT |-> 0, seT |-> d, slT |-> 0, poT |-> 0, ruT |-> 0, status |-> StUnsolved, fresh |-> FALSE,
             polished |-> FALSE, polSt |-> PolNone, vst |-> [polishing |-> FALSE, warm |-> TRUE], st |-> [polishing |-> FALSE, warm |-> TRUE],
             pt |-> "zero", sol |-> "none", data |-> 1, ofData |-> 0, kind |-> "opt"]
Init == s = Dead /\ n = 0 /\ g = Ghost0 /\ hist = <<>> /\ out = NoOut

Do(op, s1, g1, r) == /\ op \in Ops /\ s' = s1 /\ g' = g1 /\ n' = n + 1 /\ out' = [op |-> op, ret |-> r]
                     /\ hist' = IF Drive THEN Append(hist, op) ELSE hist
Setup == ~s.live /\ \E d \in Times : Do("setup", Fresh(d), [Ghost0 EXCEPT !.data = 1, !.kind = "none"], 0)
SetupBad == ~s.live /\ Do("setup_bad", Dead, Ghost0, ErrSettings)

\* ---- updates
DataOk(op, kind) == s.live /\ \E d \in Times :
  LET b == ClearUp(s, 0) IN
  Do(op, [DataAccepted(b, b.upT + d) EXCEPT !.data = @ + 1, !.kind = kind, !.polSt = PolNone, !.slT = 0, !.poT = 0],
     [g EXCEPT !.since = @ + d, !.data = @ + 1, !.stale = 1], 0)
VecOpt == DataOk("vec_opt", "opt")
VecPinf == DataOk("vec_pinf", "pinf")
VecDinf == DataOk("vec_dinf", "dinf")
Mat == DataOk("mat", IF s.live THEN s.kind ELSE "opt")
VecBad == s.live /\ Do("vec_bad", ClearUp(s, 0), [g EXCEPT !.since = @], ErrData)
MatBad == s.live /\ Do("mat_bad", ClearUp(s, 0), g, 1)
Rho == s.live /\ \E d \in Times : LET b == ClearUp(s, 0) IN Do("rho", RhoAccepted(b, b.upT + d), [g EXCEPT !.since = @ + d], 0)
RhoBad == s.live /\ Do("rho_bad", s, g, 1)
SetPol(b) == s.live /\ Do(IF b THEN "set_pol" ELSE "set_nopol", [s EXCEPT !.st.polishing = b], g, 0)
SetWarm(b) == s.live /\ Do(IF b THEN "set_warm" ELSE "set_cold", [s EXCEPT !.st.warm = b], [g EXCEPT !.set = @ + 1], 0)
SetBad == s.live /\ Do("set_bad", s, g, ErrSettings)
Warm == s.live /\ Do("warm", [Started(s) EXCEPT !.pt = "user", !.st.warm = TRUE], [g EXCEPT !.start = "user"], 0)
Cold == s.live /\ Do("cold", [Started(s) EXCEPT !.pt = "zero"], [g EXCEPT !.start = "zero"], 0)

\* ---- solves
Outcomes == IF ~Drive THEN {StSolved, StSolvedInac, StPinf, StDinf, StMaxIter, StTime, StNonCvx}
            ELSE {CASE s.kind = "opt" -> StSolved [] s.kind = "pinf" -> StPinf [] OTHER -> StDinf}
Complete(op, st) ==
  \E ts \in Times, tp \in Times, pol \in {PolOk, PolFailed, PolNoActive} :
  LET b  == SolveBegins(s, 0)
      ps == IF s.st.polishing /\ st = StSolved THEN pol ELSE PolNone
      pt == IF ps = PolNone THEN 0 ELSE tp
      e  == SolveEnds(b, st, ps)
      k  == StoredKind(st)
  IN /\ (ps = PolNone => pol = PolOk /\ tp = 0)        \* (no branching where nothing is polished)
     /\ Do(op, [e EXCEPT !.slT = ts, !.poT = pt, !.ruT = TimeBase(b) + ts + pt, !.polSt = ps, !.sol = k, !.ofData = s.data,
                         !.pt = IF HasSol(st) THEN "cont" ELSE "zero"],
           [g EXCEPT !.since = 0, !.used = g.since, !.solved = @ + 1, !.kind = k, !.start = IF HasSol(st) THEN "cont" ELSE "zero", !.stale = 0], 0)
Solve == s.live /\ \E st \in Outcomes : Complete("solve", st)
SolveMax == s.live /\ Complete("solve_max", StMaxIter)           \* the iteration limit is too small
SolveTime == s.live /\ Complete("solve_time", StTime)            \* the time limit is reached at once
SolveSig == s.live /\ \E d \in Times :
  LET b == SolveBegins(s, 0) IN
  \* stopped in the middle: nothing is stored, the iterates are those of the last iteration
  Do("solve_sig", [SolveInterrupted(b) EXCEPT !.pt = "cont", !.polSt = PolNone, !.poT = 0], [g EXCEPT !.start = "cont"], 1)
Get == s.live /\ Do("get", s, g, 0)
Cleanup == s.live /\ Do("cleanup", Dead, Ghost0, 0)

Next == /\ n < Depth
        /\ \/ Setup \/ SetupBad \/ VecOpt \/ VecPinf \/ VecDinf \/ Mat \/ VecBad \/ MatBad \/ Rho \/ RhoBad \/ SetPol(TRUE) \/ SetPol(FALSE)
           \/ SetWarm(TRUE) \/ SetWarm(FALSE) \/ SetBad \/ Warm \/ Cold \/ Solve \/ SolveMax \/ SolveTime \/ SolveSig \/ Get \/ Cleanup
\* export: one line per history of full length
Export == IF n = Depth /\ s.live THEN PrintT(<<"HIST", hist, s.status, s.sol, s.polSt>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

Live == s.live
SolveOps == {"solve", "solve_max", "solve_time"}
Rejected == {"vec_bad", "mat_bad", "rho_bad", "set_bad", "setup_bad"}
\* C16: update_time is what the accepted updates since the last completed solve took; the run time counts each phase once
C16_UpdateTime == Live /\ out.op \notin SolveOps /\ ~s.clr => s.upT = g.since
C16_RunTime ==
  Live /\ out.op \in SolveOps =>
    /\ s.upT = g.used
    /\ s.ruT = s.slT + s.poT + (IF g.solved = 1 THEN s.seT ELSE g.used)
    /\ (s.polSt = PolNone => s.poT = 0)
C16_NoLeak == Live /\ out.op \notin SolveOps \union {"solve_sig"} /\ s.status = StUnsolved => s.poT = 0
\* C20: what is stored is what the last completed solve produced
C20_Stored == Live => s.sol = g.kind
\* C02 / C08: a verdict never survives a change of the data
C02_NotStale == Live /\ s.status \in {StSolved, StSolvedInac, StPinf, StDinf, StNonCvx} => s.ofData = g.data /\ g.stale = 0
C11_Start == Live => s.pt = g.start
C13_Polish == Live => /\ (s.polSt # PolNone => s.status = StSolved /\ out.op \notin {"vec_opt", "vec_pinf", "vec_dinf", "mat"})
                      /\ (s.polished => s.polSt = PolOk)
C15_Sig == out.op = "solve_sig" <=> out.ret # 0 /\ Live /\ s.status = StSigint /\ out.op \notin Rejected
\* C08, C09, C10, C07, C01: a refused call has no effect (but for the account of update times)
C08_Rejected == [][out'.ret # 0 /\ out'.op \in Rejected =>
                     (Live /\ [s' EXCEPT !.upT = 0, !.clr = FALSE] = [s EXCEPT !.upT = 0, !.clr = FALSE]) \/ (~Live /\ s' = s)]_vars
C10_Get == [][out'.op = "get" => s' = s]_vars
=============================================================================

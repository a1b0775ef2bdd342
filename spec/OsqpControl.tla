------------------------------ MODULE OsqpControl ------------------------------
(* One solve with everything that numbers, clocks and signals could do chosen nondeterministically: the control structure of
   OsqpLoop, for every small setting, under every outcome of every test, every moment of a signal, every pace of the clock.
   `log` records the outcomes that were drawn; the invariants state what the properties demand of the end of a solve in terms
   of the settings and of that log alone, so they check OsqpLoop (on which OsqpTrace rests) against the properties.  *)
EXTENDS OsqpLoop, OsqpApi, TLC

CONSTANTS MaxIters, Cts, Modes, Intervals, Limits, SetupTime
VARIABLES S, cr, t, log, pol
vars == <<S, cr, t, log, pol>>
Verd == {"none", "solved", "pinf", "dinf", "ncvx"}
Three == 3                       \* the printing interval of the model
Settings == [max_iter : MaxIters, check_termination : Cts, verbose : BOOLEAN, adaptive_rho : Modes, interval : Intervals,
             polishing : BOOLEAN, limit : Limits]
B(c) == IF c THEN BOOLEAN ELSE {FALSE}

Init ==
  /\ S \in Settings /\ (S.adaptive_rho = AdOff => S.interval = 0)
  /\ cr = CrInit(InitInterval(S.adaptive_rho, S.interval, S.check_termination))
  /\ t = SetupTime /\ log = <<>> /\ pol = PolNone
\* frac: may become true once and then stays true (time does not run backwards)
Iter ==
  /\ cr.phase = "iter"
  /\ \E d \in {0, 1} : \E sig \in BOOLEAN : \E fr \in B(S.adaptive_rho = AdTime /\ cr.interval = 0) :
     LET k == cr.k + 1
         late == t + d >= S.limit
         iv == NextInterval(S, cr.interval, k, fr)
         go == ~sig /\ ~late
         ck == go /\ Checks(S, k)
         ad == go /\ Adapts(S, iv, k)
     IN \E v \in (IF ck THEN Verd ELSE {"none"}) : \E kkt \in (IF ad /\ v = "none" /\ S.adaptive_rho = AdKkt THEN BOOLEAN ELSE {TRUE}) :
        \E rho \in B(ad /\ v = "none" /\ kkt) :
          LET o == [sig |-> sig, late |-> late, frac |-> fr, v |-> v, kkt |-> kkt, rho |-> rho] IN
          /\ cr' = LoopIter(S, cr, o) /\ t' = t + d
          /\ log' = Append(log, [sig |-> sig, late |-> late, v |-> v, rho |-> rho /\ go /\ v = "none", iv |-> IF go THEN iv ELSE cr.interval, frac |-> fr, kkt |-> kkt])
  /\ UNCHANGED <<S, pol>>
\* the criteria at the last point: exact (as often as they are examined there the answer is the same), then relaxed
Post ==
  /\ cr.phase = "post"
  /\ \/ /\ PostNeedsExact(cr)
        /\ \E v \in Verd : cr' = PostExact(S, cr, v) /\ log' = [log EXCEPT ![cr.k].v = v]
     \/ /\ ~PostNeedsExact(cr)
        /\ LET crp == PostPrint(S, cr) IN
           \E v \in (IF PostNeedsApprox(crp) THEN Verd \ {"ncvx"} ELSE {"none"}) :
             /\ cr' = [Finish(IF PostNeedsApprox(crp) THEN PostApprox(crp, v) ELSE crp) EXCEPT !.phase = IF Polishes(S, Finish(IF PostNeedsApprox(crp) THEN PostApprox(crp, v) ELSE crp)) THEN "polish" ELSE "done"]
             /\ log' = Append(log, [approx |-> v])
  /\ UNCHANGED <<S, t, pol>>
Polish == /\ cr.phase = "polish" /\ pol' \in {PolOk, PolFailed, PolNoActive, PolLinsys} /\ cr' = [cr EXCEPT !.phase = "done"] /\ UNCHANGED <<S, t, log>>
Next == Iter \/ Post \/ Polish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------------ what the properties demand
Done == cr.phase \in {"done", "abort"}
K == cr.k
Status == EndStatus(cr.status, cr.inac)
CkAt(k) == S.check_termination > 0 /\ k % S.check_termination = 0
Approx == log[Len(log)].approx
Stop(k) == log[k].sig \/ log[k].late
\* C05: the solve stops at the first scheduled iteration that satisfies a criterion; otherwise at the iteration limit, where
\* the exact and then the relaxed criteria decide
C05_Schedule ==
  Done =>
  /\ K \in 1..S.max_iter
  /\ \A k \in 1..(K - 1) : CkAt(k) => log[k].v = "none"
  /\ K < S.max_iter => Stop(K) \/ (CkAt(K) /\ log[K].v # "none")
  /\ ~log[K].sig =>
       /\ log[K].v # "none" => Status = VerdictStatus(log[K].v, FALSE)
       /\ log[K].v = "none" /\ Approx # "none" => Status = VerdictStatus(Approx, TRUE)
       /\ log[K].v = "none" /\ Approx = "none" => Status = IF log[K].late THEN StTime ELSE StMaxIter
  /\ Status = StMaxIter => K = S.max_iter
  /\ cr.status # "unsolved" /\ cr.phase = "done" => cr.infoIter = K
\* C14: the first iteration after which the limit is reached is the last one
C14_TimeLimit ==
  Done => /\ \A k \in 1..(K - 1) : ~log[k].late
          /\ log[K].late /\ ~log[K].sig => Status \in {StTime} \union {VerdictStatus(v, b) : v \in Verd \ {"none"}, b \in BOOLEAN}
          /\ Status = StTime => log[K].late
C15_Interrupt ==
  Done => /\ \A k \in 1..(K - 1) : ~log[k].sig
          /\ log[K].sig <=> Status = StSigint
          /\ log[K].sig <=> cr.ret # 0
          /\ log[K].sig => cr.phase = "abort"
\* C07: rho changes only where adaptation is due
C07_Rho ==
  /\ \A k \in 1..K : log[k].rho => S.adaptive_rho # AdOff /\ log[k].iv > 0 /\ k % log[k].iv = 0
  /\ cr.rhoUpdates = Cardinality({k \in 1..K : log[k].rho})
  /\ S.adaptive_rho = AdTime /\ S.interval = 0 /\ cr.interval > 0 =>        \* the interval chosen from the clock
       \E k \in 1..K : log[k].frac /\ (\A j \in 1..(k - 1) : ~log[j].frac) /\ cr.interval >= 1 /\ cr.interval >= S.check_termination
            /\ (S.check_termination > 0 => cr.interval % S.check_termination = 0)
  /\ S.adaptive_rho # AdOff /\ S.interval > 0 => cr.interval = S.interval
\* C22: the lines of a verbose solve
C22_Lines ==
  cr.phase = "done" =>
    LET L == cr.lines  at == {L[a][1] : a \in 1..Len(L)} IN
    /\ ~S.verbose => L = <<>>
    /\ S.verbose =>
       /\ \A a \in 1..(Len(L) - 1) : L[a][1] < L[a + 1][1]
       /\ at = {k \in 1..K : k = 1 \/ k % PrintEvery = 0 \/ log[k].rho \/ k = K}
       /\ \A a \in 1..Len(L) : L[a][2] <=> log[L[a][1]].rho
\* C04 / C02: info is that of the final iteration, and an exact verdict was reached by a test at that iteration
C04_Info == cr.phase = "done" => cr.infoIter = K /\ cr.checked
C02_Fresh == cr.phase = "done" /\ Status \in {StSolved, StPinf, StDinf, StNonCvx} => log[K].v # "none" /\ VerdictStatus(log[K].v, FALSE) = Status
C13_Polish == Done => (pol # PolNone <=> S.polishing /\ Status = StSolved)
TypeOK == cr.phase \in {"iter", "post", "polish", "done", "abort"} /\ cr.k <= S.max_iter
\* every solve ends
C05_Ends == <>Done
=============================================================================

------------------------------ MODULE OsqpScen ------------------------------
(* Scripted runs of OsqpLoop that a one-variable problem can make the library perform: minimise x^2/2 + q x with sigma =
   alpha = 1 and no constraints halves the error in every iteration, so a tolerance fixes the iteration K from which the
   exact criteria hold (the relaxed ones hold from K - 3); the first adaptation changes rho (to its minimum), later ones do
   not; the clock and the signal are scripted.  Each scenario is printed with the way the loop takes through it
   (its signature), so that the replayed sample covers every way (fam.loop_scen).  *)
EXTENDS OsqpLoop, TLC
CONSTANTS MaxIters, Cts, Ks
VARIABLE sc
Three == 3
ModeInts == {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 1>>, <<3, 2>>}
Scens == {[mi |-> a, ct |-> b, k |-> c, mode |-> d[1], iv |-> d[2], sig |-> e[1], late |-> e[2], verb |-> f, pol |-> p] :
            a \in MaxIters, b \in Cts, c \in Ks, d \in ModeInts, e \in {<<0, 0>>} \union {<<x, 0>> : x \in 1..5} \union {<<0, x>> : x \in 1..5}, f \in BOOLEAN, p \in BOOLEAN}
SOf(x) == [max_iter |-> x.mi, check_termination |-> x.ct, verbose |-> x.verb, adaptive_rho |-> x.mode, polishing |-> x.pol]
FracAt == 2                        \* time-based adaptation: enough time has passed after two iterations
Exact(x, k) == IF k >= x.k THEN "solved" ELSE "none"
Relaxed(x, k) == IF k >= x.k - 3 THEN "solved" ELSE "none"
RECURSIVE Run(_, _)
Run(x, cr) ==
  LET S == SOf(x) k == cr.k + 1 IN
  IF cr.phase = "iter" THEN
    Run(x, LoopIter(S, cr, [sig |-> x.sig = k, late |-> x.late # 0 /\ k >= x.late, frac |-> k >= FracAt, v |-> Exact(x, k), kkt |-> TRUE, rho |-> cr.rhoUpdates = 0]))
  ELSE IF PostNeedsExact(cr) THEN Run(x, PostExact(S, cr, Exact(x, cr.k)))
  ELSE IF cr.phase = "post" THEN LET p == PostPrint(S, cr) IN Finish(IF PostNeedsApprox(p) THEN PostApprox(p, Relaxed(x, p.k)) ELSE p)
  ELSE cr
Rel(a, b) == IF a < b THEN "<" ELSE IF a = b THEN "=" ELSE ">"
Signature(x, e) ==
  <<e.status, e.inac, e.phase, e.checked, Rel(e.k, x.mi), x.ct = 0, IF x.ct = 0 THEN 0 ELSE Rel(e.k % x.ct, 0), x.mode, e.rhoUpdates,
    IF e.lines = <<>> THEN "quiet" ELSE IF e.lines[Len(e.lines)][2] THEN "mark" ELSE "line", Rel(Len(e.lines), e.k), Rel(e.infoIter, e.k), x.pol, x.sig > 0, x.late > 0>>
Init == sc \in Scens /\ LET e == Run(sc, CrInit(InitInterval(sc.mode, sc.iv, sc.ct))) IN
          PrintT(<<"SCEN", sc.mi, sc.ct, sc.k, sc.mode, sc.iv, sc.sig, sc.late, sc.verb, sc.pol, e.status, e.inac, e.k, ToString(Signature(sc, e))>>)
Next == UNCHANGED sc
Spec == Init /\ [][Next]_sc
=============================================================================

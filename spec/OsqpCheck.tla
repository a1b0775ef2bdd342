------------------------------ MODULE OsqpCheck ------------------------------
(* Judgements on a recorded result that need only the user's problem and the result itself: whether a verdict is backed
   by the criteria it claims (C02, C03), whether info describes the returned point (C04), and which vectors are stored
   (C20).  They hold for every iterate the solver could have produced, so they also apply where the iterates themselves
   are not predicted (indirect solver, step sizes decided by rounding noise). *)
EXTENDS OsqpAdmm

Near(a, b, tol) == a = b \/ FLe(FAbs(FSub(a, b)), tol)
NearRel(a, b, rel) == Near(a, b, FMul(C(rel), FMax(FAbs(a), FAbs(b))))
Marker(v) == \A i \in 1..Len(v) : v[i] = NANMARK
NoMarker(v) == \A i \in 1..Len(v) : v[i] # NANMARK

\* the problem in the user's units, in the shape of a solver state
UserView(sv) == [sv EXCEPT !.P = sv.uP, !.A = sv.uA, !.q = sv.uq, !.l = sv.ul, !.u = sv.uu,
                           !.D = VFill(sv.n, One), !.E = VFill(sv.m, One), !.c = One]
ScaledCrit(sv) == sv.st.scaling > 0 /\ sv.st.scaled_termination = 1
\* the point of a recorded solution, in the units the criteria are measured in
CritView(sv) == IF ScaledCrit(sv) THEN sv ELSE UserView(sv)
CritX(sv, x) == IF ScaledCrit(sv) THEN VMul(VRecip(sv.D), x) ELSE x
CritY(sv, y) == IF ScaledCrit(sv) THEN VScale(sv.c, VMul(VRecip(sv.E), y)) ELSE y

\* ---------------------------------------------------------------- optimality (C02)
SoundSolved(sv, sol, inac, polished) ==
  LET k   == IF inac THEN FInt(10) ELSE One
      ea  == FMul(k, sv.st.eps_abs)  er == FMul(k, sv.st.eps_rel)
      V   == CritView(sv)
      x   == CritX(sv, sol.x)  y == CritY(sv, sol.y)
      Ax  == MMulV(V.A, x)
      z   == VClamp(Ax, V.l, V.u)
      r   == Resid(V, x, z, y)
      slack == IF polished THEN C("1e-8") ELSE Zero
      pn  == VNorm(Ax)
      gm  == FMax(FMax(FAbs(r.xPx), FAbs(r.qx)), FAbs(r.sc))
      primOk == sv.m = 0 \/ ~FLt(er, One) \/
                FLe(VNorm(VSub(Ax, z)), FAdd(FAdd(FDiv(FAdd(ea, FMul(er, pn)), FSub(One, er)), slack), FMul(C("1e-9"), pn)))
      dualOk == FLe(r.sdr, FAdd(FAdd(FAdd(ea, FMul(er, r.sdn)), slack), FAdd(FMul(C("1e-9"), r.sdn), FMul(C("1e-13"), r.dabs))))
      gapOk  == sv.st.check_dualgap = 0 \/ polished \/
                FLe(FAbs(r.sgap), FAdd(FAdd(ea, FMul(er, gm)), FAdd(r.pabs, FMul(C("1e-9"), FAdd(r.mag, gm)))))
  IN primOk /\ dualOk /\ gapOk

\* ---------------------------------------------------------------- certificates (C03)
Unit(v) == NearRel(VNorm(v), One, "1e-9")
SoundPinf(sv, pc, inac) ==
  LET eps == FMul(IF inac THEN FInt(10) ELSE One, sv.st.eps_prim_inf)
      V   == CritView(sv)
      w   == IF ScaledCrit(sv) THEN VMul(VRecip(sv.E), pc) ELSE pc
  IN /\ Unit(pc)
     /\ \A i \in 1..sv.m : (FLe(INFTY, sv.uu[i]) => FLe(pc[i], Zero)) /\ (FLe(sv.ul[i], FNeg(INFTY)) => FLe(Zero, pc[i]))
     /\ FLt(Supp(pc, sv.ul, sv.uu), FMul(C("1e-9"), SuppAbs(pc, sv.ul, sv.uu)))
     /\ FLe(VNorm(MTMulV(sv.n, V.A, w)), FAdd(FMul(FMul(C("1.000001"), eps), VNorm(w)), C("1e-12")))
SoundDinf(sv, dc, inac) ==
  LET eps == FMul(IF inac THEN FInt(10) ELSE One, sv.st.eps_dual_inf)
      V   == CritView(sv)
      w   == IF ScaledCrit(sv) THEN VMul(VRecip(sv.D), dc) ELSE dc
      th  == FAdd(FMul(FMul(C("1.000001"), eps), VNorm(w)), C("1e-12"))
      Aw  == MMulV(V.A, w)
  IN /\ Unit(dc)
     /\ FLt(VDot(sv.uq, dc), FMul(C("1e-9"), VNorm(sv.uq)))
     /\ FLe(VNorm(MMulV(V.P, w)), th)
     /\ \A i \in 1..sv.m : (FLt(sv.uu[i], INFTH) => FLe(Aw[i], th)) /\ (FLt(FNeg(INFTH), sv.ul[i]) => FLe(FNeg(th), Aw[i]))

\* ---------------------------------------------------------------- info and point (C04)
\* slk: how inexact the constraint "y in the normal cone of z" may be (0: exact up to rounding)
\* the info fields that do not describe the point sol
InfoOfPoint(sv, sol, info) ==
  LET r   == Resid(UserView(sv), sol.x, VClamp(MMulV(sv.uA, sol.x), sv.ul, sv.uu), sol.y)
      V   == CritView(sv)
      x   == CritX(sv, sol.x)  y == CritY(sv, sol.y)
      Ax  == MMulV(V.A, x)
      rc  == Resid([V EXCEPT !.st.scaled_termination = 1], x, VClamp(Ax, V.l, V.u), y)
      tolo == FAdd(FAdd(FMul(C("1e-8"), r.mag), C("1e-12")), r.pabs)
      told == FAdd(FMul(C("1e-9"), rc.sdn), FAdd(C("1e-12"), FMul(C("1e-13"), rc.dabs)))
      \* multipliers that are nothing but rounding in rho * (A x - z)
      rmax == FMul(FMul(RHO_EQ, FMax(sv.rmax, One)), C("1e-14"))
      zmag == FAdd(One, VNorm(MMulV(MAbs(sv.A), VAbs(VMul(VRecip(sv.D), sol.x)))))
      unit(i) == IF ScaledCrit(sv) THEN One ELSE FDiv(sv.E[i], sv.c)
      yt(i) == FAdd(FMul(C("1e-9"), VNorm(y)), FMul(unit(i), FMul(rmax, zmag)))
      pn  == FAdd(FAdd(FMul(C("1e-9"), FAdd(VNorm(Ax), One)), C("1e-12")), FMul(C("1e-14"), VNorm(MMulV(MAbs(V.A), VAbs(x)))))
      lb(i) == IF FLt(yt(i), y[i]) /\ FLt(V.u[i], INFTH) THEN FAbs(FSub(Ax[i], V.u[i]))
               ELSE IF FLt(y[i], FNeg(yt(i))) /\ FLt(FNeg(INFTH), V.l[i]) THEN FAbs(FSub(Ax[i], V.l[i]))
               ELSE FAbs(FSub(Ax[i], FMin(FMax(Ax[i], V.l[i]), V.u[i])))
  IN (IF Near(info.obj_val, r.pobj, tolo) THEN {} ELSE {"obj_val"})
     \union (IF Near(info.dual_obj_val, r.dobj, tolo) THEN {} ELSE {"dual_obj_val"})
     \union (IF Near(info.duality_gap, r.gap, tolo) THEN {} ELSE {"duality_gap"})
     \union (IF Near(info.dual_res, rc.sdr, told) THEN {} ELSE {"dual_res"})
     \union (IF \A i \in 1..sv.m : FLe(lb(i), FAdd(info.prim_res, pn)) THEN {} ELSE {"prim_res"})
     \union (IF sv.m = 0 => info.prim_res = Zero THEN {} ELSE {"prim_res without constraints"})
InfoConsistent(info) ==
  LET s == FAdd(FAbs(info.obj_val), FAbs(info.dual_obj_val)) IN
  /\ Near(info.duality_gap, FSub(info.obj_val, info.dual_obj_val), FAdd(FMul(C("1e-9"), s), C("1e-12")))
  /\ NearRel(info.rel_kkt_error, FMax(FMax(info.prim_res, info.dual_res), FAbs(info.duality_gap)), "1e-12")

\* ---------------------------------------------------------------- storage (C20)
Stored(st, sol) ==
  LET k == StoredKind(st) IN
  /\ IF k = "point" THEN NoMarker(sol.x) /\ NoMarker(sol.y) ELSE Marker(sol.x) /\ Marker(sol.y)
  /\ IF k = "pcert" THEN NoMarker(sol.pc) ELSE Marker(sol.pc)
  /\ IF k = "dcert" THEN NoMarker(sol.dc) ELSE Marker(sol.dc)
\* ---------------------------------------------------------------- convexity at setup (C23)
\* the KKT matrix has the right inertia iff P + sigma I + A' diag(rho) A is positive definite; "edge" when a pivot of its
\* elimination is too close to zero to tell
Convexity(sv) ==
  LET rho == RhoVec(sv.ctype, sv.st.rho, sv.st.rho_is_vec)
      G(i, j) == FoldAdd(Tup([k \in 1..sv.m |-> FMul(FMul(sv.A[k][i], rho[k]), sv.A[k][j])]), 1, Zero)
      M == Tup([i \in 1..sv.n |-> Tup([j \in 1..sv.n |-> FAdd(FAdd(sv.P[i][j], IF i = j THEN sv.st.sigma ELSE Zero), G(i, j))])])
      AbsG(i) == FoldAdd(Tup([k \in 1..sv.m |-> FMul(FMul(sv.A[k][i], rho[k]), sv.A[k][i])]), 1, Zero)
      scale == FoldMax(Tup([i \in 1..sv.n |-> FAdd(FAbs(sv.P[i][i]), AbsG(i))]), 1, Zero)
  IN Pivots(M, 1, FMax(scale, VNorm(MRowNorm(sv.P))))
=============================================================================

------------------------------ MODULE OsqpData ------------------------------
(* Problem data, settings and scaling: what osqp_setup accepts, what it stores, and the scaled problem it works on.
   A problem is given as the caller gives it: entry lists <<row, column, value>> (1-based), q, l, u, the dimensions
   passed alongside, and flags for missing arrays.  `r \o s` etc. are sequences; numbers are doubles (Num). *)
EXTENDS Vec, FiniteSets, OsqpApi

INFTY     == FLit("1e30")
INFTH     == FMul(INFTY, FLit("1e-4"))  \* bounds beyond this are infinite (OSQP_INFTY * OSQP_MIN_SCALING)
RHO_MIN   == FLit("1e-6")
RHO_MAX   == FLit("1e6")
RHO_TOL   == FLit("1e-4")
RHO_EQ    == FLit("1e3")
DIVTOL    == FLit("1e-30")
MINSC     == FLit("1e-4")
MAXSC     == FLit("1e4")
NANMARK   == FLit("2143289344")         \* the library's not-a-number marker OSQP_NAN, (double)0x7fc00000
Dead      == FLit("1e-15")

DefaultSettings == [device |-> 0, linsys_solver |-> 1, allocate_solution |-> 1, verbose |-> 1, profiler_level |-> 0,
  warm_starting |-> 1, scaling |-> 10, polishing |-> 0, rho |-> FLit("0.1"), rho_is_vec |-> 1, sigma |-> FLit("1e-6"),
  alpha |-> FLit("1.6"), cg_max_iter |-> 20, cg_tol_reduction |-> 10, cg_tol_fraction |-> FLit("0.15"), cg_precond |-> 1,
  adaptive_rho |-> 1, adaptive_rho_interval |-> 50, adaptive_rho_fraction |-> FLit("0.4"), adaptive_rho_tolerance |-> FLit("5"),
  max_iter |-> 4000, eps_abs |-> FLit("1e-3"), eps_rel |-> FLit("1e-3"), eps_prim_inf |-> FLit("1e-4"), eps_dual_inf |-> FLit("1e-4"),
  scaled_termination |-> 0, check_termination |-> 25, check_dualgap |-> 1, time_limit |-> FLit("1e10"), delta |-> FLit("1e-6"),
  polish_refine_iter |-> 3]
Fields == DOMAIN DefaultSettings
Override(base, set) == [f \in Fields |-> IF f \in DOMAIN set THEN set[f] ELSE base[f]]
Bool01(v) == v \in {0, 1}
Pos(x)    == FLt(Zero, x)
NonNeg(x) == FLe(Zero, x)
\* the settings osqp_update_settings may change, with their ranges
RunFields == {"verbose", "profiler_level", "warm_starting", "polishing", "alpha", "cg_max_iter", "cg_tol_reduction",
  "cg_tol_fraction", "cg_precond", "max_iter", "eps_abs", "eps_rel", "eps_prim_inf", "eps_dual_inf", "scaled_termination",
  "check_termination", "check_dualgap", "time_limit", "delta", "polish_refine_iter"}
ValidRun(s) ==
  /\ Bool01(s.verbose) /\ s.profiler_level \in 0..2 /\ Bool01(s.warm_starting) /\ Bool01(s.polishing)
  /\ Pos(s.alpha) /\ FLt(s.alpha, FLit("2"))
  /\ s.cg_max_iter > 0 /\ s.cg_tol_reduction > 0 /\ Pos(s.cg_tol_fraction) /\ FLt(s.cg_tol_fraction, One)
  /\ s.max_iter > 0 /\ NonNeg(s.eps_abs) /\ NonNeg(s.eps_rel) /\ (Pos(s.eps_abs) \/ Pos(s.eps_rel))
  /\ Pos(s.eps_prim_inf) /\ Pos(s.eps_dual_inf) /\ Bool01(s.scaled_termination) /\ s.check_termination >= 0
  /\ Bool01(s.check_dualgap) /\ Pos(s.time_limit) /\ Pos(s.delta) /\ s.polish_refine_iter >= 0
ValidSetup(s) ==
  /\ ValidRun(s)
  /\ s.linsys_solver \in {1, 2} /\ Bool01(s.allocate_solution) /\ s.scaling >= 0 /\ Pos(s.rho) /\ Bool01(s.rho_is_vec)
  /\ Pos(s.sigma) /\ s.adaptive_rho \in 0..3 /\ s.adaptive_rho_interval >= 0 /\ Pos(s.adaptive_rho_fraction)
  /\ FLe(One, s.adaptive_rho_tolerance)
\* Fields of an update that are setup-only are ignored, except that an adaptive_rho code above the last one is refused too
ValidUpdate(s) == ValidRun(s) /\ s.adaptive_rho < 4

\* ------------------------------------------------------------------ problems
Ents(n, m, es, sym) ==   \* dense matrix of an entry list
  LET at(i, j) == LET S == {k \in 1..Len(es) : (es[k][1] = i /\ es[k][2] = j) \/ (sym /\ es[k][1] = j /\ es[k][2] = i)}
                  IN IF S = {} THEN Zero ELSE es[CHOOSE k \in S : TRUE][3]
  IN Tup([i \in 1..n |-> Tup([j \in 1..m |-> at(i, j)])])
ValidProblem(p) ==
  /\ ~p.nullP /\ ~p.nullA /\ ~p.nullq /\ p.sn > 0 /\ p.sm >= 0
  /\ (p.sm > 0 => ~p.nulll /\ ~p.nullu)
  /\ p.Pm = p.sn /\ p.Pn = p.sn /\ p.Am = p.sm /\ p.An = p.sn
  /\ \A k \in 1..Len(p.P) : p.P[k][1] <= p.P[k][2]
  /\ \A i \in 1..p.sm : FLe(p.l[i], p.u[i])

\* ------------------------------------------------------------------ scaling (Ruiz equilibration with cost normalisation)
LimitS(v) == IF FLt(v, MINSC) THEN One ELSE IF FLt(MAXSC, v) THEN MAXSC ELSE v
LimitV(v) == Tup([i \in 1..Len(v) |-> LimitS(v[i])])
\* a norm so close to the lower limit that rounding decides
EdgeS(v)  == FLe(FAbs(FSub(v, MINSC)), FMul(FLit("1e-8"), MINSC))
ScalePass(r) ==
  LET n  == Len(r.q)
      dn == VMaxV(MTriuColNorm(r.P), MColNorm(n, r.A))
      en == MRowNorm(r.A)
      d  == VRecip(VSqrt(LimitV(dn)))
      e  == VRecip(VSqrt(LimitV(en)))
      P1 == MDiagR(MDiagL(d, r.P), d)
      A1 == MDiagR(MDiagL(e, r.A), d)
      q1 == VMul(r.q, d)
      pn == FDiv(VNorm1(MTriuColNorm(P1)), FInt(n))
      qn == VNorm(q1)
      ci == FDiv(One, LimitS(FMax(pn, LimitS(qn))))
      edge == (\E i \in 1..n : EdgeS(dn[i])) \/ (\E i \in 1..Len(en) : EdgeS(en[i])) \/ EdgeS(qn)
  IN [P |-> MScale(ci, P1), A |-> A1, q |-> VScale(ci, q1), D |-> VMul(r.D, d), E |-> VMul(r.E, e), c |-> FMul(r.c, ci), edge |-> r.edge \/ edge]
RECURSIVE ScaleRec(_, _)
ScaleRec(r, k) == IF k = 0 THEN r ELSE ScaleRec(ScalePass(r), k - 1)
Scaling(P, A, q, passes) ==
  ScaleRec([P |-> P, A |-> A, q |-> q, D |-> VFill(Len(q), One), E |-> VFill(Len(A), One), c |-> One, edge |-> FALSE], passes)

\* ------------------------------------------------------------------ constraint types and step sizes
ConstrType(l, u) == Tup([i \in 1..Len(l) |->
  IF FLt(l[i], FNeg(INFTH)) /\ FLt(INFTH, u[i]) THEN -1 ELSE IF FLt(FSub(u[i], l[i]), RHO_TOL) THEN 1 ELSE 0])
TypeEdge(l, u) == \E i \in 1..Len(l) : FLe(FAbs(FSub(FSub(u[i], l[i]), RHO_TOL)), FLit("1e-9"))
ClipRho(r) == FMin(FMax(r, RHO_MIN), RHO_MAX)
RhoVec(type, rho, isvec) == Tup([i \in 1..Len(type) |->
  IF isvec = 0 THEN rho ELSE IF type[i] = -1 THEN RHO_MIN ELSE IF type[i] = 1 THEN FMul(RHO_EQ, rho) ELSE rho])
=============================================================================

------------------------------ MODULE OsqpAdmm ------------------------------
(* The numerical content of a solver: iteration, residuals, termination and infeasibility criteria, step-size estimate,
   polishing.  sv is a solver state (OsqpTrace): user data uP uA uq ul uu, scaled data P A q l u with scaling D E c,
   iterates x z y (scaled), last steps dx dy, constraint types, settings st.
   Where rounding could decide a comparison the operators return the set of outcomes that are possible. *)
EXTENDS OsqpData

C(s) == FLit(s)
Amb(a, b, floor) == FLe(FAbs(FSub(a, b)), FAdd(FMul(C("1e-6"), FMax(FAbs(a), FAbs(b))), floor))
LtSet(a, b, floor) == IF Amb(a, b, floor) THEN BOOLEAN ELSE {FLt(a, b)}
AndSets(X, Y) == {p /\ q : p \in X, q \in Y}
Max2(a, b) == FMax(a, b)
Sum2(a, b) == FAdd(a, b)

Rho(sv)  == RhoVec(sv.ctype, sv.st.rho, sv.st.rho_is_vec)
\* ------------------------------------------------------------------ one ADMM iteration
\* the linear system of the iteration, solved directly:  x~, z~ = A x~ and bounds on their rounding errors
DirectLin(sv, rho, w) ==
  LET n == Len(sv.q)  m == Len(sv.l)
      rz == VSub(sv.z, VMul(w, sv.y))
      K  == Kkt(sv.P, sv.A, sv.st.sigma, w)
      s  == LinSolve(K, VSub(VScale(sv.st.sigma, sv.x), sv.q) \o rz)
      I  == InvAbs(K)
      e  == MMulV(I, RoundRhs(K, s))                                                   \* rounding of this solve
      h  == MMulV(I, VScale(sv.st.sigma, sv.ex) \o VAdd(sv.ez, VMul(w, sv.ey)))           \* and what the right-hand side brings along
  IN [x |-> SubSeq(s, 1, n), hx |-> SubSeq(h, 1, n), z |-> VAdd(rz, VMul(w, SubSeq(s, n + 1, n + m))), ex |-> SubSeq(e, 1, n), ez |-> VMul(w, SubSeq(e, n + 1, n + m))]
AdmmStepWith(sv, lin, rho, w) ==
  LET xt  == lin.x
      zt  == lin.z
      al  == sv.st.alpha
      be  == FSub(One, al)
      x1  == VAxpby(al, xt, be, sv.x)
      v   == VAxpby(al, zt, be, sv.z)
      z1  == VClamp(VAdd(v, VMul(w, sv.y)), sv.l, sv.u)
      dy  == VMul(rho, VSub(v, z1))
      \* rounding errors of this step (bounds), accumulated: the iteration is non-expansive
      ex1 == lin.ex
      ez1 == VAdd(lin.ez, VScale(C("1.2e-16"), VAdd(VAbs(v), VMul(w, VAbs(sv.y)))))
      ey1 == VMul(rho, ez1)
      \* (in the norm  rho |z|^2 + |y|^2 / rho:  an error of one of z and y passes on to the other)
      tz  == VAdd(sv.ez, ez1)
      ty  == VAdd(sv.ey, ey1)
  IN [sv EXCEPT !.x = x1, !.z = z1, !.y = VAdd(sv.y, dy), !.dx = VSub(x1, sv.x), !.dy = dy,
                !.ex = VAdd(VMaxV(@, lin.hx), ex1), !.ez = VMaxV(tz, VMul(w, ty)), !.ey = VMaxV(ty, VMul(rho, tz)),
                !.nx = FAdd(FMul(C("1e-11"), FMax(VNorm(x1), VNorm(sv.x))), VNorm(VAdd(VMaxV(sv.ex, lin.hx), ex1))),
                !.ny = FAdd(FAdd(FMul(C("1e-11"), FMax(VNorm(sv.y), VNorm(VAdd(sv.y, dy)))), FMul(C("1e-13"), VNorm(VMul(rho, sv.z)))), VNorm(ey1))]
AdmmStep(sv) == LET rho == Rho(sv) w == VRecip(rho) IN AdmmStepWith(sv, DirectLin(sv, rho, w), rho, w)
\* ------------------------------------------------------------------ the indirect solver
(* Conjugate gradients on the reduced system  (P + s I + A' diag(rho) A) x = r1 + A'(rho o r2).  Which of the many points
   that satisfy the stopping rule is returned is the business of the linear-algebra library; the specification says when
   the iteration may stop.  g is the record of one such solve: x, number of iterations it, largest
   entry xm of any iterate, smallest residual rmin at which
   the library asked to go on, one application pre -> post of the preconditioner, operations asked for (mv, pc). *)
CgTolMin == C("1e-7")
RedMul(sv, A, s, rho, x) == VAdd(VAdd(MMulV(sv.P, x), VScale(s, x)), MTMulV(sv.n, A, VMul(rho, MMulV(A, x))))
RedAbs(sv, A, s, rho, x) == VAdd(VAdd(MMulV(MAbs(sv.P), VAbs(x)), VScale(s, VAbs(x))), MTMulV(sv.n, MAbs(A), VMul(rho, MMulV(MAbs(A), VAbs(x)))))
RedDiag(sv, A, s, rho) == Tup([j \in 1..sv.n |-> FAdd(FAdd(sv.P[j][j], s), FoldAdd(Tup([k \in 1..Len(A) |-> FMul(FMul(A[k][j], rho[k]), A[k][j])]), 1, Zero))])
\* what is wrong with the solve g of right-hand side (r1, r2) to a tolerance between lo and hi (err: rounding in the rhs)
CgFaults(sv, A, s, rho, r1, r2, err, g, lo, hi) ==
  LET b    == VAdd(r1, MTMulV(sv.n, A, VMul(rho, r2)))
      res  == VNorm(VSub(b, RedMul(sv, A, s, rho, g.x)))
      mag  == FAdd(FAdd(VNorm(RedAbs(sv, A, s, rho, g.x)), FAdd(VNorm(r1), VNorm(MTMulV(sv.n, MAbs(A), VMul(rho, VAbs(r2)))))), VNorm(RedAbs(sv, A, s, rho, VFill(sv.n, FMax(g.xm, VNorm(g.x))))))
      rnd  == FAdd(err, FMul(FMul(C("1e-13"), FInt(3 + g.it)), mag))
      d    == RedDiag(sv, A, s, rho)
      pre  == sv.st.cg_precond = 1
  IN (IF g.rci \in {0, 2} THEN {} ELSE {<<"conjugate gradients failed", "", "">>})
     \union (IF g.it <= sv.st.cg_max_iter THEN {} ELSE {<<"more iterations than cg_max_iter", "", "">>})
     \union (IF g.it >= sv.st.cg_max_iter \/ FLe(res, FAdd(FMul(C("1.000001"), hi), rnd)) THEN {} ELSE {<<"stopped before the tolerance was reached", FStr(res), FStr(hi)>>})
     \union (IF FLe(FMul(C("0.999999"), lo), FAdd(g.rmin, rnd)) THEN {} ELSE {<<"went on although the tolerance was reached", FStr(g.rmin), FStr(lo)>>})
     \union (IF (g.pc > 0) => pre THEN {} ELSE {<<"preconditioner used", "", "">>})
     \union (IF (g.it > 0 /\ pre) => g.pc > 0 THEN {} ELSE {<<"preconditioner not used", "", "">>})
     \union (IF ~g.hasp \/ \A j \in 1..sv.n : LET e == FMul(g.post[j], d[j]) IN FLe(FAbs(FSub(e, g.pre[j])), FMul(C("1e-6"), FAdd(FAbs(e), FAbs(g.pre[j])))) THEN {} ELSE {<<"preconditioner of another matrix", "", "">>})
RhsNorm(sv, A, rho, r1, r2) == VNorm(VAdd(r1, MTMulV(sv.n, A, VMul(rho, r2))))
AdmmRhs(sv, w) == <<VSub(VScale(sv.st.sigma, sv.x), sv.q), VSub(sv.z, VMul(w, sv.y))>>
\* the tolerance of iteration k as the interval [lo, hi], and what it is carried on with.
\* cs: [rf, lo, hi: reduction factor and tolerance so far, known: whether rf is, zero: consecutive solves without an iteration (-1: unknown)]
CgTol(sv, cs, k, bn, berr, r) ==
  IF k = 1 THEN
    LET rf == sv.st.cg_tol_fraction IN
    LET t(v) == IF FLt(v, CgTolMin) THEN One ELSE FMul(v, rf) IN
    [cs EXCEPT !.rf = rf, !.known = TRUE, !.lo = FMin(t(bn), t(FSub(bn, berr))), !.hi = FMax(t(bn), t(FAdd(bn, berr)))]
  ELSE
    LET red == cs.zero >= sv.st.cg_tol_reduction
        rf  == IF red THEN FDiv(cs.rf, FInt(2)) ELSE cs.rf
        kn  == cs.known /\ cs.zero >= 0
        s(a, b) == FSqrt(FMul(FMax(a, Zero), FMax(b, Zero)))
        cl(e, prev) == FMax(FMin(e, prev), CgTolMin)
    IN [cs EXCEPT !.rf = rf, !.known = kn, !.zero = IF red THEN 0 ELSE @,
                  !.hi = cl(FMul(rf, s(FAdd(r.spr, r.spe), FAdd(r.sdr, r.sde))), cs.hi),
                  !.lo = IF kn THEN cl(FMul(rf, s(FSub(r.spr, r.spe), FSub(r.sdr, r.sde))), cs.lo) ELSE Zero]
CgAfter(cs, g) == [cs EXCEPT !.zero = IF g.it > 0 THEN 0 ELSE IF @ < 0 THEN @ ELSE @ + 1]
CgStart == [rf |-> Zero, known |-> TRUE, lo |-> Zero, hi |-> Zero, zero |-> 0]
CgLin(sv, g) ==
  LET e == VScale(C("1e-15"), MMulV(MAbs(sv.A), VAbs(g.x))) IN [x |-> g.x, z |-> MMulV(sv.A, g.x), hx |-> VFill(sv.n, Zero), ex |-> VScale(C("2e-16"), VAdd(VAbs(g.x), VAbs(sv.x))), ez |-> e]
CgStep(sv, g) == LET rho == Rho(sv) IN AdmmStepWith(sv, CgLin(sv, g), rho, VRecip(rho))
\* signs of the pivots of a symmetric elimination
RECURSIVE Pivots(_, _, _)
Pivots(M, k, scale) ==
  IF k > Len(M) THEN "definite"
  ELSE LET p == M[k][k]
           sub == Tup([i \in 1..Len(M) |-> IF i <= k THEN M[i] ELSE VSub(M[i], VScale(FDiv(M[i][k], p), M[k]))])
       IN IF FLe(FAbs(p), FMul(C("1e-9"), scale)) THEN "edge" ELSE IF FLt(p, Zero) THEN "indefinite" ELSE Pivots(sub, k + 1, scale)
\* an indefinite P makes the iteration expansive: rounding errors then grow with the iteration.  Their size is followed
\* with copies of the iterates that start slightly displaced (sv.sh)
Indefinite(sv) ==
  LET sc == FMax(VNorm(MRowNorm(sv.P)), One)
      M  == Tup([i \in 1..sv.n |-> Tup([j \in 1..sv.n |-> IF i = j THEN FAdd(sv.P[i][j], FMul(C("1e-6"), sc)) ELSE sv.P[i][j]])])
  IN Pivots(M, 1, Zero) # "definite"
Displaced(sv) ==
  LET d(v, i) == [v EXCEPT ![i] = FAdd(@, FMul(C("1e-12"), FAdd(One, FAbs(@))))] IN
  Tup([i \in 1..sv.n |-> <<d(sv.x, i), sv.z, sv.y>>]) \o Tup([i \in 1..sv.m |-> <<sv.x, sv.z, d(sv.y, i)>>])
AdmmStepD(sv) ==
  LET s1 == AdmmStep(sv)
      one(t) == LET s2 == AdmmStep([sv EXCEPT !.x = t[1], !.z = t[2], !.y = t[3]]) IN <<s2.x, s2.z, s2.y>>
      sh == Tup([j \in 1..Len(sv.sh) |-> one(sv.sh[j])])
      sum[j \in 0..Len(sh)] == IF j = 0 THEN <<VFill(sv.n, Zero), VFill(sv.m, Zero), VFill(sv.m, Zero)>>
        ELSE LET p == sum[j - 1] IN <<VAdd(p[1], VAbs(VSub(sh[j][1], s1.x))), VAdd(p[2], VAbs(VSub(sh[j][2], s1.z))), VAdd(p[3], VAbs(VSub(sh[j][3], s1.y)))>>
      e == sum[Len(sh)]
      k == FInt(20)
  IN IF sv.sh = <<>> THEN s1
     ELSE [s1 EXCEPT !.sh = sh, !.ex = VScale(k, e[1]), !.ez = VScale(k, e[2]), !.ey = VScale(k, e[3]),
                     !.nx = FAdd(FMul(C("1e-11"), FMax(VNorm(s1.x), VNorm(sv.x))), FMul(k, VNorm(e[1]))),
                     !.ny = FAdd(FMul(C("1e-11"), FMax(VNorm(sv.y), VNorm(s1.y))), FMul(k, VNorm(e[3])))]
NoErr(sv) == [sv EXCEPT !.ex = VFill(Len(sv.q), Zero), !.ez = VFill(Len(sv.l), Zero), !.ey = VFill(Len(sv.l), Zero)]

Cold(sv) == [NoErr(sv) EXCEPT !.x = VFill(Len(sv.q), Zero), !.z = VFill(Len(sv.l), Zero), !.y = VFill(Len(sv.l), Zero)]

\* projection onto the polar of the recession cone of [l, u]
Polar(y, l, u) == Tup([i \in 1..Len(y) |->
  IF FLt(INFTH, u[i]) THEN IF FLt(l[i], FNeg(INFTH)) THEN Zero ELSE FMin(y[i], Zero)
  ELSE IF FLt(l[i], FNeg(INFTH)) THEN FMax(y[i], Zero) ELSE y[i]])
Deaden(y) == Tup([i \in 1..Len(y) |-> IF FLe(FAbs(y[i]), Dead) THEN Zero ELSE y[i]])
\* u'max(y,0) + l'min(y,0)
Supp(y, l, u) == LET t == Tup([i \in 1..Len(y) |-> IF FLt(Zero, y[i]) THEN FMul(u[i], y[i]) ELSE IF FLt(y[i], Zero) THEN FMul(l[i], y[i]) ELSE Zero])
                 IN FoldAdd(t, 1, Zero)
SuppAbs(y, l, u) == LET t == Tup([i \in 1..Len(y) |-> IF FLt(Zero, y[i]) THEN FAbs(FMul(u[i], y[i])) ELSE IF FLt(y[i], Zero) THEN FAbs(FMul(l[i], y[i])) ELSE Zero])
                    IN FoldAdd(t, 1, Zero)
Unsc(sv) == sv.st.scaling > 0 /\ sv.st.scaled_termination = 0    \* criteria are measured in the user's units

\* ------------------------------------------------------------------ residuals and objective of a point (scaled units in, info units out)
Resid(sv, x, z, y) ==
  LET n    == Len(sv.q)
      Ax   == MMulV(sv.A, x)  Px == MMulV(sv.P, x)  Aty == MTMulV(n, sv.A, y)
      pr   == VSub(Ax, z)
      dr   == VAdd(VAdd(sv.q, Px), Aty)
      un   == Unsc(sv)
      ci   == FDiv(One, sv.c)
      Ei   == VRecip(sv.E)  Di == VRecip(sv.D)
      U(v) == IF un THEN VNorm(VMul(Ei, v)) ELSE VNorm(v)
      W(v) == IF un THEN FMul(ci, VNorm(VMul(Di, v))) ELSE VNorm(v)
      xPx  == VDot(Px, x)  qx == VDot(sv.q, x)
      yp   == Deaden(Polar(y, sv.l, sv.u))
      sc   == Supp(yp, sv.l, sv.u)
      cs   == ci
      mag  == FMul(cs, FAdd(FAdd(FAbs(xPx), VDot(Tup([i \in 1..n |-> FAbs(sv.q[i])]), Tup([i \in 1..n |-> FAbs(x[i])]))), SuppAbs(yp, sv.l, sv.u)))
      gap  == FAdd(FAdd(xPx, qx), sc)
      prim == IF sv.m = 0 THEN Zero ELSE U(pr)
      dual == W(dr)
      pe   == VAdd(VAdd(MMulV(MAbs(sv.A), sv.ex), sv.ez), VScale(C("1e-15"), VAdd(VAbs(z), MMulV(MAbs(sv.A), VAbs(x)))))
      pde  == VAdd(VAbs(sv.q), VAdd(MMulV(MAbs(sv.P), VAbs(x)), MTMulV(n, MAbs(sv.A), VAbs(y))))
      de   == VAdd(VAdd(MMulV(MAbs(sv.P), sv.ex), MTMulV(n, MAbs(sv.A), sv.ey)), VScale(C("1e-15"), pde))
      pabs == FMul(C("1e-13"), FMul(cs, VDot(MMulV(MAbs(sv.P), VAbs(x)), VAbs(x))))
      oe   == FAdd(pabs, FMul(cs, FAdd(VDot(sv.ex, VAdd(VAbs(sv.q), VScale(FInt(2), MMulV(MAbs(sv.P), VAbs(x))))),
                            VDot(sv.ey, Tup([i \in 1..sv.m |-> FAdd(IF FLt(sv.u[i], INFTH) THEN FAbs(sv.u[i]) ELSE Zero, IF FLt(FNeg(INFTH), sv.l[i]) THEN FAbs(sv.l[i]) ELSE Zero)])))))
  IN [spr |-> IF sv.m = 0 THEN Zero ELSE VNorm(pr), sdr |-> VNorm(dr), prim |-> prim, dual |-> dual,
      pnorm |-> FMax(U(z), U(Ax)), dnorm |-> FMax(FMax(W(sv.q), W(Aty)), W(Px)),
      spn |-> FMax(VNorm(z), VNorm(Ax)), sdn |-> FMax(FMax(VNorm(sv.q), VNorm(Aty)), VNorm(Px)),
      xPx |-> xPx, qx |-> qx, sc |-> sc, sgap |-> gap, gap |-> FMul(cs, gap), mag |-> mag,
      pobj |-> FMul(cs, FAdd(FMul(C("0.5"), xPx), qx)), dobj |-> FMul(cs, FSub(FMul(C("-0.5"), xPx), sc)),
      kkt |-> FMax(FMax(dual, prim), FAbs(FMul(cs, gap))),
      \* bounds on the error of the above that the rounding of the iterates and of the products causes
      spe |-> VNorm(pe), sde |-> VNorm(de), pe |-> U(pe), de |-> W(de), oe |-> oe, pabs |-> pabs, dabs |-> VNorm(pde)]
ResidOf(sv) == Resid(sv, sv.x, sv.z, sv.y)

\* ------------------------------------------------------------------ infeasibility criteria (sets of possible outcomes)
PinfSet(sv, eps) ==
  LET n   == Len(sv.q)
      dy  == Polar(sv.dy, sv.l, sv.u)
      un  == Unsc(sv)
      nd  == IF un THEN VNorm(VMul(sv.E, dy)) ELSE VNorm(dy)
      fl  == IF un THEN FMul(sv.ny, VNorm(sv.E)) ELSE sv.ny
      lhs == Supp(dy, sv.l, sv.u)
      bmag == VNorm(Tup([i \in 1..Len(dy) |-> FAdd(IF FLt(sv.u[i], INFTH) THEN FAbs(sv.u[i]) ELSE Zero, IF FLt(FNeg(INFTH), sv.l[i]) THEN FAbs(sv.l[i]) ELSE Zero)]))
      at  == MTMulV(n, sv.A, dy)
      an  == IF un THEN VNorm(VMul(VRecip(sv.D), at)) ELSE VNorm(at)
      amag == FMul(sv.ny, VNorm(IF un THEN VMul(VRecip(sv.D), MColNorm(n, sv.A)) ELSE MColNorm(n, sv.A)))
      S1  == IF FLe(nd, fl) THEN IF FEq(nd, Zero) THEN {FALSE} ELSE BOOLEAN ELSE {TRUE}
      S2  == LtSet(lhs, Zero, FAdd(FMul(C("1e-10"), SuppAbs(dy, sv.l, sv.u)), FMul(FMul(FInt(8), sv.ny), bmag)))
      S3  == LtSet(an, FMul(eps, nd), FMul(FInt(8), amag))
  IN AndSets(S1, AndSets(S2, S3))
DinfSet(sv, eps) ==
  LET n   == Len(sv.q)
      un  == Unsc(sv)
      nd  == IF un THEN VNorm(VMul(sv.D, sv.dx)) ELSE VNorm(sv.dx)
      fl  == IF un THEN FMul(sv.nx, VNorm(sv.D)) ELSE sv.nx
      cs  == IF un THEN sv.c ELSE One
      qd  == VDot(sv.q, sv.dx)
      Pd  == MMulV(sv.P, sv.dx)
      pn  == IF un THEN VNorm(VMul(VRecip(sv.D), Pd)) ELSE VNorm(Pd)
      pmag == FMul(sv.nx, VNorm(IF un THEN VMul(VRecip(sv.D), MRowNorm(sv.P)) ELSE MRowNorm(sv.P)))
      Ad0 == MMulV(sv.A, sv.dx)
      Ad  == IF un THEN VMul(VRecip(sv.E), Ad0) ELSE Ad0
      ar  == IF un THEN VMul(VRecip(sv.E), MRowNorm(sv.A)) ELSE MRowNorm(sv.A)
      th  == FMul(eps, nd)
      S1  == IF FLe(nd, fl) THEN IF FEq(nd, Zero) THEN {FALSE} ELSE BOOLEAN ELSE {TRUE}
      S2  == LtSet(qd, Zero, FMul(FMul(FInt(8), sv.nx), VNorm(sv.q)))
      S3  == LtSet(pn, FMul(cs, th), FMul(FInt(8), pmag))
      afl(i) == FMul(FMul(FInt(8), sv.nx), ar[i])
      ok(i) == AndSets(IF FLt(sv.u[i], INFTH) THEN {~b : b \in LtSet(th, Ad[i], afl(i))} ELSE {TRUE},
                       IF FLt(FNeg(INFTH), sv.l[i]) THEN {~b : b \in LtSet(Ad[i], FNeg(th), afl(i))} ELSE {TRUE})
      S4  == {b \in BOOLEAN : IF b THEN \A i \in 1..sv.m : TRUE \in ok(i) ELSE \E i \in 1..sv.m : FALSE \in ok(i)}
  IN AndSets(AndSets(S1, S2), AndSets(S3, S4))

\* ------------------------------------------------------------------ termination verdicts: subset of {"none","solved","pinf","dinf","ncvx"}
Tol(sv, inac, abs, rel) == IF inac THEN FMul(FInt(10), FAdd(abs, rel)) ELSE FAdd(abs, rel)
Verdicts(sv, r, inac) ==
  LET k      == IF inac THEN FInt(10) ELSE One
      ea     == FMul(k, sv.st.eps_abs)  er == FMul(k, sv.st.eps_rel)
      big    == LtSet(INFTY, r.prim, r.pe) \union LtSet(INFTY, r.dual, r.de)
      \* an overflow of the iterates: the norms pass over a NaN, the objective does not
      bigSure == FLt(FAdd(FMul(C("1.00001"), INFTY), r.pe), r.prim) \/ FLt(FAdd(FMul(C("1.00001"), INFTY), r.de), r.dual) \/ FIsNaN(r.prim) \/ FIsNaN(r.dual) \/ FIsNaN(r.pobj)
      pS     == IF sv.m = 0 THEN {TRUE} ELSE LtSet(r.prim, FAdd(ea, FMul(er, r.pnorm)), FAdd(FMul(C("1e-13"), r.pnorm), r.pe))
      dS     == LtSet(r.dual, FAdd(ea, FMul(er, r.dnorm)), FAdd(FMul(C("1e-13"), r.dnorm), r.de))
      un     == Unsc(sv)
      gm0    == FMax(FMax(FAbs(r.xPx), FAbs(r.qx)), FAbs(r.sc))
      gm     == IF un THEN FDiv(gm0, sv.c) ELSE gm0
      g      == IF un THEN FAbs(r.gap) ELSE FAbs(r.sgap)
      gS     == IF sv.st.check_dualgap = 0 THEN {TRUE}
                ELSE LtSet(g, FAdd(ea, FMul(er, gm)), FAdd(FMul(C("1e-13"), r.mag), IF un THEN r.oe ELSE FMul(sv.c, r.oe)))
      piS    == IF TRUE \in pS /\ FALSE \notin pS THEN {FALSE} ELSE PinfSet(sv, FMul(k, sv.st.eps_prim_inf))
      diS    == IF TRUE \in dS /\ FALSE \notin dS THEN {FALSE} ELSE DinfSet(sv, FMul(k, sv.st.eps_dual_inf))
      pick(p, d, gg, pi, di) == IF p /\ d /\ gg THEN "solved" ELSE IF ~p /\ pi THEN "pinf" ELSE IF ~d /\ di THEN "dinf" ELSE "none"
      normal == {pick(p, d, gg, pi, di) : p \in pS, d \in dS, gg \in gS, pi \in piS, di \in diS}
  IN IF bigSure THEN {"ncvx"} ELSE IF TRUE \in big THEN {"ncvx"} \union normal ELSE normal

\* ------------------------------------------------------------------ step-size estimate
RhoEstimate(sv, r) ==
  LET p == FDiv(r.spr, FAdd(r.spn, DIVTOL))
      d == FDiv(r.sdr, FAdd(r.sdn, DIVTOL))
  IN ClipRho(FMul(sv.st.rho, FSqrt(FDiv(p, d))))
\* the estimate is dominated by rounding noise (a residual is at noise level without being exactly zero by construction)
RhoNoisy(sv, r) == (sv.m > 0 /\ FLe(r.spr, FMul(C("1e5"), r.spe))) \/ FLe(r.sdr, FMul(C("1e5"), r.sde))
\* what the estimate can be, given the rounding in the residuals it is computed from
RhoRange(sv, r) ==
  LET f(v, e, g) == FMax(Zero, FAdd(v, FMul(FInt(g), e)))
      pl == FDiv(f(r.spr, r.spe, -10), FAdd(r.spn, DIVTOL))  ph == FDiv(f(r.spr, r.spe, 10), FAdd(r.spn, DIVTOL))
      dl == FDiv(f(r.sdr, r.sde, -10), FAdd(r.sdn, DIVTOL))  dh == FDiv(f(r.sdr, r.sde, 10), FAdd(r.sdn, DIVTOL))
      at(p, d) == IF d = Zero THEN IF p = Zero THEN RHO_MIN ELSE RHO_MAX ELSE ClipRho(FMul(sv.st.rho, FSqrt(FDiv(p, d))))
  IN <<FMul(C("0.99999"), IF dh = Zero THEN RHO_MIN ELSE at(pl, dh)), FMul(C("1.00001"), IF dl = Zero THEN RHO_MAX ELSE at(ph, dl))>>
RhoChangeSet(sv, r, est) ==
  IF RhoNoisy(sv, r)
  THEN LET g == RhoRange(sv, r)  a == FMul(sv.st.rho, sv.st.adaptive_rho_tolerance)  b == FDiv(sv.st.rho, sv.st.adaptive_rho_tolerance) IN
       (IF FLt(a, g[2]) \/ FLt(g[1], b) THEN {TRUE} ELSE {}) \union (IF FLe(g[1], a) /\ FLe(b, g[2]) THEN {FALSE} ELSE {})
  ELSE
  LET Set(a, b) == IF est = RHO_MIN \/ est = RHO_MAX THEN {FLt(a, b)} ELSE LtSet(a, b, Zero)   \* a clipped estimate is exact
      up   == Set(FMul(sv.st.rho, sv.st.adaptive_rho_tolerance), est)
      down == Set(est, FDiv(sv.st.rho, sv.st.adaptive_rho_tolerance))
  IN {p \/ q : p \in up, q \in down}

\* ------------------------------------------------------------------ polishing
\* the side of its constraint a row is active at: "l" (lower), "u" (upper), "n" (not active); the set of what rounding allows
SideSet(sv, i) ==
  LET a == FSub(sv.z[i], sv.l[i])  b == FSub(sv.u[i], sv.z[i])  y == sv.y[i]
      t == FAdd(FAdd(C("1e-11"), FMul(C("1e-9"), FMax(FAbs(sv.z[i]), FAbs(y)))), FAdd(sv.ez[i], sv.ey[i]))
      low == IF FLe(FAbs(FAdd(a, y)), t) THEN BOOLEAN ELSE {FLt(a, FNeg(y))}
      upp == IF FLe(FAbs(FSub(b, y)), t) THEN BOOLEAN ELSE {FLt(b, y)}
  IN IF FEq(sv.l[i], sv.u[i]) THEN {"l"} ELSE {IF p THEN "l" ELSE IF q THEN "u" ELSE "n" : p \in low, q \in upp}
RECURSIVE SidesUpTo(_, _)
SidesUpTo(sv, i) == IF i = 0 THEN {<<>>} ELSE {Append(f, x) : f \in SidesUpTo(sv, i - 1), x \in SideSet(sv, i)}
Sides(sv) == SidesUpTo(sv, sv.m)
PolishAmb(sv) == Cardinality({i \in 1..sv.m : Cardinality(SideSet(sv, i)) > 1}) > 3     \* too many to follow
\* the active rows and their right-hand side
ActSet(sd) == SelectSeq([i \in 1..Len(sd) |-> i], LAMBDA i : sd[i] # "n")
ActRows(sv, act) == Tup([j \in 1..Len(act) |-> sv.A[act[j]]])
ActRhs(sv, sd, act) == Tup([j \in 1..Len(act) |-> IF sd[act[j]] = "l" THEN sv.l[act[j]] ELSE sv.u[act[j]]])
\* the polished point that belongs to a solution s (x and active multipliers, error bounds e) of the equality-constrained problem
PointOf(sv, act, s, e) ==
  LET n   == Len(sv.q)
      x   == SubSeq(s, 1, n)
      at(i) == CHOOSE j \in 1..Len(act) : act[j] = i
      isa(i) == \E j \in 1..Len(act) : act[j] = i
      y0  == Tup([i \in 1..sv.m |-> IF isa(i) THEN s[n + at(i)] ELSE Zero])
      z0  == VAdd(y0, MMulV(sv.A, x))
      z   == VClamp(z0, sv.l, sv.u)
      ey  == Tup([i \in 1..sv.m |-> IF isa(i) THEN e[n + at(i)] ELSE Zero])
      ez  == VAdd(MMulV(MAbs(sv.A), SubSeq(e, 1, n)), VScale(C("1e-15"), VAdd(VAbs(y0), VAbs(z0))))
  IN [sv EXCEPT !.x = x, !.z = z, !.y = VSub(z0, z), !.ex = SubSeq(e, 1, n), !.ez = ez, !.ey = VAdd(ey, ez)]
RECURSIVE Refine(_, _, _, _, _)
Refine(K, Kd, b, s, k) == IF k = 0 THEN s ELSE Refine(K, Kd, b, VAdd(s, LinSolve(Kd, VSub(b, MMulV(K, s)))), k - 1)
\* [out: "noactive" | "point", s: the state with the polished point]
PolishPoint(sv, sd) ==
  LET n   == Len(sv.q)
      act == ActSet(sd)  k == Len(act)
      Ar  == ActRows(sv, act)
      b   == VScale(FInt(-1), sv.q) \o ActRhs(sv, sd, act)
      K   == Kkt(sv.P, Ar, Zero, VFill(k, Zero))
      Kd  == Kkt(sv.P, Ar, sv.st.delta, VFill(k, sv.st.delta))
      s   == Refine(K, Kd, b, LinSolve(Kd, b), sv.st.polish_refine_iter)
  IN IF k = 0 THEN [out |-> "noactive", s |-> sv]
     ELSE [out |-> "point", s |-> PointOf(sv, act, s, VScale(FInt(10), LinErr(Kd, s)))]
\* the same with the indirect solver: solves number j.. of the records gs; [out, s, faults]
RECURSIVE CgRefine(_, _, _, _, _, _, _)
CgRefine(sv, Ar, K, b, gs, j, a) ==     \* a: [s: solution so far, e: rounding in it, f: faults]
  IF j > Len(gs) THEN a
  ELSE LET n   == sv.n  k == Len(Ar)
           rhs == VSub(b, MMulV(K, a.s))
           r1  == SubSeq(rhs, 1, n)  r2 == SubSeq(rhs, n + 1, n + k)
           rho == VFill(k, FDiv(One, sv.st.delta))
           bn  == RhsNorm(sv, Ar, rho, r1, r2)
           rr  == VAdd(VScale(C("1e-15"), VAdd(VAbs(b), MMulV(MAbs(K), VAbs(a.s)))), MMulV(MAbs(K), a.e))   \* a.e: rounding in the point refined
           err == RhsNorm(sv, MAbs(Ar), rho, SubSeq(rr, 1, n), SubSeq(rr, n + 1, n + k))
           t(v) == FMax(FMul(v, C("1e-5")), CgTolMin)
           g   == gs[j]
           nu  == VMul(rho, VSub(MMulV(Ar, g.x), r2))
           en  == VMul(rho, VAdd(SubSeq(rr, n + 1, n + k), VScale(C("1e-15"), MMulV(MAbs(Ar), VAbs(g.x)))))
       IN CgRefine(sv, Ar, K, b, gs, j + 1,
            [s |-> VAdd(a.s, g.x \o nu), e |-> VAdd(a.e, VFill(n, FMul(C("2e-16"), VNorm(g.x))) \o en),
             f |-> a.f \union CgFaults(sv, Ar, sv.st.delta, rho, r1, r2, err, g, t(FSub(bn, err)), t(FAdd(bn, err)))])
CgPolishPoint(sv, sd, gs) ==
  LET act == ActSet(sd)  k == Len(act)
      Ar  == ActRows(sv, act)
      b   == VScale(FInt(-1), sv.q) \o ActRhs(sv, sd, act)
      a   == CgRefine(sv, Ar, Kkt(sv.P, Ar, Zero, VFill(k, Zero)), b, gs, 1, [s |-> VFill(sv.n + k, Zero), e |-> VFill(sv.n + k, Zero), f |-> {}])
  IN IF k = 0 THEN [out |-> "noactive", s |-> sv, n |-> 0, f |-> {}]
     ELSE [out |-> "point", s |-> PointOf(sv, act, a.s, VScale(FInt(10), a.e)), n |-> 1 + sv.st.polish_refine_iter, f |-> a.f]
\* success test of the polished residuals pr against those of the ADMM point r, as the set of possible outcomes
PolishSet(sv, r, pr) ==
  LET fp == FAdd(FMul(C("1e-12"), FAdd(One, r.pnorm)), FAdd(r.pe, pr.pe))  fd == FAdd(FMul(C("1e-12"), FAdd(One, r.dnorm)), FAdd(r.de, pr.de))  tiny == C("1e-10")
      p == IF sv.m = 0 THEN {FALSE} ELSE LtSet(pr.prim, r.prim, fp)
      d == LtSet(pr.dual, r.dual, fd)
      dt == LtSet(pr.dual, tiny, FAdd(C("1e-12"), pr.de))  pt == LtSet(pr.prim, tiny, FAdd(C("1e-12"), pr.pe))
  IN {(a /\ b) \/ (a /\ e) \/ (b /\ f) : a \in p, b \in d, e \in dt, f \in pt}
=============================================================================

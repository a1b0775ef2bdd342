------------------------------- MODULE VecTest -------------------------------
(* The accelerated operators of Vec (Vec.class) against their definitions in Vec.tla, and Num.class against results computed
   elsewhere.  VecDef is Vec.tla under another name, so that TLC evaluates its text (generated, see lib/models.py); NumCases
   is a generated table of IEEE results.  Every state is one choice of arguments. *)
EXTENDS Vec, NumCases
D == INSTANCE VecDef
Vals == {FLit("0"), FLit("-1.5"), FLit("2"), FLit("3e-7"), FLit("-1e30")}
Vecs(k) == [1..k -> Vals]
Few  == {FLit("1.25"), FLit("-3"), FLit("0")}
Mats(a, b) == [1..a -> [1..b -> Few]]
VARIABLES x, y, M
Init == \/ \E k \in 0..2 : x \in Vecs(k) /\ y \in Vecs(k) /\ M = <<>>
        \/ \E a \in 1..2, b \in 1..2 : M \in Mats(a, b) /\ x \in [1..b -> Few \union {FLit("1e-3")}] /\ y \in [1..a -> Few \union {FLit("7")}]
Next == UNCHANGED <<x, y, M>>
Spec == Init /\ [][Next]_<<x, y, M>>
\* a definition yields a function, an override a tuple: equal as functions
S(f, g) == DOMAIN f = DOMAIN g /\ \A i \in DOMAIN f : f[i] = g[i]
SM(f, g) == DOMAIN f = DOMAIN g /\ \A i \in DOMAIN f : S(f[i], g[i])
VecOps ==
  M = <<>> =>
  /\ S(D!VAdd(x, y), VAdd(x, y)) /\ S(D!VSub(x, y), VSub(x, y)) /\ S(D!VMul(x, y), VMul(x, y))
  /\ \A a \in Few : S(D!VScale(a, x), VScale(a, x)) /\ S(D!VAxpby(a, x, FLit("0.7"), y), VAxpby(a, x, FLit("0.7"), y)) /\ S(D!VFill(Len(x), a), VFill(Len(x), a))
  /\ D!VDot(x, y) = VDot(x, y) /\ D!VNorm(x) = VNorm(x) /\ D!VNorm1(x) = VNorm1(x) /\ S(D!VAbs(x), VAbs(x)) /\ S(D!VMaxV(x, y), VMaxV(x, y))
  /\ S(D!VRecip(VAdd(x, VFill(Len(x), FLit("0.25")))), VRecip(VAdd(x, VFill(Len(x), FLit("0.25"))))) /\ S(D!VSqrt(VAbs(x)), VSqrt(VAbs(x)))
  /\ S(D!VClamp(x, VFill(Len(x), FLit("-1")), y), VClamp(x, VFill(Len(x), FLit("-1")), y))
  /\ \A t \in {FLit("0"), FLit("1.5"), FLit("2.5")} : D!VNear(x, y, t) = VNear(x, y, t)
MatOps ==
  M # <<>> =>
  LET b == Len(M[1]) IN
  /\ S(D!MMulV(M, x), MMulV(M, x)) /\ S(D!MTMulV(b, M, y), MTMulV(b, M, y)) /\ SM(D!MAbs(M), MAbs(M)) /\ SM(D!MDiagL(y, M), MDiagL(y, M)) /\ SM(D!MDiagR(M, x), MDiagR(M, x))
  /\ SM(D!MScale(FLit("-0.3"), M), MScale(FLit("-0.3"), M)) /\ S(D!MRowNorm(M), MRowNorm(M)) /\ S(D!MColNorm(b, M), MColNorm(b, M))
  /\ (Len(M) = b => S(D!MTriuColNorm(M), MTriuColNorm(M)))
\* M M' + I is a symmetric matrix to build a KKT system from
Systems ==
  M # <<>> =>
  LET k == Len(M)  b == Len(M[1])
      P == Tup([i \in 1..k |-> Tup([j \in 1..k |-> FAdd(VDot(M[i], M[j]), IF i = j THEN One ELSE Zero)])])
      A == Tup([i \in 1..b |-> Tup([j \in 1..k |-> M[j][i]])])
      w == VFill(b, FLit("0.5"))
      K == Kkt(P, A, FLit("0.125"), w)
      r == y \o x
      s == LinSolve(K, r)
  IN /\ SM(D!Kkt(P, A, FLit("0.125"), w), K)
     /\ VNear(D!MMulV(K, s), r, FLit("1e-12"))
     /\ \A i \in 1..Len(K) : VNear(InvAbs(K)[i], D!InvAbs(K)[i], FLit("1e-12"))
     /\ \A i \in 1..Len(K) : VNear(Growth(K)[i], D!Growth(K)[i], FLit("1e-9"))
     /\ LET e == RoundRhs(K, s)  d == D!RoundRhs(K, s) IN VNear(e, d, FMul(FLit("1e-12"), VNorm(d)))
     /\ LET e == LinErr(K, s)  d == D!LinErr(K, s) IN VNear(e, d, FMul(FLit("1e-12"), VNorm(d)))
Numbers == NumCasesHold
=============================================================================

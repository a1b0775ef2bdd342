-------------------------------- MODULE Vec --------------------------------
(* Vectors (sequences of doubles) and dense matrices (sequences of rows).  Every definition is executable by TLC;
   Vec.class overrides them for speed and VecTest.tla checks override = definition. *)
EXTENDS Num, TLC
Zero == FLit("0")
One  == FLit("1")
RECURSIVE FoldAdd(_, _, _)
FoldAdd(f, i, acc) == IF i > Len(f) THEN acc ELSE FoldAdd(f, i + 1, FAdd(acc, f[i]))
RECURSIVE FoldMax(_, _, _)
FoldMax(f, i, acc) == IF i > Len(f) THEN acc ELSE FoldMax(f, i + 1, FMax(FAbs(f[i]), acc))
Tup(f)         == f                                        \* forces an explicit tuple
VAdd(x, y)     == [i \in 1..Len(x) |-> FAdd(x[i], y[i])]
VSub(x, y)     == [i \in 1..Len(x) |-> FSub(x[i], y[i])]
VMul(x, y)     == [i \in 1..Len(x) |-> FMul(x[i], y[i])]
VScale(a, x)   == [i \in 1..Len(x) |-> FMul(a, x[i])]
VAxpby(a, x, b, y) == [i \in 1..Len(x) |-> FAdd(FMul(a, x[i]), FMul(b, y[i]))]
VDot(x, y)     == FoldAdd([i \in 1..Len(x) |-> FMul(x[i], y[i])], 1, Zero)
VNorm(x)       == FoldMax(x, 1, Zero)                      \* infinity norm
VNorm1(x)      == FoldAdd([i \in 1..Len(x) |-> FAbs(x[i])], 1, Zero)
VFill(k, a)    == [i \in 1..k |-> a]
VAbs(x)        == [i \in 1..Len(x) |-> FAbs(x[i])]
MAbs(M)        == [i \in 1..Len(M) |-> VAbs(M[i])]
VRecip(x)      == [i \in 1..Len(x) |-> FDiv(One, x[i])]
VSqrt(x)       == [i \in 1..Len(x) |-> FSqrt(x[i])]
VMaxV(x, y)    == [i \in 1..Len(x) |-> FMax(x[i], y[i])]
VClamp(x, l, u) == [i \in 1..Len(x) |-> FMin(FMax(x[i], l[i]), u[i])]   \* projection onto [l, u]
MMulV(M, x)    == [i \in 1..Len(M) |-> VDot(M[i], x)]
MTMulV(k, M, y) == [j \in 1..k |-> FoldAdd([i \in 1..Len(M) |-> FMul(M[i][j], y[i])], 1, Zero)]  \* M'y, M has k columns
MDiagL(d, M)   == [i \in 1..Len(M) |-> VScale(d[i], M[i])]
MDiagR(M, d)   == [i \in 1..Len(M) |-> VMul(M[i], d)]
MScale(a, M)   == [i \in 1..Len(M) |-> VScale(a, M[i])]
MRowNorm(M)    == [i \in 1..Len(M) |-> VNorm(M[i])]
MColNorm(k, M) == [j \in 1..k |-> FoldMax([i \in 1..Len(M) |-> M[i][j]], 1, Zero)]
MTriuColNorm(M) == [j \in 1..Len(M) |-> FoldMax([i \in 1..j |-> M[i][j]], 1, Zero)]  \* columns of the upper triangle
\* the quasidefinite KKT matrix [P + s I, A'; A, -diag(w)]
Kkt(P, A, s, w) == LET n == Len(P) m == Len(A) IN
   [i \in 1..(n + m) |-> [j \in 1..(n + m) |->
      IF i <= n THEN IF j <= n THEN IF i = j THEN FAdd(P[i][j], s) ELSE P[i][j] ELSE A[j - n][i]
      ELSE IF j <= n THEN A[i - n][j] ELSE IF i = j THEN FNeg(w[i - n]) ELSE Zero]]
\* |x - y| <= tol * scale componentwise
VNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : FLe(FAbs(FSub(x[i], y[i])), tol)
\* the solution of the square system K s = b: any s with a residual at rounding level.  Evaluated by Gaussian
\* elimination with partial pivoting and one refinement step (Vec.class); VecTest.tla checks the residual.
LinSolve(K, b) == CHOOSE s \in Seq(Nat \X Nat) : VNear(MMulV(K, s), b, FLit("1e-12"))
\* |K^-1| entry by entry
InvAbs(K) == [i \in 1..Len(K) |-> [j \in 1..Len(K) |-> FAbs(LinSolve(K, [k \in 1..Len(K) |-> IF k = j THEN One ELSE Zero])[i])]]
\* the largest magnitude an entry can take while K is eliminated, whatever the order of the pivots: over all sets of at
\* most d pivots (what is left after eliminating a set does not depend on the order)
Elim(K, k) == [i \in 1..Len(K) |-> [j \in 1..Len(K) |-> IF i = k \/ j = k THEN Zero ELSE FSub(K[i][j], FMul(FDiv(K[i][k], K[k][k]), K[k][j]))]]
RECURSIVE GrowthIn(_, _, _)
GrowthIn(K, left, d) ==
  LET sub == IF d = 0 THEN {} ELSE {GrowthIn(Elim(K, k), left \ {k}, d - 1) : k \in {h \in left : K[h][h] # Zero}}
      vals(i, j) == {FAbs(K[i][j])} \union {M[i][j] : M \in sub}
  IN [i \in 1..Len(K) |-> [j \in 1..Len(K) |-> CHOOSE v \in vals(i, j) : \A t \in vals(i, j) : FLe(t, v)]]
Growth(K) == GrowthIn(K, 1..Len(K), IF Len(K) <= 9 THEN Len(K) ELSE 2)
\* a bound on the rounding error of a factorisation of K with any order of elimination but no numerical pivoting:
\* eps |K^-1| growth(K) |s|, where a pivot below 1e-13 of the norm of K may have been replaced by that amount
RoundRhs(K, s) ==
  LET N == Len(s)
      G == Growth(K)
      pert == FMul(FLit("1e-13"), FoldMax([i \in 1..N |-> VNorm1(K[i])], 1, Zero))
  IN [i \in 1..N |-> FAdd(FMul(FLit("4e-16"), FoldAdd([j \in 1..N |-> FMul(G[i][j], FAbs(s[j]))], 1, Zero)),
                           IF FLe(FAbs(K[i][i]), pert) THEN FMul(pert, FAbs(s[i])) ELSE Zero)]
LinErr(K, s) == MMulV(InvAbs(K), RoundRhs(K, s))
=============================================================================

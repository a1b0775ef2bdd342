import tlc2.value.impl.*;

/** Accelerated versions of the operators defined in Vec.tla (VecTest.tla compares the two). */
public final class Vec {
  static Value[] es(Value v) {
    TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }
  static double[] a(Value v) { Value[] e = es(v); double[] r = new double[e.length]; for (int i = 0; i < r.length; i++) r[i] = Num.d(e[i]); return r; }
  static double[][] m(Value v) { Value[] e = es(v); double[][] r = new double[e.length][]; for (int i = 0; i < r.length; i++) r[i] = a(e[i]); return r; }
  static Value w(double[] x) { Value[] e = new Value[x.length]; for (int i = 0; i < e.length; i++) e[i] = Num.v(x[i]); return new TupleValue(e); }
  static Value wm(double[][] x) { Value[] e = new Value[x.length]; for (int i = 0; i < e.length; i++) e[i] = w(x[i]); return new TupleValue(e); }
  static int n(Value v) { return ((IntValue) v).val; }
  public static Value Tup(Value f) { return new TupleValue(es(f)); }
  public static Value VAdd(Value X, Value Y) { double[] x = a(X), y = a(Y); for (int i = 0; i < x.length; i++) x[i] += y[i]; return w(x); }
  public static Value VSub(Value X, Value Y) { double[] x = a(X), y = a(Y); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return w(x); }
  public static Value VMul(Value X, Value Y) { double[] x = a(X), y = a(Y); for (int i = 0; i < x.length; i++) x[i] *= y[i]; return w(x); }
  public static Value VScale(Value A, Value X) { double s = Num.d(A); double[] x = a(X); for (int i = 0; i < x.length; i++) x[i] *= s; return w(x); }
  public static Value VAxpby(Value A, Value X, Value B, Value Y) { double s = Num.d(A), t = Num.d(B); double[] x = a(X), y = a(Y); for (int i = 0; i < x.length; i++) x[i] = s * x[i] + t * y[i]; return w(x); }
  static double dot(double[] x, double[] y) { double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return s; }
  public static Value VDot(Value X, Value Y) { return Num.v(dot(a(X), a(Y))); }
  public static Value VNorm(Value X) { double s = 0; for (double t : a(X)) s = Num.max(Math.abs(t), s); return Num.v(s); }
  public static Value VNorm1(Value X) { double s = 0; for (double t : a(X)) s += Math.abs(t); return Num.v(s); }
  public static Value VFill(Value K, Value A) { double[] x = new double[n(K)]; java.util.Arrays.fill(x, Num.d(A)); return w(x); }
  public static Value VRecip(Value X) { double[] x = a(X); for (int i = 0; i < x.length; i++) x[i] = 1 / x[i]; return w(x); }
  public static Value VAbs(Value X) { double[] x = a(X); for (int i = 0; i < x.length; i++) x[i] = Math.abs(x[i]); return w(x); }
  public static Value MAbs(Value M) { double[][] p = m(M); for (double[] x : p) for (int i = 0; i < x.length; i++) x[i] = Math.abs(x[i]); return wm(p); }
  public static Value VSqrt(Value X) { double[] x = a(X); for (int i = 0; i < x.length; i++) x[i] = Math.sqrt(x[i]); return w(x); }
  public static Value VMaxV(Value X, Value Y) { double[] x = a(X), y = a(Y); for (int i = 0; i < x.length; i++) x[i] = Num.max(x[i], y[i]); return w(x); }
  public static Value VClamp(Value X, Value L, Value U) { double[] x = a(X), l = a(L), u = a(U); for (int i = 0; i < x.length; i++) x[i] = Num.min(Num.max(x[i], l[i]), u[i]); return w(x); }
  public static Value MMulV(Value M, Value X) { double[][] p = m(M); double[] x = a(X), r = new double[p.length]; for (int i = 0; i < r.length; i++) r[i] = dot(p[i], x); return w(r); }
  public static Value MTMulV(Value K, Value M, Value Y) { double[][] p = m(M); double[] y = a(Y), r = new double[n(K)]; for (int i = 0; i < p.length; i++) for (int j = 0; j < r.length; j++) r[j] += p[i][j] * y[i]; return w(r); }
  public static Value MDiagL(Value D, Value M) { double[] d = a(D); double[][] p = m(M); for (int i = 0; i < p.length; i++) for (int j = 0; j < p[i].length; j++) p[i][j] *= d[i]; return wm(p); }
  public static Value MDiagR(Value M, Value D) { double[] d = a(D); double[][] p = m(M); for (int i = 0; i < p.length; i++) for (int j = 0; j < p[i].length; j++) p[i][j] *= d[j]; return wm(p); }
  public static Value MScale(Value S, Value M) { double s = Num.d(S); double[][] p = m(M); for (int i = 0; i < p.length; i++) for (int j = 0; j < p[i].length; j++) p[i][j] *= s; return wm(p); }
  public static Value MRowNorm(Value M) { double[][] p = m(M); double[] r = new double[p.length]; for (int i = 0; i < r.length; i++) for (double t : p[i]) r[i] = Num.max(Math.abs(t), r[i]); return w(r); }
  public static Value MColNorm(Value K, Value M) { double[][] p = m(M); double[] r = new double[n(K)]; for (int i = 0; i < p.length; i++) for (int j = 0; j < r.length; j++) r[j] = Num.max(Math.abs(p[i][j]), r[j]); return w(r); }
  public static Value MTriuColNorm(Value M) { double[][] p = m(M); double[] r = new double[p.length]; for (int i = 0; i < p.length; i++) for (int j = i; j < r.length; j++) r[j] = Num.max(Math.abs(p[i][j]), r[j]); return w(r); }
  public static Value Kkt(Value PP, Value AA, Value S, Value W) {
    double[][] P = m(PP), A = m(AA); double s = Num.d(S); double[] q = a(W); int n = P.length, k = A.length; double[][] K = new double[n + k][n + k];
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) K[i][j] = P[i][j]; K[i][i] = P[i][i] + s; }
    for (int i = 0; i < k; i++) { for (int j = 0; j < n; j++) { K[n + i][j] = A[i][j]; K[j][n + i] = A[i][j]; } K[n + i][n + i] = -q[i]; }
    return wm(K);
  }
  public static Value VNear(Value X, Value Y, Value T) { double[] x = a(X), y = a(Y); double t = Num.d(T); if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (!(Math.abs(x[i] - y[i]) <= t)) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  // elimination with partial pivoting: rows of the factors, permutation
  static int[] factor(double[][] K, double[][] L) {
    int n = K.length; int[] p = new int[n];
    for (int i = 0; i < n; i++) { L[i] = K[i].clone(); p[i] = i; }
    for (int k = 0; k < n; k++) {
      int q = k; for (int i = k + 1; i < n; i++) if (Math.abs(L[i][k]) > Math.abs(L[q][k])) q = i;
      double[] t = L[k]; L[k] = L[q]; L[q] = t; int u = p[k]; p[k] = p[q]; p[q] = u;
      for (int i = k + 1; i < n; i++) { double f = L[i][k] / L[k][k]; L[i][k] = f; if (f != 0) for (int j = k + 1; j < n; j++) L[i][j] -= f * L[k][j]; }
    }
    return p;
  }
  static double[] solve(double[][] K, double[][] L, int[] p, double[] b) {
    int n = b.length; double[] x = sub(L, p, b);
    for (int it = 0; it < 2; it++) { double[] r = new double[n]; for (int i = 0; i < n; i++) r[i] = b[i] - dot(K[i], x); double[] c = sub(L, p, r); for (int i = 0; i < n; i++) x[i] += c[i]; }
    return x;
  }
  public static Value LinSolve(Value KK, Value B) { double[][] K = m(KK), L = new double[K.length][]; int[] p = factor(K, L); return w(solve(K, L, p, a(B))); }
  public static Value InvAbs(Value KK) {
    double[][] K = m(KK), L = new double[K.length][]; int[] p = factor(K, L); int n = K.length; double[][] r = new double[n][n];
    for (int j = 0; j < n; j++) { double[] u = new double[n]; u[j] = 1; double[] c = solve(K, L, p, u); for (int i = 0; i < n; i++) r[i][j] = Math.abs(c[i]); }
    return wm(r);
  }
  // the largest magnitude an entry can take in the elimination of K, whatever the order: over all sets of at most d pivots
  static void grow(double[][] K, int from, int d, boolean[] gone, double[][] G) {
    int n = K.length;
    for (int i = 0; i < n; i++) if (!gone[i]) for (int j = 0; j < n; j++) if (!gone[j]) G[i][j] = Num.max(Math.abs(K[i][j]), G[i][j]);
    if (d == 0) return;
    for (int k = from; k < n; k++) {
      double p = K[k][k]; if (p == 0) continue;
      double[][] S = new double[n][];
      for (int i = 0; i < n; i++) { S[i] = K[i].clone(); if (!gone[i] && i != k && K[i][k] != 0) { double f = K[i][k] / p; for (int j = 0; j < n; j++) S[i][j] -= f * K[k][j]; } }
      gone[k] = true; grow(S, k + 1, d - 1, gone, G); gone[k] = false;
    }
  }
  static final java.util.Map<String, double[][]> seen = new java.util.concurrent.ConcurrentHashMap<>();
  static double[][] growth(double[][] K) {
    String key = java.util.Arrays.deepToString(K); double[][] G = seen.get(key);
    if (G == null) { int n = K.length; G = new double[n][n]; grow(K, 0, n <= 9 ? n : 2, new boolean[n], G); if (seen.size() > 5000) seen.clear(); seen.put(key, G); }
    return G;
  }
  public static Value Growth(Value KK) { double[][] G = growth(m(KK)), r = new double[G.length][]; for (int i = 0; i < r.length; i++) r[i] = G[i].clone(); return wm(r); }
  public static Value RoundRhs(Value KK, Value S) {
    double[][] K = m(KK), G = growth(K); double[] s = a(S); int n = s.length; double[] r = new double[n]; double pert = 0;
    for (double[] row : K) { double t = 0; for (double v : row) t += Math.abs(v); pert = Num.max(t, pert); }
    pert *= 1e-13;
    for (int j = 0; j < n; j++) {
      double t = 0;
      for (int k = 0; k < n; k++) t += G[j][k] * Math.abs(s[k]);
      r[j] = 4e-16 * t + (Math.abs(K[j][j]) <= pert ? pert * Math.abs(s[j]) : 0);
    }
    return w(r);
  }
  static double[] sub(double[][] L, int[] p, double[] b) {
    int n = b.length; double[] x = new double[n];
    for (int i = 0; i < n; i++) { double s = b[p[i]]; for (int j = 0; j < i; j++) s -= L[i][j] * x[j]; x[i] = s; }
    for (int i = n - 1; i >= 0; i--) { double s = x[i]; for (int j = i + 1; j < n; j++) s -= L[i][j] * x[j]; x[i] = s / L[i][i]; }
    return x;
  }
}

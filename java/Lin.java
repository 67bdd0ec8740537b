import tlc2.value.impl.*;

/** Eager evaluation of the operators of spec/Lin.tla (same definitions; LinSelf.tla compares the two). */
public class Lin {
  static Value[] seq(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }
  static double[] vec(Value v) {
    Value[] e = seq(v);
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = RealNum.d(e[i]);
    return r;
  }
  static double[][] mat(Value v) {
    Value[] e = seq(v);
    double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value vec(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = RealNum.v(x[i]);
    return new TupleValue(e);
  }
  static Value mat(double[][] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = vec(x[i]);
    return new TupleValue(e);
  }
  static int n(Value v) { return ((IntValue) v).val; }

  public static Value RSum(Value u) { double s = 0; for (double x : vec(u)) s += x; return RealNum.v(s); }
  public static Value VZero(Value k) { return vec(new double[n(k)]); }
  public static Value VUnit(Value k, Value i) { double[] r = new double[n(k)]; r[n(i) - 1] = 1; return vec(r); }
  static double[] lin(double a, double[] u, double b, double[] v) {
    double[] r = new double[u.length];
    for (int i = 0; i < r.length; i++) r[i] = a * u[i] + b * v[i];
    return r;
  }
  static double[] sub(double[] u, double[] v) {
    double[] r = new double[u.length];
    for (int i = 0; i < r.length; i++) r[i] = u[i] - v[i];
    return r;
  }
  static double[] add(double[] u, double[] v) {
    double[] r = new double[u.length];
    for (int i = 0; i < r.length; i++) r[i] = u[i] + v[i];
    return r;
  }
  static double[] scale(double a, double[] u) {
    double[] r = new double[u.length];
    for (int i = 0; i < r.length; i++) r[i] = a * u[i];
    return r;
  }
  static double dot(double[] u, double[] v) { double s = 0; for (int i = 0; i < u.length; i++) s += u[i] * v[i]; return s; }
  static double maxabs(double[] u) { double s = 0; for (double x : u) s = Math.max(s, Math.abs(x)); return s; }
  static boolean finite(double[] u) { for (double x : u) if (!Double.isFinite(x)) return false; return true; }

  public static Value VAdd(Value u, Value v) { return vec(add(vec(u), vec(v))); }
  public static Value VSub(Value u, Value v) { return vec(sub(vec(u), vec(v))); }
  public static Value VNeg(Value u) { return vec(scale(-1, vec(u))); }
  public static Value VScale(Value a, Value u) { return vec(scale(RealNum.d(a), vec(u))); }
  public static Value VDot(Value u, Value v) { return RealNum.v(dot(vec(u), vec(v))); }
  public static Value VNorm2(Value u) { double[] x = vec(u); return RealNum.v(dot(x, x)); }
  public static Value VNorm(Value u) { double[] x = vec(u); return RealNum.v(Math.sqrt(dot(x, x))); }
  public static Value VMaxAbs(Value u) { return RealNum.v(maxabs(vec(u))); }
  public static Value VFinite(Value u) { return RealNum.b(finite(vec(u))); }

  public static Value MZero(Value r, Value c) { return mat(new double[n(r)][n(c)]); }
  static double[][] id(int k) { double[][] m = new double[k][k]; for (int i = 0; i < k; i++) m[i][i] = 1; return m; }
  public static Value MId(Value k) { return mat(id(n(k))); }
  public static Value MDiag(Value u) {
    double[] x = vec(u); double[][] m = new double[x.length][x.length];
    for (int i = 0; i < x.length; i++) m[i][i] = x[i];
    return mat(m);
  }
  static int cols(double[][] a) { return a.length == 0 ? 0 : a[0].length; }
  public static Value MT(Value A) {
    double[][] a = mat(A); double[][] r = new double[cols(a)][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < cols(a); j++) r[j][i] = a[i][j];
    return mat(r);
  }
  public static Value MAdd(Value A, Value B) {
    double[][] a = mat(A), b = mat(B); for (int i = 0; i < a.length; i++) a[i] = add(a[i], b[i]); return mat(a);
  }
  public static Value MSub(Value A, Value B) {
    double[][] a = mat(A), b = mat(B); for (int i = 0; i < a.length; i++) a[i] = sub(a[i], b[i]); return mat(a);
  }
  public static Value MScale(Value s, Value A) {
    double[][] a = mat(A); double x = RealNum.d(s); for (int i = 0; i < a.length; i++) a[i] = scale(x, a[i]); return mat(a);
  }
  public static Value MVec(Value A, Value u) {
    double[][] a = mat(A); double[] x = vec(u); double[] r = new double[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], x);
    return vec(r);
  }
  static double[][] mul(double[][] a, double[][] b) {
    int c = cols(b); double[][] r = new double[a.length][c];
    for (int i = 0; i < a.length; i++) for (int k = 0; k < b.length; k++) { double f = a[i][k]; for (int j = 0; j < c; j++) r[i][j] += f * b[k][j]; }
    return r;
  }
  public static Value MMul(Value A, Value B) { return mat(mul(mat(A), mat(B))); }
  public static Value MCol(Value A, Value j) {
    double[][] a = mat(A); double[] r = new double[a.length]; for (int i = 0; i < r.length; i++) r[i] = a[i][n(j) - 1]; return vec(r);
  }
  public static Value MBlock(Value A, Value r0, Value c0, Value nr, Value nc) {
    double[][] a = mat(A); double[][] r = new double[n(nr)][n(nc)];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < n(nc); j++) r[i][j] = a[n(r0) + i][n(c0) + j];
    return mat(r);
  }
  public static Value MPut(Value A, Value r0, Value c0, Value B) {
    double[][] a = mat(A), b = mat(B);
    for (int i = 0; i < b.length; i++) for (int j = 0; j < cols(b); j++) {
      int x = n(r0) + i, y = n(c0) + j; if (x < a.length && y < cols(a)) a[x][y] = b[i][j];
    }
    return mat(a);
  }
  public static Value MMaxAbs(Value A) { double s = 0; for (double[] r : mat(A)) s = Math.max(s, maxabs(r)); return RealNum.v(s); }
  public static Value MFinite(Value A) { for (double[] r : mat(A)) if (!finite(r)) return RealNum.b(false); return RealNum.b(true); }
  public static Value MAsCol(Value u) { double[] x = vec(u); double[][] r = new double[x.length][1]; for (int i = 0; i < x.length; i++) r[i][0] = x[i]; return mat(r); }

  static double[][] lusolve(double[][] a0, double[][] b0) {
    int m = a0.length, c = cols(b0);
    double[][] a = new double[m][], b = new double[m][];
    for (int i = 0; i < m; i++) { a[i] = a0[i].clone(); b[i] = b0[i].clone(); }
    for (int k = 0; k < m; k++) {
      int p = k; for (int i = k + 1; i < m; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      double[] t = a[p]; a[p] = a[k]; a[k] = t; t = b[p]; b[p] = b[k]; b[k] = t;
      for (int i = k + 1; i < m; i++) {
        double f = a[i][k] / a[k][k]; if (f == 0) continue;
        for (int j = k; j < m; j++) a[i][j] -= f * a[k][j];
        for (int j = 0; j < c; j++) b[i][j] -= f * b[k][j];
      }
    }
    for (int k = m - 1; k >= 0; k--) for (int j = 0; j < c; j++) {
      double s = b[k][j]; for (int i = k + 1; i < m; i++) s -= a[k][i] * b[i][j];
      b[k][j] = s / a[k][k];
    }
    return b;
  }
  static double[][] solve(double[][] a, double[][] b) {
    double[][] x = lusolve(a, b);
    for (int it = 0; it < 2; it++) { // iterative refinement
      double[][] ax = mul(a, x); double[][] r = new double[b.length][];
      for (int i = 0; i < r.length; i++) r[i] = sub(b[i], ax[i]);
      double[][] e = lusolve(a, r);
      for (int i = 0; i < x.length; i++) x[i] = add(x[i], e[i]);
    }
    return x;
  }
  public static Value MSolve(Value A, Value B) { return mat(solve(mat(A), mat(B))); }
  public static Value MDet(Value A) {
    double[][] a = mat(A); int m = a.length; double det = 1;
    for (int k = 0; k < m; k++) {
      int p = k; for (int i = k + 1; i < m; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      if (p != k) { double[] t = a[p]; a[p] = a[k]; a[k] = t; det = -det; }
      if (a[k][k] == 0) return RealNum.v(0);
      det *= a[k][k];
      for (int i = k + 1; i < m; i++) { double f = a[i][k] / a[k][k]; for (int j = k; j < m; j++) a[i][j] -= f * a[k][j]; }
    }
    return RealNum.v(det);
  }
}

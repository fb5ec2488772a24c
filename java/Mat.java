import java.math.BigInteger;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluator of the X... operators of module Mat; MatSelf.tla checks it against their definitions. */
public class Mat {
  static final BigInteger Z = BigInteger.ZERO, I = BigInteger.ONE;
  static final Q.R ZERO = new Q.R(Z, I), ONE = new Q.R(I, I);

  static TupleValue t(Value v) {
    TupleValue x = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    if (x == null) throw new IllegalArgumentException("Mat: a sequence was expected, got " + v);
    return x;
  }
  static Q.R[] vec(Value v) { TupleValue x = t(v); Q.R[] r = new Q.R[x.elems.length]; for (int i = 0; i < r.length; i++) r[i] = Q.p(x.elems[i]); return r; }
  static Q.R[][] mat(Value v) { TupleValue x = t(v); Q.R[][] r = new Q.R[x.elems.length][]; for (int i = 0; i < r.length; i++) r[i] = vec(x.elems[i]); return r; }
  static Value tup(Q.R[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = Q.mk(a[i].n, a[i].d); return new TupleValue(e); }
  static Value tup(Q.R[][] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = tup(a[i]); return new TupleValue(e); }

  static Q.R red(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return ZERO;
    if (d.equals(I)) return new Q.R(n, d);
    if (d.bitCount() == 1) {
      int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      return k > 0 ? new Q.R(n.shiftRight(k), d.shiftRight(k)) : new Q.R(n, d);
    }
    BigInteger g = n.gcd(d);
    return g.equals(I) ? new Q.R(n, d) : new Q.R(n.divide(g), d.divide(g));
  }
  static Q.R add(Q.R a, Q.R b) {
    if (a.n.signum() == 0) return b;
    if (b.n.signum() == 0) return a;
    if (a.d.equals(b.d)) return red(a.n.add(b.n), a.d);
    return red(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q.R neg(Q.R a) { return new Q.R(a.n.negate(), a.d); }
  static Q.R sub(Q.R a, Q.R b) { return add(a, neg(b)); }
  static Q.R mul(Q.R a, Q.R b) { return a.n.signum() == 0 || b.n.signum() == 0 ? ZERO : red(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static Q.R div(Q.R a, Q.R b) { return red(a.n.multiply(b.d), a.d.multiply(b.n)); }
  static int cmpAbs(Q.R a, Q.R b) { return a.n.abs().multiply(b.d).compareTo(b.n.abs().multiply(a.d)); }
  /** integers over one denominator */
  static final class Row {
    final BigInteger[] n; BigInteger d = I;
    Row(Q.R[] a) {
      for (Q.R x : a) d = lcm(d, x.d);
      n = new BigInteger[a.length];
      for (int i = 0; i < a.length; i++) n[i] = a[i].d.equals(d) ? a[i].n : a[i].n.multiply(d.divide(a[i].d));
    }
  }
  static Q.R dot(Row a, Row b) {
    BigInteger s = Z;
    for (int i = 0; i < a.n.length; i++) if (a.n[i].signum() != 0) s = s.add(a.n[i].multiply(b.n[i]));
    return red(s, a.d.multiply(b.d));
  }
  static Q.R dot(Q.R[] a, Q.R[] b) { return dot(new Row(a), new Row(b)); }
  static Q.R[] column(Q.R[][] b, int j) { Q.R[] c = new Q.R[b.length]; for (int k = 0; k < c.length; k++) c[k] = b[k][j]; return c; }

  public static Value XSum(Value v) { Q.R s = ZERO; for (Q.R x : vec(v)) s = add(s, x); return Q.mk(s.n, s.d); }
  public static Value XDot(Value a, Value b) { Q.R s = dot(vec(a), vec(b)); return Q.mk(s.n, s.d); }
  public static Value XMVec(Value A, Value x) {
    Q.R[][] a = mat(A); Q.R[] r = new Q.R[a.length];
    Row v = new Row(vec(x));
    for (int i = 0; i < r.length; i++) r[i] = dot(new Row(a[i]), v);
    return tup(r);
  }
  public static Value XMMul(Value A, Value B) {
    Q.R[][] a = mat(A), b = mat(B), r = new Q.R[a.length][b[0].length];
    Row[] as = new Row[a.length], bs = new Row[b[0].length];
    for (int i = 0; i < as.length; i++) as[i] = new Row(a[i]);
    for (int j = 0; j < bs.length; j++) bs[j] = new Row(column(b, j));
    for (int i = 0; i < as.length; i++) for (int j = 0; j < bs.length; j++) r[i][j] = dot(as[i], bs[j]);
    return tup(r);
  }
  static BigInteger lcm(BigInteger a, BigInteger b) {
    if (b.equals(I) || a.equals(b)) return a;
    if (a.equals(I)) return b;
    return a.divide(a.gcd(b)).multiply(b);
  }
  /** fraction-free Gauss-Jordan elimination (Bareiss): rows scaled to integers, every division exact */
  public static Value XSolve(Value A, Value B) {
    Q.R[][] a = mat(A), b = mat(B);
    int n = a.length, m = b.length == 0 ? 0 : b[0].length;
    BigInteger[][] w = new BigInteger[n][n + m];
    for (int i = 0; i < n; i++) {
      BigInteger l = I;
      for (int c = 0; c < n + m; c++) l = lcm(l, (c < n ? a[i][c] : b[i][c - n]).d);
      for (int c = 0; c < n + m; c++) { Q.R x = c < n ? a[i][c] : b[i][c - n]; w[i][c] = x.n.multiply(l.divide(x.d)); }
    }
    BigInteger last = I;
    for (int k = 0; k < n; k++) {
      int p = k;
      while (p < n && w[p][k].signum() == 0) p++;
      if (p == n) return new TupleValue(new Value[0]);
      BigInteger[] x = w[p]; w[p] = w[k]; w[k] = x;
      BigInteger d = x[k];
      for (int i = 0; i < n; i++) if (i != k) {
        BigInteger f = w[i][k];
        for (int c = 0; c < n + m; c++) if (c > k || c == i)
          w[i][c] = d.multiply(w[i][c]).subtract(f.multiply(x[c])).divide(last);
        w[i][k] = Z;
      }
      last = d;
    }
    Q.R[][] r = new Q.R[n][m];
    for (int i = 0; i < n; i++) for (int c = 0; c < m; c++) r[i][c] = red(w[i][n + c], w[i][i]);
    return tup(r);
  }
  /** the pivots of a symmetric matrix (its lower triangle), up to the first that is not positive */
  public static Value XPivots(Value A) {
    Q.R[][] a = mat(A);
    int n = a.length;
    BigInteger l = I;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) l = lcm(l, a[i][j].d);
    BigInteger[][] w = new BigInteger[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) w[i][j] = a[i][j].n.multiply(l.divide(a[i][j].d));
    java.util.ArrayList<Q.R> out = new java.util.ArrayList<>();
    BigInteger last = I;
    for (int k = 0; k < n; k++) {
      BigInteger d = w[k][k];
      out.add(red(d, last.multiply(l)));
      if (d.signum() <= 0) break;
      for (int i = k + 1; i < n; i++) for (int j = k + 1; j <= i; j++)
        w[i][j] = d.multiply(w[i][j]).subtract(w[i][k].multiply(w[j][k])).divide(last);
      last = d;
    }
    return tup(out.toArray(new Q.R[0]));
  }
}

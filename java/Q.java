import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Evaluator of module Q (rational numerals) for TLC, as tlc2.module.Integers is the evaluator of Integers.
 * A rational is its canonical numeral: "n" or "n/d" in lowest terms with d > 1 ("#n/d" in base 16 beyond LONG bits).
 */
public class Q {
  static final class R {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static final ConcurrentHashMap<UniqueString, R> cache = new ConcurrentHashMap<>();
  static final int LONG = 1200;
  static final int BITS = 160;                       // mantissa kept by QRnd
  static final MathContext MC = new MathContext(60);

  static R p(Value v) {
    UniqueString u = ((StringValue) v).val;
    R r = cache.get(u);
    if (r != null) return r;
    String s = u.toString();
    int i = s.indexOf('/');
    if (s.charAt(0) == '#') r = new R(new BigInteger(s.substring(1, i), 16), new BigInteger(s.substring(i + 1), 16));
    else if (i < 0) r = new R(new BigInteger(s), BigInteger.ONE);
    else {
      BigInteger n = new BigInteger(s.substring(0, i)), d = new BigInteger(s.substring(i + 1));
      BigInteger g = n.gcd(d);
      r = new R(n.divide(g), d.divide(g));
    }
    return put(u, r);
  }
  static R put(UniqueString u, R r) {
    if (cache.size() > 300000) cache.clear();
    cache.put(u, r);
    return r;
  }
  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("Q: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) d = BigInteger.ONE;
    else if (d.bitCount() == 1) {                    // dyadic: cancel twos
      int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
    } else {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    // longer than any double's: "#n/d" in base 16, which is quicker to write
    StringValue sv = new StringValue(n.bitLength() > LONG || d.bitLength() > LONG ? "#" + n.toString(16) + "/" + d.toString(16)
        : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
    put(sv.val, new R(n, d));
    return sv;
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value QAdd(Value a, Value c) { R x = p(a), y = p(c); return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)); }
  public static Value QSub(Value a, Value c) { R x = p(a), y = p(c); return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)); }
  public static Value QMul(Value a, Value c) { R x = p(a), y = p(c); return mk(x.n.multiply(y.n), x.d.multiply(y.d)); }
  public static Value QDiv(Value a, Value c) { R x = p(a), y = p(c); return mk(x.n.multiply(y.d), x.d.multiply(y.n)); }
  public static Value QLe(Value a, Value c) { R x = p(a), y = p(c); return b(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) <= 0); }
  public static Value QLt(Value a, Value c) { R x = p(a), y = p(c); return b(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) < 0); }
  public static Value QInt(Value a) { return mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.ONE); }
  public static Value QNum(Value a) { return IntValue.gen(p(a).n.intValueExact()); }
  public static Value QDen(Value a) { return IntValue.gen(p(a).d.intValueExact()); }
  public static Value IsQ(Value a) {
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    String s = ((StringValue) a).val.toString();
    return b(s.startsWith("#") || s.matches("-?[0-9]+(/[0-9]+)?"));
  }

  /** nearest dyadic with BITS significant bits */
  static Value rnd(R x) {
    if (x.n.signum() == 0) return mk(BigInteger.ZERO, BigInteger.ONE);
    if (x.d.bitCount() == 1 && x.n.bitLength() <= BITS) return mk(x.n, x.d);
    int e = x.n.bitLength() - x.d.bitLength() - BITS;   // value ~ m * 2^e with m of BITS bits
    BigInteger n = e < 0 ? x.n.shiftLeft(-e) : x.n, d = e > 0 ? x.d.shiftLeft(e) : x.d;
    BigInteger m = n.shiftLeft(1).add(n.signum() > 0 ? d : d.negate()).divide(d.shiftLeft(1));
    return e >= 0 ? mk(m.shiftLeft(e), BigInteger.ONE) : mk(m, BigInteger.ONE.shiftLeft(-e));
  }
  public static Value QRnd(Value a) { return rnd(p(a)); }

  static Value ofDec(BigDecimal v) {
    BigInteger u = v.unscaledValue();
    R r = v.scale() >= 0 ? new R(u, BigInteger.TEN.pow(v.scale())) : new R(u.multiply(BigInteger.TEN.pow(-v.scale())), BigInteger.ONE);
    return rnd(r);
  }
  static BigDecimal dec(R r) { return new BigDecimal(r.n).divide(new BigDecimal(r.d), MC); }

  /** r >= 0 with |r*r - a| <= a * 2^-150 */
  public static Value QSqrt(Value a) {
    R x = p(a);
    if (x.n.signum() < 0) throw new ArithmeticException("QSqrt of a negative number");
    if (x.n.signum() == 0) return a;
    BigInteger s = x.n.multiply(x.d);                  // sqrt(n/d) = sqrt(n d)/d
    int k = Math.max(0, 2 * BITS + 8 - s.bitLength()); k += k & 1;
    BigInteger r = s.shiftLeft(k).sqrt();
    BigInteger rr = r.shiftRight(k / 2);
    if (rr.multiply(rr).equals(s)) return mk(rr, x.d);
    return rnd(new R(r, x.d.shiftLeft(k / 2)));
  }

  static final BigDecimal PI;
  static {   // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
    MathContext m = new MathContext(80);
    PI = BigDecimal.valueOf(16).multiply(atanInv(5, m)).subtract(BigDecimal.valueOf(4).multiply(atanInv(239, m)), m);
  }
  static BigDecimal atanInv(int k, MathContext m) {
    BigDecimal t = BigDecimal.ONE.divide(BigDecimal.valueOf(k), m), k2 = BigDecimal.valueOf((long) k * k), s = t;
    for (int i = 1; i < 200; i++) {
      t = t.divide(k2, m).negate();
      s = s.add(t.divide(BigDecimal.valueOf(2 * i + 1), m), m);
    }
    return s;
  }
  public static Value QPi() { return ofDec(PI); }

  static final MathContext W = new MathContext(75);
  static BigDecimal sin0(BigDecimal x) {              // |x| <= 4
    BigDecimal t = x, s = x, x2 = x.multiply(x, W);
    for (int i = 1; i < 80; i++) {
      t = t.multiply(x2, W).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), W).negate();
      s = s.add(t, W);
    }
    return s;
  }
  static BigDecimal reduce(BigDecimal x) {            // to [-pi, pi]
    BigDecimal k = x.divide(PI.multiply(BigDecimal.valueOf(2)), W).setScale(0, RoundingMode.HALF_EVEN);
    return x.subtract(k.multiply(PI).multiply(BigDecimal.valueOf(2)), W);
  }
  public static Value QSin(Value a) { return ofDec(sin0(reduce(dec(p(a)))).round(MC)); }
  public static Value QCos(Value a) {
    return ofDec(sin0(reduce(dec(p(a)).add(PI.divide(BigDecimal.valueOf(2), W), W))).round(MC));
  }
  static BigDecimal atan0(BigDecimal x) {
    int h = 0;
    while (x.abs().compareTo(new BigDecimal("0.05")) > 0) {   // atan x = 2 atan(x / (1 + sqrt(1 + x^2)))
      x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, W), W).sqrt(W), W), W); h++;
    }
    BigDecimal t = x, s = x, x2 = x.multiply(x, W);
    for (int i = 1; i < 40; i++) { t = t.multiply(x2, W).negate(); s = s.add(t.divide(BigDecimal.valueOf(2 * i + 1), W), W); }
    return s.multiply(BigDecimal.valueOf(2).pow(h), W);
  }
  public static Value QAtan2(Value yy, Value xx) {
    BigDecimal y = dec(p(yy)), x = dec(p(xx)), r;
    if (x.signum() == 0) {
      r = y.signum() == 0 ? BigDecimal.ZERO : PI.divide(BigDecimal.valueOf(2 * y.signum()), W);
    } else {
      r = atan0(y.divide(x, W));
      if (x.signum() < 0) r = y.signum() >= 0 ? r.add(PI, W) : r.subtract(PI, W);
    }
    return ofDec(r.round(MC));
  }
  static BigDecimal exp0(BigDecimal x) {
    int h = 0;
    while (x.abs().compareTo(new BigDecimal("0.01")) > 0) { x = x.divide(BigDecimal.valueOf(2), W); h++; }
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 30; i++) { t = t.multiply(x, W).divide(BigDecimal.valueOf(i), W); s = s.add(t, W); }
    for (; h > 0; h--) s = s.multiply(s, W);
    return s;
  }
  public static Value QExp(Value a) { return ofDec(exp0(dec(p(a))).round(MC)); }
  static final BigDecimal LN2;
  static { LN2 = lnSeries(BigDecimal.valueOf(2)); }
  static BigDecimal lnSeries(BigDecimal x) {          // 2 artanh((x-1)/(x+1)), x in [0.5, 2]
    BigDecimal z = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), W), z2 = z.multiply(z, W), t = z, s = z;
    for (int i = 1; i < 160; i++) { t = t.multiply(z2, W); s = s.add(t.divide(BigDecimal.valueOf(2 * i + 1), W), W); }
    return s.multiply(BigDecimal.valueOf(2), W);
  }
  public static Value QLn(Value a) {
    R x = p(a);
    if (x.n.signum() <= 0) throw new ArithmeticException("QLn of a non-positive number");
    int k = x.n.bitLength() - x.d.bitLength();
    R y = k >= 0 ? new R(x.n, x.d.shiftLeft(k)) : new R(x.n.shiftLeft(-k), x.d);
    BigDecimal r = lnSeries(new BigDecimal(y.n).divide(new BigDecimal(y.d), W)).add(LN2.multiply(BigDecimal.valueOf(k)), W);
    return ofDec(r.round(MC));
  }

  /** identity; makes TLC compute the value now instead of at each use */
  public static Value Force(Value v) {
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple();
      if (t != null) return Force(t);
      return v instanceof FcnLambdaValue ? v.toFcnRcd() : v;
    }
    if (v instanceof TupleValue) {
      TupleValue t = (TupleValue) v;
      for (int i = 0; i < t.elems.length; i++) t.elems[i] = Force(t.elems[i]);
    } else if (v instanceof RecordValue) {
      RecordValue t = (RecordValue) v;
      for (int i = 0; i < t.values.length; i++) t.values[i] = Force(t.values[i]);
    }
    return v;
  }
}

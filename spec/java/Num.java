// Java implementation of spec/Num.tla: real numbers as decimal strings with 80 significant digits.
import java.math.*;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Num {
  static final MathContext MC = new MathContext(80, RoundingMode.HALF_EVEN), MX = new MathContext(96, RoundingMode.HALF_EVEN);
  static final BigDecimal ONE = BigDecimal.ONE, TWO = new BigDecimal(2), ZERO = BigDecimal.ZERO;
  static final StringValue NAN = new StringValue("nan");
  static final LinkedHashMap<String, BigDecimal> cache = new LinkedHashMap<>();

  static BigDecimal p(Value v) {            // null: not a number
    if (v instanceof IntValue) return new BigDecimal(((IntValue) v).val);
    if (!(v instanceof StringValue)) return null;
    String s = ((StringValue) v).val.toString();
    synchronized (cache) { BigDecimal c = cache.get(s); if (c != null) return c; }
    BigDecimal r = parse(s);
    if (r != null) synchronized (cache) { if (cache.size() > 400000) cache.clear(); cache.put(s, r); }
    return r;
  }
  static BigDecimal parse(String s) {
    try {
      String t = s.startsWith("-") || s.startsWith("+") ? s.substring(1) : s;
      if (t.startsWith("0x") || t.startsWith("0X")) {
        double d = Double.parseDouble(s);
        if (Double.isNaN(d) || Double.isInfinite(d)) return null;
        return new BigDecimal(d);           // exact value of the double
      }
      return new BigDecimal(s);
    } catch (NumberFormatException e) { return null; }
  }
  static Value q(BigDecimal d) {
    d = d.round(MC);
    if (d.signum() == 0) return new StringValue("0");
    String s = d.stripTrailingZeros().toString();
    BigDecimal k = d; synchronized (cache) { if (cache.size() > 400000) cache.clear(); cache.put(s, k); }
    return new StringValue(s);
  }
  public static Value NIsNum(Value a) { return p(a) == null ? BoolValue.ValFalse : BoolValue.ValTrue; }
  public static Value NAdd(Value a, Value b) { BigDecimal x = p(a), y = p(b); return x == null || y == null ? NAN : q(x.add(y)); }
  public static Value NSub(Value a, Value b) { BigDecimal x = p(a), y = p(b); return x == null || y == null ? NAN : q(x.subtract(y)); }
  public static Value NMul(Value a, Value b) { BigDecimal x = p(a), y = p(b); return x == null || y == null ? NAN : q(x.multiply(y)); }
  public static Value NDiv(Value a, Value b) { BigDecimal x = p(a), y = p(b); return x == null || y == null || y.signum() == 0 ? NAN : q(x.divide(y, MC)); }
  public static Value NNeg(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(x.negate()); }
  public static Value NAbs(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(x.abs()); }
  static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NLt(Value a, Value c) { BigDecimal x = p(a), y = p(c); return b(x != null && y != null && x.compareTo(y) < 0); }
  public static Value NLe(Value a, Value c) { BigDecimal x = p(a), y = p(c); return b(x != null && y != null && x.compareTo(y) <= 0); }
  public static Value NEq(Value a, Value c) { BigDecimal x = p(a), y = p(c); return b(x != null && y != null && x.round(MC).compareTo(y.round(MC)) == 0); } // at the precision of results
  public static Value NMax(Value a, Value c) { BigDecimal x = p(a), y = p(c); return x == null || y == null ? NAN : q(x.max(y)); }
  public static Value NMin(Value a, Value c) { BigDecimal x = p(a), y = p(c); return x == null || y == null ? NAN : q(x.min(y)); }
  public static Value NInt(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(x); }
  public static Value NFloor(Value a) { BigDecimal x = p(a); return IntValue.gen(x.setScale(0, RoundingMode.FLOOR).intValueExact()); }
  public static Value NSqrt(Value a) { BigDecimal x = p(a); return x == null || x.signum() < 0 ? NAN : q(x.sqrt(MC)); }
  public static Value NPi() { return q(pi()); }
  public static Value NExp(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(exp(x)); }
  public static Value NLog(Value a) { BigDecimal x = p(a); return x == null || x.signum() <= 0 ? NAN : q(log(x)); }
  public static Value NSin(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(sincos(x)[0]); }
  public static Value NCos(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(sincos(x)[1]); }
  // the double nearest to a number, exactly; and the spacing of doubles at its magnitude
  public static Value NRoundDouble(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(new BigDecimal(x.doubleValue())); }
  public static Value NUlp(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(new BigDecimal(Math.ulp(x.doubleValue()))); }
  public static Value NRoundFloat(Value a) { BigDecimal x = p(a); return x == null ? NAN : q(new BigDecimal((double) x.floatValue())); }
  // sums and dot products of sequences, in one step
  public static Value NSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple(); BigDecimal r = ZERO;
    for (Value v : t.elems) { BigDecimal x = p(v); if (x == null) return NAN; r = r.add(x, MX); }
    return q(r);
  }
  public static Value NDot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple(); BigDecimal r = ZERO;
    for (int i = 0; i < t.elems.length; i++) { BigDecimal x = p(t.elems[i]), y = p(w.elems[i]); if (x == null || y == null) return NAN; r = r.add(x.multiply(y), MX); }
    return q(r);
  }

  // ---- matrices
  static final MathContext MM = new MathContext(40, RoundingMode.HALF_EVEN);
  static final util.UniqueString RE = util.UniqueString.uniqueStringOf("re"), IM = util.UniqueString.uniqueStringOf("im");
  static BigDecimal[][] rows(Value v) {
    TupleValue t = (TupleValue) v.toTuple(); BigDecimal[][] r = new BigDecimal[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }
  static BigDecimal[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple(); BigDecimal[] r = new BigDecimal[t.elems.length];
    for (int i = 0; i < r.length; i++) { BigDecimal x = p(t.elems[i]); if (x == null) throw new RuntimeException("a matrix element is not a number"); r[i] = x.round(MM); }
    return r;
  }
  static Value out(BigDecimal[] a) { Value[] v = new Value[a.length]; for (int i = 0; i < v.length; i++) v[i] = q(a[i]); return new TupleValue(v); }
  static Value out(BigDecimal[][] a) { Value[] v = new Value[a.length]; for (int i = 0; i < v.length; i++) v[i] = out(a[i]); return new TupleValue(v); }
  static BigDecimal[][][] cplx(Value m) { RecordValue r = (RecordValue) m.toRcd(); return new BigDecimal[][][]{rows(r.apply(new StringValue("re"), 0)), rows(r.apply(new StringValue("im"), 0))}; }
  static Value out(BigDecimal[][][] a) { return new RecordValue(new util.UniqueString[]{RE, IM}, new Value[]{out(a[0]), out(a[1])}, false); }
  static BigDecimal[][] mul(BigDecimal[][] a, BigDecimal[][] b) {
    int n = a.length, m = b[0].length, q = b.length; BigDecimal[][] r = new BigDecimal[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i][j] = ZERO;
    for (int i = 0; i < n; i++) for (int k = 0; k < q; k++) if (a[i][k].signum() != 0) for (int j = 0; j < m; j++) if (b[k][j].signum() != 0) r[i][j] = r[i][j].add(a[i][k].multiply(b[k][j]), MM);
    return r;
  }
  static BigDecimal[][] comb(BigDecimal[][] a, BigDecimal[][] b, boolean plus) {
    BigDecimal[][] r = new BigDecimal[a.length][a[0].length];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < r[i].length; j++) r[i][j] = plus ? a[i][j].add(b[i][j], MM) : a[i][j].subtract(b[i][j], MM);
    return r;
  }
  static BigDecimal[][] scale(BigDecimal[][] a, BigDecimal f) {
    BigDecimal[][] r = new BigDecimal[a.length][a[0].length];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < r[i].length; j++) r[i][j] = a[i][j].multiply(f, MM);
    return r;
  }
  static BigDecimal[][][] cmul(BigDecimal[][][] a, BigDecimal[][][] b) { return new BigDecimal[][][]{comb(mul(a[0], b[0]), mul(a[1], b[1]), false), comb(mul(a[0], b[1]), mul(a[1], b[0]), true)}; }
  static BigDecimal[][] ident(int n) { BigDecimal[][] r = new BigDecimal[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? ONE : ZERO; return r; }
  static int halvings(BigDecimal[][] a) { // how often to halve until the norm is below 1/16
    BigDecimal m = ZERO; for (BigDecimal[] r : a) { BigDecimal s = ZERO; for (BigDecimal x : r) s = s.add(x.abs(), MM); m = m.max(s); }
    int k = 0; BigDecimal lim = new BigDecimal("0.0625"); while (m.compareTo(lim) > 0) { m = m.divide(TWO, MM); k++; } return k;
  }
  public static Value NCMul(Value a, Value b) { return out(cmul(cplx(a), cplx(b))); }
  public static Value NCExp(Value h, Value t) {
    BigDecimal[][][] H = cplx(h); BigDecimal x = p(t); int n = H[0].length;
    BigDecimal[][][] A = {scale(H[1], x), scale(H[0], x.negate())}; // -i t H
    int k = Math.max(halvings(A[0]), halvings(A[1])) + 1; BigDecimal f = ONE.divide(TWO.pow(k), MM);
    A = new BigDecimal[][][]{scale(A[0], f), scale(A[1], f)};
    BigDecimal[][] Z = scale(A[0], ZERO); BigDecimal[][][] T = {ident(n), Z}, R = {ident(n), Z};
    for (int i = 1; i < 24; i++) { T = cmul(T, A); BigDecimal d = ONE.divide(new BigDecimal(i), MM); T = new BigDecimal[][][]{scale(T[0], d), scale(T[1], d)}; R = new BigDecimal[][][]{comb(R[0], T[0], true), comb(R[1], T[1], true)}; }
    for (; k > 0; k--) R = cmul(R, R);
    return out(R);
  }
  public static Value NRExp(Value l, Value t, Value v) { // steps of the vector, by the series of the exponential
    BigDecimal[][] A = scale(rows(l), p(t)); BigDecimal[] w = vec(v); int n = w.length; double norm = 0;
    int[][] at = new int[n][]; 
    for (int i = 0; i < n; i++) { int c = 0; double q = 0; for (int j = 0; j < n; j++) if (A[i][j].signum() != 0) { c++; q += Math.abs(A[i][j].doubleValue()); } at[i] = new int[c]; c = 0; for (int j = 0; j < n; j++) if (A[i][j].signum() != 0) at[i][c++] = j; norm = Math.max(norm, q); }
    int steps = (int) Math.ceil(norm / 2) + 1; BigDecimal f = ONE.divide(new BigDecimal(steps), MM); A = scale(A, f);
    for (int s = 0; s < steps; s++) {
      BigDecimal[] T = w, R = w.clone();
      for (int k = 1; k < 60; k++) {
        BigDecimal d = ONE.divide(new BigDecimal(k), MM); BigDecimal[] N = new BigDecimal[n]; double big = 0, all = 0;
        for (int i = 0; i < n; i++) { BigDecimal x = ZERO; for (int j : at[i]) x = x.add(A[i][j].multiply(T[j], MM), MM); N[i] = x.multiply(d, MM); R[i] = R[i].add(N[i], MM); big = Math.max(big, Math.abs(N[i].doubleValue())); all = Math.max(all, Math.abs(R[i].doubleValue())); }
        T = N; if (k > 4 && big <= 1e-28 * all) break;
      }
      w = R;
    }
    return out(w);
  }

  static BigDecimal PI;
  static synchronized BigDecimal pi() {
    if (PI == null) PI = arctanInv(5).multiply(new BigDecimal(16)).subtract(arctanInv(239).multiply(new BigDecimal(4)), MX);
    return PI;
  }
  static BigDecimal arctanInv(int n) {
    MathContext m = new MathContext(110);
    BigDecimal x = ONE.divide(new BigDecimal(n), m), x2 = x.multiply(x, m), t = x, r = x;
    for (int k = 3; t.precision() - t.scale() > -110; k += 2) { t = t.multiply(x2, m).negate(); r = r.add(t.divide(new BigDecimal(k), m), m); }
    return r;
  }
  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return ONE;
    if (x.compareTo(new BigDecimal(-2000)) < 0) return ZERO;
    MathContext m = new MathContext(110);
    int k = 0; BigDecimal y = x;
    BigDecimal small = new BigDecimal("0.001");
    while (y.abs().compareTo(small) > 0) { y = y.divide(TWO, m); k++; }
    BigDecimal t = ONE, r = ONE;
    for (int i = 1; i < 60; i++) { t = t.multiply(y, m).divide(new BigDecimal(i), m); r = r.add(t, m); if (t.signum() == 0 || t.precision() - t.scale() < -108) break; }
    for (; k > 0; k--) r = r.multiply(r, m);
    return r.round(MX);
  }
  static BigDecimal log(BigDecimal x) {
    int e = x.precision() - x.scale();      // x = f * 10^e, 0.1 <= f < 1
    BigDecimal f = x.scaleByPowerOfTen(-e);
    BigDecimal r = ln1(f);
    return e == 0 ? r : r.add(ln1(new BigDecimal("0.1")).negate().multiply(new BigDecimal(e)), MX);
  }
  static BigDecimal ln1(BigDecimal f) {
    MathContext m = new MathContext(104);
    BigDecimal y = new BigDecimal(Math.log(f.doubleValue()));
    for (int i = 0; i < 4; i++) { BigDecimal ey = exp(y); y = y.add(TWO.multiply(f.subtract(ey)).divide(f.add(ey), m), m); }
    return y;
  }
  static BigDecimal[] sincos(BigDecimal x) {
    MathContext m = new MathContext(110);
    BigDecimal tp = pi().multiply(TWO);
    BigDecimal n = x.divide(tp, m).setScale(0, RoundingMode.HALF_EVEN);
    if (n.precision() - n.scale() > 14) throw new RuntimeException("argument of a trigonometric function too large");
    BigDecimal y = x.subtract(n.multiply(tp), m).divide(new BigDecimal(16), m), y2 = y.multiply(y, m);
    BigDecimal s = y, t = y;
    for (int i = 3; i < 90; i += 2) { t = t.multiply(y2, m).divide(new BigDecimal(i * (i - 1)), m).negate(); s = s.add(t, m); if (t.signum() == 0) break; }
    BigDecimal c = ONE; t = ONE;
    for (int i = 2; i < 90; i += 2) { t = t.multiply(y2, m).divide(new BigDecimal(i * (i - 1)), m).negate(); c = c.add(t, m); if (t.signum() == 0) break; }
    for (int i = 0; i < 4; i++) { BigDecimal s2 = TWO.multiply(s).multiply(c, m), c2 = c.multiply(c).subtract(s.multiply(s), m); s = s2; c = c2; }
    return new BigDecimal[]{s.round(MX), c.round(MX)};
  }
}

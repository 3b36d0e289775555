import tlc2.value.impl.*;
import java.math.BigInteger;

/**
 * TLC module override of Rat.tla: exact rational arithmetic on strings "n" or "n/d".
 * Every operator here is specified (and cross-checked against plain TLA+ integer
 * arithmetic) in MC_Rat.tla.
 */
public class Rat {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TEN = BigInteger.TEN;

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    Q add(Q o) {
      if (d.equals(o.d)) return new Q(n.add(o.n), d);
      return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q red() {
      BigInteger a = n, b = d;
      if (b.signum() < 0) { a = a.negate(); b = b.negate(); }
      if (!b.equals(ONE)) {
        int s = Math.min(a.signum() == 0 ? b.getLowestSetBit() : a.getLowestSetBit(), b.getLowestSetBit());
        if (s > 0) { a = a.shiftRight(s); b = b.shiftRight(s); }
        BigInteger g = b.bitCount() == 1 ? ONE : a.gcd(b);
        if (!g.equals(ONE)) { a = a.divide(g); b = b.divide(g); }
      }
      return new Q(a, b);
    }
    int cmp(Q o) {
      int s = n.signum(), t = o.n.signum();
      if (s != t) return Integer.compare(s, t);
      return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    BigInteger floor() {
      BigInteger[] q = n.divideAndRemainder(d);
      return q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
    }
    /** nearest integer, ties to even */
    BigInteger rint() {
      BigInteger two = n.shiftLeft(1);
      BigInteger f = floor();
      int c = n.subtract(f.multiply(d)).shiftLeft(1).compareTo(d);
      if (c < 0) return f;
      if (c > 0) return f.add(ONE);
      return f.testBit(0) ? f.add(ONE) : f;
    }
  }

  static Q q(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    if (v instanceof RatValue) return ((RatValue) v).q;
    if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a rational: " + v);
    return parse(((StringValue) v).val.toString());
  }

  static Q parse(String s) {
    int k = s.indexOf('/');
    if (k < 0) {
      int e = s.indexOf("p-");            // "n p-k" = n / 2^k
      if (e > 0) return new Q(new BigInteger(s.substring(0, e)), ONE.shiftLeft(Integer.parseInt(s.substring(e + 2))));
      return new Q(new BigInteger(s), ONE);
    }
    return new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
  }

  static Value m(Q x) {
    Q r = x.red();
    if (r.d.bitLength() > 31 || r.n.bitLength() > 31) return new RatValue(r);
    return new StringValue(r.d.equals(ONE) ? r.n.toString() : r.n + "/" + r.d);
  }

  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return t.elems;
  }

  static int i(Value v) { return ((IntValue) v).val; }

  public static Value RAdd(Value a, Value b) { return m(q(a).add(q(b))); }
  public static Value RSub(Value a, Value b) { Q y = q(b); return m(q(a).add(new Q(y.n.negate(), y.d))); }
  public static Value RMul(Value a, Value b) { return m(q(a).mul(q(b))); }
  public static Value RDiv(Value a, Value b) {
    Q y = q(b);
    if (y.n.signum() == 0) throw new RuntimeException("Rat: division by zero");
    return m(q(a).mul(new Q(y.d, y.n)));
  }
  public static Value RNeg(Value a) { Q x = q(a); return m(new Q(x.n.negate(), x.d)); }
  public static Value RAbs(Value a) { Q x = q(a); return m(new Q(x.n.abs(), x.d)); }
  public static Value RSign(Value a) { return IntValue.gen(q(a).n.signum()); }
  public static Value RLt(Value a, Value b) { return b(q(a).cmp(q(b)) < 0); }
  public static Value RLe(Value a, Value b) { return b(q(a).cmp(q(b)) <= 0); }
  public static Value RGt(Value a, Value b) { return b(q(a).cmp(q(b)) > 0); }
  public static Value RGe(Value a, Value b) { return b(q(a).cmp(q(b)) >= 0); }
  public static Value REq(Value a, Value b) { return b(q(a).cmp(q(b)) == 0); }
  public static Value RMax2(Value a, Value b) { return q(a).cmp(q(b)) >= 0 ? m(q(a)) : m(q(b)); }
  public static Value RMin2(Value a, Value b) { return q(a).cmp(q(b)) <= 0 ? m(q(a)) : m(q(b)); }
  public static Value RFrac(Value a, Value b) { return m(new Q(BigInteger.valueOf(i(a)), BigInteger.valueOf(i(b)))); }
  public static Value RInt(Value a) { return m(new Q(BigInteger.valueOf(i(a)), ONE)); }
  public static Value RFloor(Value a) { return m(new Q(q(a).floor(), ONE)); }
  public static Value RToInt(Value a) { return IntValue.gen(q(a).floor().intValueExact()); }
  public static Value RFitsInt(Value a) { return b(q(a).floor().bitLength() < 31); }
  public static Value RNum(Value a) { return m(new Q(q(a).red().n, ONE)); }
  public static Value RDen(Value a) { return m(new Q(q(a).red().d, ONE)); }

  /** e with 2^e <= a < 2^(e+1), a > 0 */
  public static Value RLog2(Value a) {
    Q x = q(a);
    int e = x.n.bitLength() - x.d.bitLength();
    Q p = e >= 0 ? new Q(ONE.shiftLeft(e), ONE) : new Q(ONE, ONE.shiftLeft(-e));
    return IntValue.gen(x.cmp(p) >= 0 ? e : e - 1);
  }
  /** floor to a multiple of 2^-bits */
  public static Value RFix(Value a, Value bits) {
    int k = i(bits); Q x = q(a);
    if (x.d.bitLength() <= k) { Q r = x.red(); if (r.d.bitCount() == 1) return m(r); }
    return m(new Q(new Q(x.n.shiftLeft(k), x.d).floor(), ONE.shiftLeft(k)));
  }
  public static Value RPow(Value a, Value e) {
    int k = i(e); Q x = q(a);
    if (k >= 0) return m(new Q(x.n.pow(k), x.d.pow(k)));
    if (x.n.signum() == 0) throw new RuntimeException("Rat: zero to a negative power");
    return m(new Q(x.d.pow(-k), x.n.pow(-k)));
  }
  /** floor of the square root to a multiple of 2^-bits (argument >= 0) */
  public static Value RSqrt(Value a, Value bits) {
    int k = i(bits); Q x = q(a);
    if (x.n.signum() < 0) throw new RuntimeException("Rat: square root of a negative number");
    return m(new Q(new Q(x.n.shiftLeft(2 * k), x.d).floor().sqrt(), ONE.shiftLeft(k)));
  }
  /** round half to even at d decimals */
  public static Value RRound(Value a, Value d) {
    int k = i(d); Q x = q(a);
    if (k >= 0) { BigInteger p = TEN.pow(k); return m(new Q(new Q(x.n.multiply(p), x.d).rint(), p)); }
    BigInteger p = TEN.pow(-k); return m(new Q(new Q(x.n, x.d.multiply(p)).rint().multiply(p), ONE));
  }
  /** nearest IEEE double (normal range), ties to even */
  public static Value RFl(Value a) {
    Q x = q(a).red();
    if (x.n.signum() == 0) return m(x);
    int e = x.n.abs().bitLength() - x.d.bitLength();       // |x| in (2^(e-1), 2^(e+1))
    int s = 53 - e;                                   // scaled value has 53 or 54 bits
    for (int t = s + 1; t >= s - 1; t--) {
      Q y = t >= 0 ? new Q(x.n.abs().shiftLeft(t), x.d) : new Q(x.n.abs(), x.d.shiftLeft(-t));
      if (y.floor().bitLength() == 53) {
        BigInteger r = y.rint();
        if (x.n.signum() < 0) r = r.negate();
        return t >= 0 ? m(new Q(r, ONE.shiftLeft(t))) : m(new Q(r.shiftLeft(-t), ONE));
      }
    }
    throw new RuntimeException("RFl");
  }
  public static Value RIsFin(Value a) {
    if (!(a instanceof StringValue)) return b(a instanceof IntValue || a instanceof RatValue);
    String s = ((StringValue) a).val.toString();
    return b(!s.isEmpty() && (Character.isDigit(s.charAt(0)) || s.charAt(0) == '-' && s.length() > 1 && Character.isDigit(s.charAt(1))));
  }
  public static Value RAllFin(Value s) {
    for (Value v : seq(s)) if (RIsFin(v) == BoolValue.ValFalse) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** the same sequence, parsed once */
  public static Value RVec(Value s) {
    Value[] x = seq(s), r = new Value[x.length];
    for (int j = 0; j < r.length; j++) r[j] = RIsFin(x[j]) == BoolValue.ValTrue ? m(q(x[j])) : x[j];
    return new TupleValue(r);
  }
  /** the same number as a string value (to keep in a state or print) */
  public static Value RStr(Value a) { return a instanceof RatValue ? new StringValue(((RatValue) a).str()) : a; }
  public static Value RSum(Value s) {
    Q r = new Q(ZERO, ONE);
    for (Value v : seq(s)) { r = r.add(q(v)); if (r.d.bitLength() > 256) r = r.red(); }
    return m(r);
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    Q r = new Q(ZERO, ONE);
    for (int k = 0; k < x.length; k++) { r = r.add(q(x[k]).mul(q(y[k]))); if (r.d.bitLength() > 256) r = r.red(); }
    return m(r);
  }
  public static Value RMaxSeq(Value s) {
    Value[] x = seq(s); Q r = q(x[0]);
    for (Value v : x) { Q t = q(v); if (t.cmp(r) > 0) r = t; }
    return m(r);
  }
  public static Value RMinSeq(Value s) {
    Value[] x = seq(s); Q r = q(x[0]);
    for (Value v : x) { Q t = q(v); if (t.cmp(r) < 0) r = t; }
    return m(r);
  }
  public static Value RMaxAbs(Value s) {
    Q r = new Q(ZERO, ONE);
    for (Value v : seq(s)) { Q t = q(v); t = new Q(t.n.abs(), t.d); if (t.cmp(r) > 0) r = t; }
    return m(r);
  }
  public static Value RSort(Value s) {
    Value[] x = seq(s).clone();
    Q[] k = new Q[x.length]; Integer[] p = new Integer[x.length];
    for (int j = 0; j < x.length; j++) { k[j] = q(x[j]); p[j] = j; }
    java.util.Arrays.sort(p, (u, v) -> k[u].cmp(k[v]));
    Value[] r = new Value[x.length];
    for (int j = 0; j < x.length; j++) r[j] = m(k[p[j]]);
    return new TupleValue(r);
  }
  /** element-wise a*x + b*y */
  public static Value RLin(Value a, Value s, Value bb, Value t) {
    Value[] x = seq(s), y = seq(t); Q qa = q(a), qb = q(bb); Value[] r = new Value[x.length];
    if (x.length != y.length) throw new RuntimeException("RLin: lengths differ");
    for (int j = 0; j < r.length; j++) r[j] = m(qa.mul(q(x[j])).add(qb.mul(q(y[j]))));
    return new TupleValue(r);
  }
  /** element-wise (x + c) */
  public static Value RShift(Value s, Value c) {
    Value[] x = seq(s); Q k = q(c); Value[] r = new Value[x.length];
    for (int j = 0; j < r.length; j++) r[j] = m(q(x[j]).add(k));
    return new TupleValue(r);
  }
  /** element-wise (c * x) */
  public static Value RScale(Value c, Value s) {
    Value[] x = seq(s); Q k = q(c); Value[] r = new Value[x.length];
    for (int j = 0; j < r.length; j++) r[j] = m(q(x[j]).mul(k));
    return new TupleValue(r);
  }
  /** element-wise product */
  public static Value RHad(Value s, Value t) {
    Value[] x = seq(s), y = seq(t); Value[] r = new Value[x.length];
    if (x.length != y.length) throw new RuntimeException("RHad: lengths differ");
    for (int j = 0; j < r.length; j++) r[j] = m(q(x[j]).mul(q(y[j])));
    return new TupleValue(r);
  }
  /** the indices j at which |x[j]-y[j]| > tol, as a sequence */
  public static Value RFar(Value s, Value t, Value tol) {
    Value[] x = seq(s), y = seq(t); Q e = q(tol);
    java.util.ArrayList<Value> l = new java.util.ArrayList<>();
    for (int j = 0; j < x.length; j++) {
      Q yy = q(y[j]); Q d = q(x[j]).add(new Q(yy.n.negate(), yy.d));
      if (new Q(d.n.abs(), d.d).cmp(e) > 0) l.add(IntValue.gen(j + 1));
    }
    return new TupleValue(l.toArray(new Value[0]));
  }
}

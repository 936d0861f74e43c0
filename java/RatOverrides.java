// TLC operator overrides for module Rat: exact rational arithmetic of unbounded size.
// A rational is the TLA+ string of its canonical form: hexadecimal "n" or "n/d" (d>1, gcd=1, sign on n).
// Two equal rationals are therefore equal TLA+ values.  RatStr merely caches the parsed number.
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

public class RatOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[]{RatOverrides.class}; }

  static final class RatStr extends StringValue {
    final transient Q q;
    RatStr(Q q) { super(UniqueString.uniqueStringOf(q.toString())); this.q = q; }
  }

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    static Q of(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("Rat: division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (n.signum() == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
      int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
      if (!d.equals(BigInteger.ONE)) {
        if (d.bitLength() - 1 == d.getLowestSetBit()) return new Q(n, d); // power of two: already coprime
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      return new Q(n, d);
    }
    static Q parse(String s) {
      int k = s.indexOf('/');
      if (k < 0) return new Q(new BigInteger(s, 16), BigInteger.ONE);
      return of(new BigInteger(s.substring(0, k), 16), new BigInteger(s.substring(k + 1), 16));
    }
    public String toString() { return d.equals(BigInteger.ONE) ? n.toString(16) : n.toString(16) + "/" + d.toString(16); }
    int cmp(Q o) {
      int a = n.signum(), b = o.n.signum();
      if (a != b) return Integer.compare(a, b);
      return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    Q add(Q o) { return d.equals(o.d) ? of(n.add(o.n), d) : of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    Q neg() { return new Q(n.negate(), d); }
    Q mul(Q o) { return of(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return of(n.multiply(o.d), d.multiply(o.n)); }
    BigInteger floor() { BigInteger[] r = n.divideAndRemainder(d); return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0]; }
  }

  static Q q(Value v) {
    if (v instanceof RatStr) return ((RatStr) v).q;
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    return Q.parse(((StringValue) v).val.toString());
  }
  static Value r(Q q) { return new RatStr(q); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Q fromDouble(double x) {
    if (x == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
    long bits = Double.doubleToLongBits(x);
    int e = (int) ((bits >> 52) & 0x7ff);
    long m = bits & ((1L << 52) - 1);
    if (e == 0) e = 1; else m |= 1L << 52;
    e -= 1075;
    BigInteger M = BigInteger.valueOf(bits < 0 ? -m : m);
    return e >= 0 ? Q.of(M.shiftLeft(e), BigInteger.ONE) : Q.of(M, BigInteger.ONE.shiftLeft(-e));
  }
  static BigInteger roundDiv(BigInteger n, BigInteger d) { // nearest, d>0
    return n.shiftLeft(1).add(d).divide(d.shiftLeft(1)).subtract(
        n.shiftLeft(1).add(d).mod(d.shiftLeft(1)).signum() != 0 && n.shiftLeft(1).add(d).signum() < 0 ? BigInteger.ONE : BigInteger.ZERO);
  }
  static Q roundAbs(Q a, int bits) { // nearest multiple of 2^-bits
    if (bits >= 0) return Q.of(roundDiv(a.n.shiftLeft(bits), a.d), BigInteger.ONE.shiftLeft(bits));
    return Q.of(roundDiv(a.n, a.d.shiftLeft(-bits)).shiftLeft(-bits), BigInteger.ONE);
  }
  static Q roundSig(Q a, int bits) {
    if (a.n.signum() == 0) return a;
    int e = a.n.bitLength() - a.d.bitLength();
    return roundAbs(a, bits - e);
  }

  @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
  public static Value rInt(Value a) { return r(q(a)); }
  @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
  public static Value rFrac(Value a, Value c) { return r(q(a).div(q(c))); }
  @TLAPlusOperator(identifier = "RDec", module = "Rat", warn = false)
  public static Value rDec(Value a) {
    java.math.BigDecimal x = new java.math.BigDecimal(((StringValue) a).val.toString());
    return r(x.scale() >= 0 ? Q.of(x.unscaledValue(), BigInteger.TEN.pow(x.scale()))
                            : Q.of(x.unscaledValue().multiply(BigInteger.TEN.pow(-x.scale())), BigInteger.ONE));
  }
  @TLAPlusOperator(identifier = "RFin", module = "Rat", warn = false)
  public static Value rFin(Value a) {
    String s = ((StringValue) a).val.toString();
    return b(s.length() > 0 && !s.contains("n")); // inf, -inf, nan, -nan
  }
  @TLAPlusOperator(identifier = "RD", module = "Rat", warn = false)
  public static Value rD(Value a) {
    // a non-finite result is mapped to a number far away from anything a specification computes, so that it is
    // rejected by every comparison instead of ending the evaluation
    String t = ((StringValue) a).val.toString();
    if (t.equals("nan")) return r(FAR2);
    if (t.equals("inf")) return r(FAR);
    if (t.equals("-inf")) return r(FAR.neg());
    return r(fromDouble(Double.parseDouble(t)));
  }
  static final Q FAR = Q.of(BigInteger.ONE.shiftLeft(20000), BigInteger.valueOf(3)), FAR2 = Q.of(BigInteger.ONE.shiftLeft(30000), BigInteger.valueOf(7));
  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value rAdd(Value a, Value c) { return r(q(a).add(q(c))); }
  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value rSub(Value a, Value c) { return r(q(a).add(q(c).neg())); }
  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value rMul(Value a, Value c) { return r(q(a).mul(q(c))); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value rDiv(Value a, Value c) { return r(q(a).div(q(c))); }
  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value rNeg(Value a) { return r(q(a).neg()); }
  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value rAbs(Value a) { Q x = q(a); return r(x.n.signum() < 0 ? x.neg() : x); }
  @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
  public static Value rLe(Value a, Value c) { return b(q(a).cmp(q(c)) <= 0); }
  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value rLt(Value a, Value c) { return b(q(a).cmp(q(c)) < 0); }
  @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
  public static Value rFloor(Value a) { return r(new Q(q(a).floor(), BigInteger.ONE)); }
  @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
  public static Value rToInt(Value a) { return IntValue.gen(q(a).floor().intValueExact()); }
  @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
  public static Value rRound(Value a, Value k) { return r(roundAbs(q(a), ((IntValue) k).val)); }
  @TLAPlusOperator(identifier = "RSig", module = "Rat", warn = false)
  public static Value rSig(Value a, Value k) { return r(roundSig(q(a), ((IntValue) k).val)); }
  @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
  public static Value rPow(Value a, Value k) {
    int e = ((IntValue) k).val; Q x = q(a);
    return e >= 0 ? r(new Q(x.n.pow(e), x.d.pow(e))) : r(Q.of(x.d.pow(-e), x.n.pow(-e)));
  }
  @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
  public static Value rSqrt(Value a, Value k) { // floor square root with k significant bits
    Q x = q(a); int bits = ((IntValue) k).val;
    if (x.n.signum() == 0) return r(x);
    int e = (x.n.bitLength() - x.d.bitLength()) / 2;
    int s = Math.max(bits - e, 0);
    BigInteger v = x.n.shiftLeft(2 * s).divide(x.d).sqrt();
    return r(Q.of(v, BigInteger.ONE.shiftLeft(s)));
  }
  @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
  public static Value rSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q x = new Q(BigInteger.ZERO, BigInteger.ONE);
    for (Value v : t.elems) x = x.add(q(v));
    return r(x);
  }
  @TLAPlusOperator(identifier = "RMaxSeq", module = "Rat", warn = false)
  public static Value rMaxSeq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q x = new Q(BigInteger.ZERO, BigInteger.ONE);
    for (Value v : t.elems) { Q y = q(v).abs(); if (x.cmp(y) < 0) x = y; }
    return r(x);
  }
  @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
  public static Value rDot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    if (t.elems.length != w.elems.length) throw new ArithmeticException("RDot: length mismatch");
    Q x = new Q(BigInteger.ZERO, BigInteger.ONE);
    for (int i = 0; i < t.elems.length; i++) x = x.add(q(t.elems[i]).mul(q(w.elems[i])));
    return r(x);
  }
  // the identity: turns lazily evaluated sequences into explicit ones (speed only)
  @TLAPlusOperator(identifier = "Eager", module = "Rat", warn = false)
  public static Value eager(Value v) {
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
      Value t = v.toTuple();
      if (t == null) return v.toFcnRcd();
      Value[] e = ((TupleValue) t).elems, f = new Value[e.length];
      for (int i = 0; i < e.length; i++) f[i] = eager(e[i]);
      return new TupleValue(f);
    }
    return v;
  }
  @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
  public static Value rShow(Value a) {
    Q x = q(a);
    return new StringValue(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(20)).toString());
  }
}

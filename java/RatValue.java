// A TLC value: an exact rational number (or "not a number").
// TLC integers are 32 bit; the specifications talk about coordinates, so the
// module Rat.tla declares exact rational arithmetic and the class Rat (its TLC
// module override) implements it on this value.
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.TLCVariable;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

public final class RatValue extends Value {
  public static final RatValue NAN = new RatValue();
  public static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
  public final BigInteger num, den; // den > 0, reduced; null for NaN

  private RatValue() { num = null; den = null; }

  private RatValue(BigInteger n, BigInteger d, boolean reduced) { num = n; den = d; }

  public static RatValue of(BigInteger n, BigInteger d) {
    int s = d.signum();
    if (s == 0) return NAN;
    if (s < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return ZERO;
    if (d.equals(BigInteger.ONE)) return new RatValue(n, d, true);
    int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
    if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
    if (d.bitLength() - 1 != d.getLowestSetBit()) {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new RatValue(n, d, true);
  }

  public static RatValue of(long n) { return of(BigInteger.valueOf(n), BigInteger.ONE); }

  public static RatValue of(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
    if (x == 0) return ZERO;
    long bits = Double.doubleToLongBits(x);
    int exp = (int) ((bits >> 52) & 0x7ff);
    long man = bits & 0xfffffffffffffL;
    if (exp == 0) exp = 1; else man |= 1L << 52;
    exp -= 1075;
    BigInteger n = BigInteger.valueOf(bits < 0 ? -man : man);
    if (exp >= 0) return of(n.shiftLeft(exp), BigInteger.ONE);
    return of(n, BigInteger.ONE.shiftLeft(-exp));
  }

  /** "12", "-3/4", "0x1.8p+1", "1.25", "nan", "inf" */
  public static RatValue parse(String s) {
    String t = s.toLowerCase();
    if (t.contains("n")) return NAN; // nan, inf
    int slash = t.indexOf('/');
    if (slash >= 0)
      return of(new BigInteger(t.substring(0, slash)), new BigInteger(t.substring(slash + 1)));
    if (t.contains("x")) return of(Double.parseDouble(t));
    java.math.BigDecimal d = new java.math.BigDecimal(t);
    if (d.scale() <= 0) return of(d.toBigInteger(), BigInteger.ONE);
    return of(d.unscaledValue(), BigInteger.TEN.pow(d.scale()));
  }

  public boolean isNaN() { return num == null; }

  public double toDouble() {
    if (isNaN()) return Double.NaN;
    return new java.math.BigDecimal(num).divide(new java.math.BigDecimal(den), java.math.MathContext.DECIMAL64).doubleValue();
  }

  @Override public byte getKind() { return STRINGVALUE; }
  @Override public String getKindString() { return "a rational"; }
  @Override public boolean member(Value v) { throw new RuntimeException("rational used as a set"); }
  @Override public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new RuntimeException("EXCEPT applied to a rational");
    return e.value;
  }
  @Override public Value takeExcept(ValueExcept[] e) {
    Value r = this;
    for (ValueExcept x : e) r = r.takeExcept(x);
    return r;
  }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isFinite() { return false; }
  @Override public int size() { throw new RuntimeException("rational used as a set"); }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public void write(IValueOutputStream o) throws java.io.IOException {
    throw new java.io.IOException("rational values are not spilled to disk");
  }

  @Override public int compareTo(Object o) {
    if (!(o instanceof RatValue)) return -1;
    RatValue r = (RatValue) o;
    if (isNaN()) return r.isNaN() ? 0 : -1;
    if (r.isNaN()) return 1;
    if (den.equals(r.den)) return num.compareTo(r.num);
    return num.multiply(r.den).compareTo(r.num.multiply(den));
  }

  @Override public boolean equals(Object o) {
    if (!(o instanceof RatValue)) return false;
    RatValue r = (RatValue) o;
    if (isNaN() || r.isNaN()) return isNaN() && r.isNaN();
    return num.equals(r.num) && den.equals(r.den);
  }

  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, "rat");
    return FP64.Extend(fp, isNaN() ? "nan" : num.toString(36) + "/" + den.toString(36));
  }

  @Override public TLCVariable toTLCVariable(TLCVariable v, java.util.Random r) {
    return v;
  }

  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    if (isNaN()) return sb.append("\"#nan\"");
    if (num.bitLength() < 40 && den.bitLength() < 40)
      return sb.append("\"#").append(num).append(den.equals(BigInteger.ONE) ? "" : "/" + den).append('"');
    double d = toDouble();
    return sb.append("\"#~").append(d).append('"');
  }
}

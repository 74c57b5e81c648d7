// TLC module override of Rat.tla: exact rational arithmetic.
import java.math.BigInteger;
import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
  private static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    if (v instanceof StringValue) {
      String s = ((StringValue) v).getVal().toString();
      return RatValue.parse(s.startsWith("#") ? s.substring(1) : s);
    }
    if (v instanceof LazyValue) throw new RuntimeException("lazy value");
    throw new RuntimeException("not a rational: " + v);
  }

  private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RR(Value v) { return r(v); }

  public static Value RAdd(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    if (a.isNaN() || c.isNaN()) return RatValue.NAN;
    if (a.den.equals(c.den)) return RatValue.of(a.num.add(c.num), a.den);
    return RatValue.of(a.num.multiply(c.den).add(c.num.multiply(a.den)), a.den.multiply(c.den));
  }

  public static Value RSub(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    if (a.isNaN() || c.isNaN()) return RatValue.NAN;
    if (a.den.equals(c.den)) return RatValue.of(a.num.subtract(c.num), a.den);
    return RatValue.of(a.num.multiply(c.den).subtract(c.num.multiply(a.den)), a.den.multiply(c.den));
  }

  public static Value RMul(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    if (a.isNaN() || c.isNaN()) return RatValue.NAN;
    return RatValue.of(a.num.multiply(c.num), a.den.multiply(c.den));
  }

  public static Value RDiv(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    if (a.isNaN() || c.isNaN()) return RatValue.NAN;
    return RatValue.of(a.num.multiply(c.den), a.den.multiply(c.num));
  }

  public static Value RNeg(Value x) {
    RatValue a = r(x);
    return a.isNaN() ? a : RatValue.of(a.num.negate(), a.den);
  }

  public static Value RAbs(Value x) {
    RatValue a = r(x);
    return a.isNaN() ? a : RatValue.of(a.num.abs(), a.den);
  }

  public static Value RLt(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    return b(!a.isNaN() && !c.isNaN() && a.compareTo(c) < 0);
  }

  public static Value RLe(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    return b(!a.isNaN() && !c.isNaN() && a.compareTo(c) <= 0);
  }

  public static Value REq(Value x, Value y) {
    RatValue a = r(x), c = r(y);
    return b(!a.isNaN() && !c.isNaN() && a.equals(c));
  }

  public static Value RIsNum(Value x) { return b(x instanceof RatValue && !((RatValue) x).isNaN()); }

  public static Value RFloor(Value x) {
    RatValue a = r(x);
    BigInteger[] q = a.num.divideAndRemainder(a.den);
    int k = q[0].intValueExact();
    if (q[1].signum() < 0) k--;
    return IntValue.gen(k);
  }

  /** nearest multiple of 2^-k */
  private static BigInteger fix(RatValue a, int k) {
    return a.num.shiftLeft(k + 1).divide(a.den).add(BigInteger.ONE).shiftRight(1);
  }

  public static Value RRound(Value x, Value bits) {
    RatValue a = r(x);
    if (a.isNaN()) return a;
    int k = ((IntValue) bits).val;
    if (a.den.bitLength() <= k) return a;
    return RatValue.of(fix(a, k), BigInteger.ONE.shiftLeft(k));
  }

  private static final int P = 140;

  /** square root, absolute error below 2^-100; NaN for negative numbers */
  public static Value RSqrt(Value x) {
    RatValue a = r(x);
    if (a.isNaN() || a.num.signum() < 0) return RatValue.NAN;
    int k = 120 + Math.max(0, a.den.bitLength() - a.num.bitLength());
    BigInteger n = a.num.shiftLeft(2 * k).divide(a.den);
    return RatValue.of(n.sqrt(), BigInteger.ONE.shiftLeft(k));
  }

  private static final BigInteger PI;
  static {
    // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
    PI = atanInv(5).shiftLeft(4).subtract(atanInv(239).shiftLeft(2)).shiftRight(20);
  }

  private static BigInteger atanInv(int q) {
    BigInteger one = BigInteger.ONE.shiftLeft(P + 20), t = one.divide(BigInteger.valueOf(q)), s = t;
    BigInteger q2 = BigInteger.valueOf((long) q * q);
    for (int i = 3; t.signum() != 0; i += 2) {
      t = t.divide(q2).negate();
      s = s.add(t.divide(BigInteger.valueOf(i)));
    }
    return s;
  }

  private static final HashMap<RatValue, RatValue[]> trig = new HashMap<>();

  private static synchronized RatValue[] sincos(RatValue deg) {
    if (deg.isNaN()) return new RatValue[] {deg, deg};
    BigInteger full = deg.den.multiply(BigInteger.valueOf(360));
    BigInteger n = deg.num.mod(full);
    BigInteger one = BigInteger.ONE.shiftLeft(P);
    BigInteger x = PI.multiply(n).divide(deg.den).divide(BigInteger.valueOf(180));
    BigInteger s = BigInteger.ZERO, c = BigInteger.ZERO, t = one;
    for (int i = 0; t.signum() != 0 && i < 400; i++) {
      switch (i & 3) {
        case 0: c = c.add(t); break;
        case 1: s = s.add(t); break;
        case 2: c = c.subtract(t); break;
        default: s = s.subtract(t);
      }
      t = t.multiply(x).shiftRight(P).divide(BigInteger.valueOf(i + 1));
    }
    return new RatValue[] {RatValue.of(s, one), RatValue.of(c, one)};
  }

  public static Value RSinDeg(Value x) { return sincos(r(x))[0]; }
  public static Value RCosDeg(Value x) { return sincos(r(x))[1]; }
  public static Value RPi() { return RatValue.of(PI, BigInteger.ONE.shiftLeft(P)); }

  // ------------------------------------------------------------------ traces
  /** ndjson file -> sequence of records; strings "#..." become rationals */
  public static Value LoadTrace(Value file) throws java.io.IOException {
    String f = ((StringValue) file).getVal().toString();
    java.util.List<Value> l = new java.util.ArrayList<>();
    try (java.io.BufferedReader in = new java.io.BufferedReader(new java.io.FileReader(f))) {
      for (String s; (s = in.readLine()) != null; )
        if (!s.isEmpty()) l.add(new Parser(s).value());
    }
    return new TupleValue(l.toArray(new Value[0]));
  }

  private static final class Parser {
    final String s;
    int i;

    Parser(String s) { this.s = s; }

    char peek() {
      while (Character.isWhitespace(s.charAt(i))) i++;
      return s.charAt(i);
    }

    Value value() {
      char c = peek();
      if (c == '{') {
        i++;
        java.util.List<UniqueString> names = new java.util.ArrayList<>();
        java.util.List<Value> vals = new java.util.ArrayList<>();
        while (peek() != '}') {
          if (peek() == ',') i++;
          peek();
          names.add(UniqueString.uniqueStringOf(str()));
          if (peek() != ':') throw new RuntimeException("bad json at " + i + ": " + s);
          i++;
          vals.add(value());
        }
        i++;
        RecordValue rv = new RecordValue(names.toArray(new UniqueString[0]), vals.toArray(new Value[0]), false);
        rv.deepNormalize();
        return rv;
      }
      if (c == '[') {
        i++;
        java.util.List<Value> vals = new java.util.ArrayList<>();
        while (peek() != ']') {
          if (peek() == ',') i++;
          vals.add(value());
        }
        i++;
        return new TupleValue(vals.toArray(new Value[0]));
      }
      if (c == '"') {
        String t = str();
        if (t.startsWith("#")) return RatValue.parse(t.substring(1));
        return new StringValue(t);
      }
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      int j = i;
      while (i < s.length() && "+-0123456789".indexOf(s.charAt(i)) >= 0) i++;
      return IntValue.gen(Integer.parseInt(s.substring(j, i)));
    }

    String str() {
      StringBuilder sb = new StringBuilder();
      i++;
      while (s.charAt(i) != '"') {
        char c = s.charAt(i++);
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n';
          else if (c == 't') c = '\t';
          else if (c == 'r') c = '\r';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
        }
        sb.append(c);
      }
      i++;
      return sb.toString();
    }
  }
}

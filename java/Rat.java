import tlc2.value.impl.*;
import java.math.BigInteger;
import java.math.BigDecimal;

/** TLC override of the arithmetic in spec/Rat.tla with unbounded integers. */
public class Rat {
  static final BigInteger Z = BigInteger.ZERO, I = BigInteger.ONE;
  static final BigInteger MX = BigInteger.valueOf(Integer.MAX_VALUE), MN = BigInteger.valueOf(Integer.MIN_VALUE + 1);

  static BigInteger bi(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).getVal().toString());
  }
  static BigInteger[] p(Value a) {
    Value[] e = ((TupleValue) a.toTuple()).elems;
    return new BigInteger[] { bi(e[0]), bi(e[1]) };
  }
  static boolean nan(BigInteger[] x) { return x[1].signum() == 0; }
  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return new TupleValue(new Value[] { IntValue.gen(0), IntValue.gen(0) });
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (g.signum() != 0 && !g.equals(I)) { n = n.divide(g); d = d.divide(g); }
    boolean fit = n.compareTo(MX) <= 0 && n.compareTo(MN) >= 0 && d.compareTo(MX) <= 0;
    if (fit) return new TupleValue(new Value[] { IntValue.gen(n.intValue()), IntValue.gen(d.intValue()) });
    return new TupleValue(new Value[] { new StringValue(n.toString()), new StringValue(d.toString()) });
  }
  static Value NAN() { return mk(Z, Z); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value IsNum(Value a) { return bool(!nan(p(a))); }
  public static Value RAdd(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    if (nan(x) || nan(y)) return NAN();
    return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RSub(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    if (nan(x) || nan(y)) return NAN();
    return mk(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RMul(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    if (nan(x) || nan(y)) return NAN();
    return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
  }
  public static Value RDiv(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    if (nan(x) || nan(y) || y[0].signum() == 0) return NAN();
    return mk(x[0].multiply(y[1]), x[1].multiply(y[0]));
  }
  public static Value RSign(Value a) {
    BigInteger[] x = p(a);
    return IntValue.gen(x[0].signum() * x[1].signum());
  }
  public static Value RCmp(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    if (nan(x) || nan(y)) return IntValue.gen(2);
    return IntValue.gen(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])).signum() * x[1].signum() * y[1].signum());
  }
  static BigDecimal dec(BigInteger[] x) {
    return new BigDecimal(x[0]).divide(new BigDecimal(x[1]), java.math.MathContext.DECIMAL128);
  }
  public static Value RCloseS(Value a, Value b, Value s) {
    BigInteger[] x = p(a), y = p(b), z = p(s);
    if (nan(x) || nan(y) || nan(z)) return bool(false);
    // |x-y| <= 1e-9*(|x|+|y|+|z|) + 1e-30   exactly, over the common denominator
    BigInteger d = x[1].multiply(y[1]).abs();
    BigInteger diff = x[0].multiply(y[1]).subtract(y[0].multiply(x[1])).abs();         // / d
    BigInteger sum = x[0].multiply(y[1]).abs().add(y[0].multiply(x[1]).abs());          // / d
    BigInteger zz = z[1].abs();
    // diff/d <= 1e-9*(sum/d + |z0|/zz) + 1e-30
    BigInteger E30 = BigInteger.TEN.pow(30), E21 = BigInteger.TEN.pow(21);
    BigInteger lhs = diff.multiply(zz).multiply(E30);
    BigInteger rhs = sum.multiply(zz).add(z[0].abs().multiply(d)).multiply(E21).add(d.multiply(zz));
    return bool(lhs.compareTo(rhs) <= 0);
  }
  public static Value RLn(Value a) {
    BigInteger[] x = p(a);
    if (nan(x) || x[0].signum() * x[1].signum() <= 0) return NAN();
    double r = Math.log(dec(x).doubleValue());
    BigDecimal d = new BigDecimal(r);
    return mk(d.unscaledValue().multiply(BigInteger.TEN.pow(Math.max(0, -d.scale()))), BigInteger.TEN.pow(Math.max(0, d.scale())));
  }
}

// TLC module override for spec/ZInt.tla: same operators, evaluated with BigInteger.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class ZInt {
  private static final TupleValue ZERO = new TupleValue(new Value[]{IntValue.gen(0)});
  private static final BigInteger MASK = BigInteger.valueOf(0x7fff);
  private static final TupleValue[] P2 = new TupleValue[300];
  static {
    for (int i = 0; i < P2.length; i++) P2[i] = (TupleValue) mk(BigInteger.ONE.shiftLeft(i));
  }
  private static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("ZInt: not a number: " + v);
    return ((TupleValue) t).elems;
  }
  private static int iv(Value v) { return ((IntValue) v).val; }
  // |v| < 2^60 as long, flagged by length
  private static boolean small(Value[] e) { return e.length <= 5; }
  private static long lng(Value[] e) {
    long r = 0;
    for (int i = e.length - 1; i >= 1; i--) r = (r << 15) | iv(e[i]);
    return iv(e[0]) < 0 ? -r : r;
  }
  public static BigInteger big(Value v) {
    Value[] e = elems(v);
    if (small(e)) return BigInteger.valueOf(lng(e));
    BigInteger r = BigInteger.ZERO;
    for (int i = e.length - 1; i >= 1; i--) r = r.shiftLeft(15).or(BigInteger.valueOf(iv(e[i])));
    return iv(e[0]) < 0 ? r.negate() : r;
  }
  private static Value mk(long x) {
    if (x == 0) return ZERO;
    if (x == Long.MIN_VALUE) return mk(BigInteger.valueOf(x));
    int s = x < 0 ? -1 : 1;
    long m = Math.abs(x);
    int n = (64 - Long.numberOfLeadingZeros(m) + 14) / 15;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    for (int i = 1; i <= n; i++) { e[i] = IntValue.gen((int) (m & 0x7fff)); m >>>= 15; }
    return new TupleValue(e);
  }
  public static Value mk(BigInteger x) {
    if (x.bitLength() < 63) return mk(x.longValue());
    int s = x.signum();
    BigInteger m = x.abs();
    int n = (m.bitLength() + 14) / 15;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    for (int i = 1; i <= n; i++) { e[i] = IntValue.gen(m.and(MASK).intValue()); m = m.shiftRight(15); }
    return new TupleValue(e);
  }
  public static Value ZNeg(Value a) {
    Value[] x = elems(a);
    Value[] e = x.clone();
    e[0] = IntValue.gen(-iv(x[0]));
    return new TupleValue(e);
  }
  public static Value ZSign(Value a) { return elems(a)[0]; }
  public static Value ZAdd(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return mk(lng(x) + lng(y));
    return mk(big(a).add(big(b)));
  }
  public static Value ZSub(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return mk(lng(x) - lng(y));
    return mk(big(a).subtract(big(b)));
  }
  public static Value ZMul(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (x.length + y.length <= 6) return mk(lng(x) * lng(y));
    return mk(big(a).multiply(big(b)));
  }
  public static Value ZQuot(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return mk(lng(x) / lng(y));
    return mk(big(a).divide(big(b)));
  }
  public static Value ZRem(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (small(x) && small(y)) return mk(lng(x) % lng(y));
    return mk(big(a).remainder(big(b)));
  }
  private static int cmp(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    int sx = iv(x[0]), sy = iv(y[0]);
    if (sx != sy) return sx < sy ? -1 : 1;
    int c = Integer.compare(x.length, y.length);
    for (int i = x.length - 1; c == 0 && i >= 1; i--) c = Integer.compare(iv(x[i]), iv(y[i]));
    return sx < 0 ? -c : c;
  }
  public static Value ZCmp(Value a, Value b) { return IntValue.gen(cmp(a, b)); }
  public static Value ZLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value ZLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value ZOfInt(Value n) { return mk((long) iv(n)); }
  public static Value ZToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value ZPow2(Value k) { return P2[iv(k)]; }
  public static Value ZShl(Value a, Value k) { return mk(big(a).shiftLeft(iv(k))); }
  public static Value ZShr(Value a, Value k) { return mk(big(a).shiftRight(iv(k))); }
  public static Value ZLow(Value a, Value k) {
    return mk(big(a).and(BigInteger.ONE.shiftLeft(iv(k)).subtract(BigInteger.ONE)));
  }
  public static Value ZBits(Value a) { return IntValue.gen(big(a).abs().bitLength()); }
  public static Value ZAnd(Value a, Value b) { return mk(big(a).and(big(b))); }
  public static Value ZOr(Value a, Value b) { return mk(big(a).or(big(b))); }
  public static Value ZXor(Value a, Value b) { return mk(big(a).xor(big(b))); }
  public static Value ZNot(Value a) { return mk(big(a).not()); }
}

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.overrides.ITLCOverrides;
import tlc2.value.impl.*;

/** java.math.BigInteger implementations of the operators of BigRat.tla. */
public class Ov implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { Ov.class }; }

  static final BigInteger B = BigInteger.valueOf(10000);
  static final IntValue[] SMALL = new IntValue[10001];
  static { for (int i = 0; i <= 10000; i++) SMALL[i] = IntValue.gen(i); }

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static int in(Value v) { return ((IntValue) v).val; }

  static BigInteger toZ(Value v) {
    Value[] e = elems(v);
    int s = in(e[0]);
    if (s == 0) return BigInteger.ZERO;
    if (e.length <= 5) {
      long r = 0;
      for (int i = e.length - 1; i >= 1; i--) r = r * 10000L + in(e[i]);
      return BigInteger.valueOf(s * r);
    }
    BigInteger r = BigInteger.ZERO;
    int i = e.length - 1;
    // group four limbs at a time
    int rem = (i % 4);
    if (rem != 0) {
      long x = 0; long m = 1;
      for (int k = 0; k < rem; k++) { x = x * 10000L + in(e[i]); i--; }
      r = BigInteger.valueOf(x);
    }
    BigInteger B4 = BigInteger.valueOf(10000000000000000L);
    while (i >= 1) {
      long x = 0;
      for (int k = 0; k < 4; k++) { x = x * 10000L + in(e[i]); i--; }
      r = r.multiply(B4).add(BigInteger.valueOf(x));
    }
    return s < 0 ? r.negate() : r;
  }

  static final BigInteger B4 = BigInteger.valueOf(10000000000000000L);
  static Value fromZ(BigInteger z) {
    int s = z.signum();
    if (s == 0) return new TupleValue(new Value[] { SMALL[0] });
    BigInteger m = z.abs();
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    out.add(IntValue.gen(s));
    while (m.bitLength() > 62) {
      BigInteger[] qr = m.divideAndRemainder(B4);
      long x = qr[1].longValue();
      for (int k = 0; k < 4; k++) { out.add(SMALL[(int) (x % 10000L)]); x /= 10000L; }
      m = qr[0];
    }
    long x = m.longValue();
    while (x != 0) { out.add(SMALL[(int) (x % 10000L)]); x /= 10000L; }
    // m can be 0 only if the number was a multiple exactly consumed: trim
    int n = out.size();
    while (n > 1 && ((IntValue) out.get(n - 1)).val == 0) n--;
    return new TupleValue(out.subList(0, n).toArray(new Value[0]));
  }

  static final class R {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static R toR(Value v) { Value[] e = elems(v); return new R(toZ(e[0]), toZ(e[1])); }
  static Value fromR(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("BigRat: division by zero");
    if (n.signum() == 0) return new TupleValue(new Value[] { fromZ(n), fromZ(BigInteger.ONE) });
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new TupleValue(new Value[] { fromZ(n), fromZ(d) });
  }
  static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) return qr[0].subtract(BigInteger.ONE);
    return qr[0];
  }

  @TLAPlusOperator(identifier = "Z", module = "BigRat", warn = false)
  public static Value z(Value i) { return fromZ(BigInteger.valueOf(in(i))); }
  @TLAPlusOperator(identifier = "ZNeg", module = "BigRat", warn = false)
  public static Value zneg(Value a) { return fromZ(toZ(a).negate()); }
  @TLAPlusOperator(identifier = "ZCmp", module = "BigRat", warn = false)
  public static Value zcmp(Value a, Value b) { return IntValue.gen(toZ(a).compareTo(toZ(b))); }
  @TLAPlusOperator(identifier = "ZAdd", module = "BigRat", warn = false)
  public static Value zadd(Value a, Value b) { return fromZ(toZ(a).add(toZ(b))); }
  @TLAPlusOperator(identifier = "ZMul", module = "BigRat", warn = false)
  public static Value zmul(Value a, Value b) { return fromZ(toZ(a).multiply(toZ(b))); }
  @TLAPlusOperator(identifier = "ZFloorDiv", module = "BigRat", warn = false)
  public static Value zfd(Value a, Value b) { return fromZ(floorDiv(toZ(a), toZ(b))); }

  @TLAPlusOperator(identifier = "Rat", module = "BigRat", warn = false)
  public static Value rat(Value i) { return fromR(BigInteger.valueOf(in(i)), BigInteger.ONE); }
  @TLAPlusOperator(identifier = "Frac", module = "BigRat", warn = false)
  public static Value frac(Value n, Value d) { return fromR(BigInteger.valueOf(in(n)), BigInteger.valueOf(in(d))); }
  @TLAPlusOperator(identifier = "RAdd", module = "BigRat", warn = false)
  public static Value radd(Value x, Value y) {
    R a = toR(x), b = toR(y);
    if (a.d.equals(b.d)) return fromR(a.n.add(b.n), a.d);
    return fromR(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  @TLAPlusOperator(identifier = "RNeg", module = "BigRat", warn = false)
  public static Value rneg(Value x) { R a = toR(x); return fromR(a.n.negate(), a.d); }
  @TLAPlusOperator(identifier = "RSub", module = "BigRat", warn = false)
  public static Value rsub(Value x, Value y) {
    R a = toR(x), b = toR(y);
    return fromR(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  @TLAPlusOperator(identifier = "RMul", module = "BigRat", warn = false)
  public static Value rmul(Value x, Value y) {
    R a = toR(x), b = toR(y);
    return fromR(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  @TLAPlusOperator(identifier = "RDiv", module = "BigRat", warn = false)
  public static Value rdiv(Value x, Value y) {
    R a = toR(x), b = toR(y);
    return fromR(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  @TLAPlusOperator(identifier = "RCmp", module = "BigRat", warn = false)
  public static Value rcmp(Value x, Value y) {
    R a = toR(x), b = toR(y);
    return IntValue.gen(a.n.multiply(b.d).compareTo(b.n.multiply(a.d)));
  }
  @TLAPlusOperator(identifier = "RFloor", module = "BigRat", warn = false)
  public static Value rfloor(Value x) { R a = toR(x); return fromZ(floorDiv(a.n, a.d)); }
  @TLAPlusOperator(identifier = "RTrunc", module = "BigRat", warn = false)
  public static Value rtrunc(Value x, Value k) {
    R a = toR(x);
    BigInteger p = B.pow(in(k));
    return fromR(floorDiv(a.n.multiply(p), a.d), p);
  }
  @TLAPlusOperator(identifier = "RSig", module = "BigRat", warn = false)
  public static Value rsig(Value x, Value k) {
    Value[] e = elems(x);
    R a = toR(x);
    int sh = in(k) - (elems(e[0]).length - elems(e[1]).length);
    if (sh >= 0) { BigInteger p = B.pow(sh); return fromR(floorDiv(a.n.multiply(p), a.d), p); }
    BigInteger p = B.pow(-sh);
    return fromR(floorDiv(a.n, a.d.multiply(p)).multiply(p), BigInteger.ONE);
  }
  @TLAPlusOperator(identifier = "RSum", module = "BigRat", warn = false)
  public static Value rsum(Value s) {
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (Value v : elems(s)) {
      R a = toR(v);
      if (a.d.equals(d)) n = n.add(a.n);
      else { 
        BigInteger g = a.d.gcd(d);
        BigInteger f = a.d.divide(g);
        n = n.multiply(f).add(a.n.multiply(d.divide(g))); d = d.multiply(f);
      }
    }
    return fromR(n, d);
  }
  @TLAPlusOperator(identifier = "RDot", module = "BigRat", warn = false)
  public static Value rdot(Value s, Value t) {
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    Value[] es = elems(s), et = elems(t);
    for (int i = 0; i < es.length; i++) {
      R x = toR(es[i]), y = toR(et[i]);
      BigInteger an = x.n.multiply(y.n), ad = x.d.multiply(y.d);
      if (an.signum() == 0) continue;
      if (ad.equals(d)) n = n.add(an);
      else {
        BigInteger g = ad.gcd(d);
        BigInteger f = ad.divide(g);
        n = n.multiply(f).add(an.multiply(d.divide(g))); d = d.multiply(f);
      }
    }
    return fromR(n, d);
  }
}

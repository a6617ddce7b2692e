// Accelerators for the operators of spec/Fx.tla.  Each method computes exactly the
// function that Fx.tla defines in TLA+ (FxSelfTest.tla compares the two on every run
// of the self test); TLC works without this class, only slower.
import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class FxOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { FxOverrides.class }; }

  static final int LB = 15, SC = 60;           // limb bits, scale bits
  static final int MASK = (1 << LB) - 1;

  static BigInteger big(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    int n = e.length - 1;
    if (n <= 4) {
      long r = 0;
      for (int i = n; i >= 1; i--) r = (r << LB) | ((IntValue) e[i]).val;
      return BigInteger.valueOf(s < 0 ? -r : r);
    }
    byte[] mag = new byte[(n * LB + 7) / 8 + 1];
    int bitpos = 0;
    for (int i = 1; i <= n; i++) {
      int v15 = ((IntValue) e[i]).val;
      int bytei = bitpos >> 3, off = bitpos & 7;
      int w = v15 << off;                      // up to 22 bits
      for (int k = 0; k < 3 && w != 0; k++) {
        mag[mag.length - 1 - bytei - k] |= (byte) (w & 0xff);
        w >>>= 8;
      }
      bitpos += LB;
    }
    return new BigInteger(s, mag);
  }

  static final IntValue[] SMALL = new IntValue[3];
  static final TupleValue ZERO = new TupleValue(new Value[] { IntValue.gen(0) });

  static Value val(BigInteger b) {
    int s = b.signum();
    if (s == 0) return ZERO;
    BigInteger m = b.abs();
    int n = (m.bitLength() + LB - 1) / LB;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    if (m.bitLength() <= 62) {
      long r = m.longValue();
      for (int i = 1; i <= n; i++) { e[i] = IntValue.gen((int) (r & MASK)); r >>>= LB; }
      return new TupleValue(e);
    }
    byte[] mag = m.toByteArray();
    int bitpos = 0;
    for (int i = 1; i <= n; i++) {
      int bytei = bitpos >> 3, off = bitpos & 7;
      int w = 0;
      for (int k = 0; k < 3; k++) {
        int idx = mag.length - 1 - bytei - k;
        if (idx >= 0) w |= (mag[idx] & 0xff) << (8 * k);
      }
      e[i] = IntValue.gen((w >>> off) & MASK);
      bitpos += LB;
    }
    return new TupleValue(e);
  }

  @TLAPlusOperator(identifier = "FxAdd", module = "Fx", warn = false)
  public static Value add(Value a, Value b) { return val(big(a).add(big(b))); }

  @TLAPlusOperator(identifier = "FxSub", module = "Fx", warn = false)
  public static Value sub(Value a, Value b) { return val(big(a).subtract(big(b))); }

  // truncation towards zero of (a*b)/2^SC
  static BigInteger mulB(BigInteger a, BigInteger b) {
    BigInteger p = a.multiply(b);
    return p.signum() < 0 ? p.negate().shiftRight(SC).negate() : p.shiftRight(SC);
  }

  @TLAPlusOperator(identifier = "FxMul", module = "Fx", warn = false)
  public static Value mul(Value a, Value b) { return val(mulB(big(a), big(b))); }

  // truncation towards zero of a*2^SC/b
  @TLAPlusOperator(identifier = "FxDiv", module = "Fx", warn = false)
  public static Value div(Value a, Value b) { return val(big(a).shiftLeft(SC).divide(big(b))); }

  // floor(sqrt(a*2^SC)) for a >= 0, and 0 for a < 0
  @TLAPlusOperator(identifier = "FxSqrt", module = "Fx", warn = false)
  public static Value sqrt(Value a) {
    BigInteger x = big(a);
    return x.signum() <= 0 ? ZERO : val(x.shiftLeft(SC).sqrt());
  }

  @TLAPlusOperator(identifier = "FxCmp", module = "Fx", warn = false)
  public static Value cmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }

  @TLAPlusOperator(identifier = "FxDot3", module = "Fx", warn = false)
  public static Value dot(Value a, Value b) {
    Value[] u = ((TupleValue) a.toTuple()).elems, w = ((TupleValue) b.toTuple()).elems;
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < 3; i++) r = r.add(mulB(big(u[i]), big(w[i])));
    return val(r);
  }

  static Value[] els(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static Value vec(BigInteger a, BigInteger b, BigInteger c) { return new TupleValue(new Value[] { val(a), val(b), val(c) }); }
  static BigInteger[] bigs(Value v) { Value[] e = els(v); return new BigInteger[] { big(e[0]), big(e[1]), big(e[2]) }; }

  @TLAPlusOperator(identifier = "VAdd", module = "Fx", warn = false)
  public static Value vadd(Value a, Value b) {
    BigInteger[] u = bigs(a), w = bigs(b);
    return vec(u[0].add(w[0]), u[1].add(w[1]), u[2].add(w[2]));
  }

  @TLAPlusOperator(identifier = "VSub", module = "Fx", warn = false)
  public static Value vsub(Value a, Value b) {
    BigInteger[] u = bigs(a), w = bigs(b);
    return vec(u[0].subtract(w[0]), u[1].subtract(w[1]), u[2].subtract(w[2]));
  }

  @TLAPlusOperator(identifier = "VScale", module = "Fx", warn = false)
  public static Value vscale(Value k, Value b) {
    BigInteger s = big(k); BigInteger[] w = bigs(b);
    return vec(mulB(s, w[0]), mulB(s, w[1]), mulB(s, w[2]));
  }

  @TLAPlusOperator(identifier = "VCross", module = "Fx", warn = false)
  public static Value vcross(Value a, Value b) {
    BigInteger[] u = bigs(a), w = bigs(b);
    return vec(mulB(u[1], w[2]).subtract(mulB(u[2], w[1])),
               mulB(u[2], w[0]).subtract(mulB(u[0], w[2])),
               mulB(u[0], w[1]).subtract(mulB(u[1], w[0])));
  }

  static BigInteger dotB(BigInteger[] u, BigInteger[] w) {
    return mulB(u[0], w[0]).add(mulB(u[1], w[1])).add(mulB(u[2], w[2]));
  }

  @TLAPlusOperator(identifier = "MApply", module = "Fx", warn = false)
  public static Value mapply(Value m, Value v) {
    Value[] r = els(m); BigInteger[] w = bigs(v);
    return vec(dotB(bigs(r[0]), w), dotB(bigs(r[1]), w), dotB(bigs(r[2]), w));
  }

  @TLAPlusOperator(identifier = "MTApply", module = "Fx", warn = false)
  public static Value mtapply(Value m, Value v) {
    Value[] r = els(m); BigInteger[] w = bigs(v), a = bigs(r[0]), b = bigs(r[1]), c = bigs(r[2]);
    return vec(dotB(new BigInteger[] { a[0], b[0], c[0] }, w),
               dotB(new BigInteger[] { a[1], b[1], c[1] }, w),
               dotB(new BigInteger[] { a[2], b[2], c[2] }, w));
  }

  @TLAPlusOperator(identifier = "Close", module = "Fx", warn = false)
  public static Value close(Value a, Value b, Value t) {
    if (els(a).length == 0 || els(b).length == 0) return BoolValue.ValFalse;
    return big(a).subtract(big(b)).abs().compareTo(big(t)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "FxTriMeets", module = "Fx", warn = false)
  public static Value triMeets(Value v, Value lo, Value hi) {
    Value[] p = els(v); BigInteger[] l = bigs(lo), h = bigs(hi), a = bigs(p[0]), b = bigs(p[1]), c = bigs(p[2]);
    for (int k = 0; k < 3; k++)
      if (a[k].min(b[k]).min(c[k]).compareTo(h[k]) > 0 || a[k].max(b[k]).max(c[k]).compareTo(l[k]) < 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "FxBoxMeets", module = "Fx", warn = false)
  public static Value boxMeets(Value a, Value b) {
    Value[] p = els(a), q = els(b);
    BigInteger[] al = bigs(p[0]), ah = bigs(p[1]), bl = bigs(q[0]), bh = bigs(q[1]);
    for (int k = 0; k < 3; k++)
      if (al[k].compareTo(bh[k]) > 0 || bl[k].compareTo(ah[k]) > 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
}

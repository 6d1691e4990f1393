import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC operator overrides for spec/Dyadic.tla: the same functions as
 *  spec/DyadicPure.tla, computed with BigInteger. */
public class Dyadic {
  static final int LB = 15, B = 1 << LB, K = 6;
  static final IntValue[] DIG = new IntValue[B];
  static { for (int i = 0; i < B; i++) DIG[i] = IntValue.gen(i); }
  static IntValue iv(int n) { return (n >= 0 && n < B) ? DIG[n] : IntValue.gen(n); }

  /** value = m * B^e (m signed, not necessarily canonical) */
  static final class N {
    final BigInteger m; final int e;
    N(BigInteger m, int e) { this.m = m; this.e = e; }
  }
  static final BigInteger Z = BigInteger.ZERO;
  static final N ZERO = new N(Z, 0);
  static final Value TZERO = new TupleValue(new Value[] { iv(0), iv(0), new TupleValue(new Value[0]) });

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Dyadic: sequence expected, got " + v.getKindString());
    return ((TupleValue) t).elems;
  }
  static int i(Value v) { return ((IntValue) v).val; }

  static N dec(Value v) {
    Value[] t = elems(v);
    int s = i(t[0]);
    if (s == 0) return ZERO;
    Value[] d = elems(t[2]);
    int n = d.length;
    BigInteger m;
    if (n <= 4) {
      long x = 0;
      for (int k = n - 1; k >= 0; k--) x = (x << LB) | i(d[k]);
      m = BigInteger.valueOf(x);
    } else {
      m = Z;
      int hi = n;
      while (hi > 0) {
        int lo = Math.max(0, hi - 4);
        long x = 0;
        for (int k = hi - 1; k >= lo; k--) x = (x << LB) | i(d[k]);
        m = m.shiftLeft(LB * (hi - lo)).or(BigInteger.valueOf(x));
        hi = lo;
      }
    }
    return new N(s < 0 ? m.negate() : m, i(t[1]));
  }

  static Value enc(N x) {
    int sg = x.m.signum();
    if (sg == 0) return TZERO;
    BigInteger m = x.m.abs();
    int e = x.e;
    int strip = m.getLowestSetBit() / LB;
    if (strip > 0) { m = m.shiftRight(LB * strip); e += strip; }
    int n = (m.bitLength() + LB - 1) / LB;
    Value[] d = new Value[n];
    int k = 0;
    while (k < n) {
      long x4 = m.longValue() & ((1L << 60) - 1);
      int top = Math.min(4, n - k);
      for (int j = 0; j < top; j++) { d[k++] = DIG[(int) (x4 & (B - 1))]; x4 >>>= LB; }
      if (k < n) m = m.shiftRight(60);
    }
    return new TupleValue(new Value[] { iv(sg), iv(e), new TupleValue(d) });
  }

  static int ndig(BigInteger absM) { return (absM.bitLength() + LB - 1) / LB; }

  /** keep the K leading digits, truncating towards zero */
  static N trunc(N x) {
    int sg = x.m.signum();
    if (sg == 0) return ZERO;
    int bl = x.m.bitLength();
    if (bl <= LB * K) return x;
    BigInteger m = x.m.abs();
    int n = ndig(m);
    if (n <= K) return x;
    int sh = n - K;
    m = m.shiftRight(LB * sh);
    return new N(sg < 0 ? m.negate() : m, x.e + sh);
  }
  static N add(N x, N y) {
    if (x.m.signum() == 0) return y;
    if (y.m.signum() == 0) return x;
    if (x.e == y.e) return new N(x.m.add(y.m), x.e);
    if (x.e > y.e) return new N(x.m.shiftLeft(LB * (x.e - y.e)).add(y.m), y.e);
    return new N(y.m.shiftLeft(LB * (y.e - x.e)).add(x.m), x.e);
  }
  static N neg(N x) { return new N(x.m.negate(), x.e); }
  static N sub(N x, N y) { return add(x, neg(y)); }
  static N mul(N x, N y) { return new N(x.m.multiply(y.m), x.e + y.e); }
  static N fi(int n) { return new N(BigInteger.valueOf(n), 0); }
  static N fmuli(N x, int n) { return trunc(new N(x.m.multiply(BigInteger.valueOf(n)), x.e)); }

  /** canonical top position */
  static int top(N x) { return x.e + ndig(x.m.abs()); }

  static N fdiv(N x, N y) {
    if (x.m.signum() == 0) return ZERO;
    if (y.m.signum() == 0) throw new RuntimeException("Dyadic: division by zero");
    int hi = top(x) - top(y), lo = hi - K;
    // q = floor(|x| / (|y| * B^lo))
    int sh = x.e - y.e - lo;
    BigInteger a = x.m.abs(), b = y.m.abs();
    if (sh >= 0) a = a.shiftLeft(LB * sh); else b = b.shiftLeft(LB * -sh);
    BigInteger q = a.divide(b);
    if (x.m.signum() * y.m.signum() < 0) q = q.negate();
    return trunc(new N(q, lo));
  }

  public static Value FromInt(IntValue n) { return enc(fi(n.val)); }
  public static Value Neg(Value x) { return enc(neg(dec(x))); }
  public static Value Abs(Value x) { N a = dec(x); return enc(new N(a.m.abs(), a.e)); }
  public static Value Add(Value x, Value y) { return enc(add(dec(x), dec(y))); }
  public static Value Sub(Value x, Value y) { return enc(sub(dec(x), dec(y))); }
  public static Value Mul(Value x, Value y) { return enc(mul(dec(x), dec(y))); }
  public static Value Cmp(Value x, Value y) { return iv2(sub(dec(x), dec(y)).m.signum()); }
  static IntValue iv2(int s) { return IntValue.gen(s); }
  static int magcmp(N x, N y) {
    N a = new N(x.m.abs(), x.e), b = new N(y.m.abs(), y.e);
    return sub(a, b).m.signum();
  }
  public static Value MagCmp(Value x, Value y) { return iv2(magcmp(dec(x), dec(y))); }
  public static Value Trunc(Value x) { return enc(trunc(canon(dec(x)))); }
  static N canon(N x) {
    if (x.m.signum() == 0) return ZERO;
    int st = x.m.getLowestSetBit() / LB;
    return st == 0 ? x : new N(x.m.shiftRight(LB * st), x.e + st);
  }
  public static Value FAdd(Value x, Value y) { return enc(trunc(add(dec(x), dec(y)))); }
  public static Value FSub(Value x, Value y) { return enc(trunc(sub(dec(x), dec(y)))); }
  public static Value FMul(Value x, Value y) { return enc(trunc(mul(dec(x), dec(y)))); }
  public static Value FMulInt(Value x, IntValue n) { return enc(fmuli(dec(x), n.val)); }
  public static Value FDiv(Value x, Value y) { return enc(fdiv(dec(x), dec(y))); }
  public static Value FDivInt(Value x, IntValue n) { return enc(fdiv(dec(x), fi(n.val))); }

  public static Value VAdd(Value a, Value b) {
    Value[] x = elems(a), y = elems(b); Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = enc(trunc(add(dec(x[k]), dec(y[k]))));
    return new TupleValue(r);
  }
  public static Value VSub(Value a, Value b) {
    Value[] x = elems(a), y = elems(b); Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = enc(trunc(sub(dec(x[k]), dec(y[k]))));
    return new TupleValue(r);
  }
  public static Value VMul(Value a, Value b) {
    Value[] x = elems(a), y = elems(b); Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = enc(trunc(mul(dec(x[k]), dec(y[k]))));
    return new TupleValue(r);
  }
  public static Value VScale(Value a, Value s) {
    Value[] x = elems(a); N y = dec(s); Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = enc(trunc(mul(dec(x[k]), y)));
    return new TupleValue(r);
  }
  public static Value VConst(Value x, IntValue n) {
    Value[] r = new Value[n.val];
    java.util.Arrays.fill(r, x);
    return new TupleValue(r);
  }
  public static Value Dot(Value a, Value b) {
    Value[] x = elems(a), y = elems(b); N acc = ZERO;
    for (int k = 0; k < x.length; k++)
      acc = canon(trunc(add(acc, canon(trunc(mul(dec(x[k]), dec(y[k])))))));
    return enc(acc);
  }
  public static Value Sum(Value a) {
    Value[] x = elems(a); N acc = ZERO;
    for (int k = 0; k < x.length; k++) acc = canon(trunc(add(acc, dec(x[k]))));
    return enc(acc);
  }
  public static Value LegStep(Value t, Value p, Value pm, IntValue lv) {
    Value[] tt = elems(t), pp = elems(p), qq = elems(pm); int l = lv.val;
    N l1 = fi(l + 1);
    Value[] r = new Value[tt.length];
    for (int k = 0; k < r.length; k++) {
      N u = fmuli(canon(trunc(mul(dec(tt[k]), dec(pp[k])))), 2 * l + 1);
      N v = fmuli(dec(qq[k]), l);
      N w = trunc(sub(canon(u), canon(v)));
      r[k] = enc(fdiv(canon(w), l1));
    }
    return new TupleValue(r);
  }
  public static Value ChebStep(Value t, Value p, Value pm) {
    Value[] tt = elems(t), pp = elems(p), qq = elems(pm);
    Value[] r = new Value[tt.length];
    for (int k = 0; k < r.length; k++) {
      N u = fmuli(canon(trunc(mul(dec(tt[k]), dec(pp[k])))), 2);
      r[k] = enc(trunc(sub(canon(u), dec(qq[k]))));
    }
    return new TupleValue(r);
  }
  public static Value Proj(Value pts, Value y) {
    Value[] P = elems(pts), Y = elems(y);
    N y0 = dec(Y[0]), y1 = dec(Y[1]), y2 = dec(Y[2]);
    Value[] r = new Value[P.length];
    for (int k = 0; k < r.length; k++) {
      Value[] x = elems(P[k]);
      N a = canon(trunc(mul(dec(x[0]), y0))), b = canon(trunc(mul(dec(x[1]), y1))), c = canon(trunc(mul(dec(x[2]), y2)));
      r[k] = enc(trunc(add(canon(trunc(add(a, b))), c)));
    }
    return new TupleValue(r);
  }
  public static Value SortPerm(Value a) {
    Value[] x = elems(a); final N[] v = new N[x.length]; Integer[] p = new Integer[x.length];
    for (int k = 0; k < x.length; k++) { v[k] = dec(x[k]); p[k] = k; }
    java.util.Arrays.sort(p, (i, j) -> sub(v[i], v[j]).m.signum());
    Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(p[k] + 1);
    return new TupleValue(r);
  }
  public static Value MaxAbs(Value a) {
    Value[] x = elems(a); N m = ZERO;
    for (int k = 0; k < x.length; k++) { N v = dec(x[k]); if (magcmp(v, m) > 0) m = new N(v.m.abs(), v.e); }
    return enc(m);
  }
}

// Speed overrides for spec/Z.tla (TLC loads a class named like the module).
// The TLA+ definitions in Z.tla are the meaning; ZCheck.tla compares the two.
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class Z {
  static final int SMALL = 1 << 30;
  static final BigInteger BSMALL = BigInteger.valueOf(SMALL);

  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int n = e.length - 1;
    // limbs of 15 bits, little endian
    byte[] out = new byte[(n * 15 + 7) / 8 + 1];
    int bit = 0;
    for (int i = 0; i < n; i++, bit += 15) {
      int l = ((IntValue) e[i + 1]).val;
      int by = bit >> 3, sh = bit & 7;
      long w = ((long) l) << sh;
      for (int k = 0; k < 3; k++) {
        int idx = out.length - 1 - (by + k);
        int b = (int) ((w >> (8 * k)) & 0xff);
        if (b != 0) out[idx] |= (byte) b;
      }
    }
    return new BigInteger(((IntValue) e[0]).val, out);
  }

  static Value mk(BigInteger x) {
    if (x.bitLength() <= 30) {
      int v = x.intValue();
      if (v > -SMALL && v < SMALL) return IntValue.gen(v);
    }
    int s = x.signum();
    BigInteger m = x.abs();
    int n = (m.bitLength() + 14) / 15;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    byte[] b = m.toByteArray();
    for (int i = 0; i < n; i++) {
      int bit = i * 15, by = bit >> 3, sh = bit & 7;
      int w = 0;
      for (int k = 0; k < 3; k++) {
        int idx = b.length - 1 - (by + k);
        if (idx >= 0) w |= (b[idx] & 0xff) << (8 * k);
      }
      e[i + 1] = IntValue.gen((w >> sh) & 0x7fff);
    }
    return new TupleValue(e);
  }

  static Value mkl(long x) {
    if (x > -SMALL && x < SMALL) return IntValue.gen((int) x);
    return mk(BigInteger.valueOf(x));
  }

  public static Value ZAdd(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue)
      return mkl((long) ((IntValue) a).val + ((IntValue) b).val);
    return mk(big(a).add(big(b)));
  }
  public static Value ZSub(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue)
      return mkl((long) ((IntValue) a).val - ((IntValue) b).val);
    return mk(big(a).subtract(big(b)));
  }
  public static Value ZMul(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue)
      return mkl((long) ((IntValue) a).val * ((IntValue) b).val);
    return mk(big(a).multiply(big(b)));
  }
  public static Value ZNeg(Value a) {
    if (a instanceof IntValue) return mkl(-(long) ((IntValue) a).val);
    return mk(big(a).negate());
  }
  public static Value ZAbs(Value a) {
    if (a instanceof IntValue) return mkl(Math.abs((long) ((IntValue) a).val));
    return mk(big(a).abs());
  }
  public static IntValue ZSgn(Value a) {
    if (a instanceof IntValue) return IntValue.gen(Integer.signum(((IntValue) a).val));
    return IntValue.gen(((IntValue) ((TupleValue) a.toTuple()).elems[0]).val);
  }
  public static IntValue ZCmp(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue)
      return IntValue.gen(Integer.compare(((IntValue) a).val, ((IntValue) b).val));
    return IntValue.gen(big(a).compareTo(big(b)));
  }
  public static Value ZPow2(Value n) {
    return mk(BigInteger.ONE.shiftLeft(((IntValue) n).val));
  }
  public static Value ZSumSeq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    long acc = 0; BigInteger bacc = BigInteger.ZERO;
    for (Value v : t.elems) {
      if (v instanceof IntValue) {
        acc += ((IntValue) v).val;
      } else bacc = bacc.add(big(v));
    }
    return mk(bacc.add(BigInteger.valueOf(acc)));
  }
}

import tlc2.value.impl.*;

/** Evaluates the operators of spec/RealNum.tla: reals are pairs of the 32-bit halves of a double. */
public class RealNum {
  static double d(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val;
    long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static Value v(double x) {
    if (x == 0.0) x = 0.0; // canonical zero
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RInt(Value n) { return v(((IntValue) n).val); }
  public static Value RDec(Value m, Value k) {
    return v(Double.parseDouble(((IntValue) m).val + "e" + ((IntValue) k).val));
  }
  public static Value RAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value RNeg(Value a) { return v(-d(a)); }
  public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value RMax(Value a, Value b) { return v(Math.max(d(a), d(b))); }
  public static Value RMin(Value a, Value b) { return v(Math.min(d(a), d(b))); }
  public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return v(Math.sin(d(a))); }
  public static Value RCos(Value a) { return v(Math.cos(d(a))); }
  public static Value RAtan2(Value y, Value x) { return v(Math.atan2(d(y), d(x))); }
  public static Value RExp(Value a) { return v(Math.exp(d(a))); }
  public static Value RLn(Value a) { return v(Math.log(d(a))); }
  public static Value RLog1p(Value a) { return v(Math.log1p(d(a))); }
  public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value RFinite(Value a) { return b(Double.isFinite(d(a))); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value RPi() { return v(Math.PI); }
  /** k-th number of the pseudo-random stream `seed`, uniform in [0,1) (splitmix64). */
  public static Value RUnif(Value seed, Value k) {
    return v((mix(((IntValue) seed).val, ((IntValue) k).val) >>> 11) * 0x1.0p-53);
  }
  static long mix(int seed, int k) {
    long z = (((long) seed) << 32) ^ (k & 0xffffffffL);
    for (int i = 0; i < 2; i++) {
      z += 0x9E3779B97F4A7C15L;
      z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
      z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
      z = z ^ (z >>> 31);
    }
    return z;
  }
  /** k-th integer of the stream, uniform in 0..n-1. */
  public static Value RPick(Value seed, Value k, Value n) {
    return IntValue.gen((int) Long.remainderUnsigned(mix(((IntValue) seed).val, ((IntValue) k).val), ((IntValue) n).val));
  }
}

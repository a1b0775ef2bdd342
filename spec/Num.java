import tlc2.value.impl.*;
import java.util.concurrent.ConcurrentHashMap;

/** IEEE double arithmetic for Num.tla. A double is the tuple <<hi, lo>> of its bits. */
public final class Num {
  static final ConcurrentHashMap<String, Value> lits = new ConcurrentHashMap<>();
  static double d(Value v) {
    TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    int hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToRawLongBits(x == 0 ? 0.0 : x);   // one zero: -0 and 0 are the same state
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FLit(Value s) {
    return lits.computeIfAbsent(((StringValue) s).val.toString(), k -> v(Double.parseDouble(k)));
  }
  public static Value FInt(Value i) { return v(((IntValue) i).val); }
  public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value FNeg(Value x) { return v(-d(x)); }
  public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
  static double max(double a, double b) { return a > b ? a : b; }
  static double min(double a, double b) { return a < b ? a : b; }
  public static Value FMax(Value x, Value y) { return v(max(d(x), d(y))); }
  public static Value FMin(Value x, Value y) { return v(min(d(x), d(y))); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  /** C's printf of one double for %.Nf and %.Ne: exact decimal expansion, ties to even. */
  public static Value FFmt(Value f, Value x) {
    String fmt = ((StringValue) f).val.toString(); double a = d(x);
    if (Double.isNaN(a)) return new StringValue("nan");
    if (Double.isInfinite(a)) return new StringValue(a > 0 ? "inf" : "-inf");
    int prec = Integer.parseInt(fmt.substring(2, fmt.length() - 1));
    java.math.BigDecimal b = new java.math.BigDecimal(a);
    if (fmt.endsWith("e")) b = b.signum() == 0 ? b : b.round(new java.math.MathContext(prec + 1, java.math.RoundingMode.HALF_EVEN));
    else b = b.setScale(prec, java.math.RoundingMode.HALF_EVEN);
    String s = String.format(java.util.Locale.ROOT, fmt, b);
    if (a < 0 && !s.startsWith("-")) s = "-" + s;
    if (s.startsWith("-0") && s.matches("-0(\\.0*)?(e[+-]00)?")) s = s.substring(1);   // minus zero prints as zero
    return new StringValue(s);
  }
  public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
}

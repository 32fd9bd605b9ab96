import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** TLC override of Float64.tla: a double is the pair <<high 32 bits, low 32 bits>> of its IEEE-754 encoding. */
public class Float64 {
  private static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value v(double x) {
    if (x == 0.0) x = 0.0; // one zero
    long b = Double.doubleToLongBits(x); // one NaN
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int i(Value v) { return ((IntValue) v).val; }

  public static Value FInt(Value a) { return v(i(a)); }
  public static Value FRat(Value a, Value c) { return v((double) i(a) / i(c)); }
  public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  public static Value FLog(Value a) { return v(Math.log(d(a))); }
  public static Value FMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
  public static Value FMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  /** log((e^a + e^c) / 2) */
  public static Value FLogMeanExp(Value a, Value c) {
    double x = d(a), y = d(c), m = Math.max(x, y);
    if (Double.isInfinite(m)) return v(m);
    return v(m + Math.log((Math.exp(x - m) + Math.exp(y - m)) / 2));
  }
  public static Value FClose(Value a, Value c, Value rtol, Value atol) {
    double x = d(a), y = d(c);
    if (Double.isNaN(x) || Double.isNaN(y)) return b(false);
    if (x == y) return b(true);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value FSum(Value s) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    double t = 0;
    for (Value x : e) t += d(x);
    return v(t);
  }
  /** sum of s[i] over the set of indices */
  public static Value FSumIdx(Value s, Value set) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    SetEnumValue se = (SetEnumValue) set.toSetEnum();
    se.normalize();
    double t = 0;
    for (int k = 0; k < se.elems.size(); k++) t += d(e[((IntValue) se.elems.elementAt(k)).val - 1]);
    return v(t);
  }
  /** the sequence s[i] * t[i] */
  public static Value FMulSeq(Value s, Value t) {
    Value[] e = ((TupleValue) s.toTuple()).elems, f = ((TupleValue) t.toTuple()).elems;
    Value[] r = new Value[e.length];
    for (int k = 0; k < e.length; k++) r[k] = v(d(e[k]) * d(f[k]));
    return new TupleValue(r);
  }
  /** the largest number of a set, -infinity when empty */
  public static Value FMaxSet(Value set) {
    SetEnumValue se = (SetEnumValue) set.toSetEnum();
    double m = Double.NEGATIVE_INFINITY;
    for (int k = 0; k < se.elems.size(); k++) m = Math.max(m, d((Value) se.elems.elementAt(k)));
    return v(m);
  }
  /** the smallest number of a set, +infinity when empty */
  public static Value FMinSet(Value set) {
    SetEnumValue se = (SetEnumValue) set.toSetEnum();
    double m = Double.POSITIVE_INFINITY;
    for (int k = 0; k < se.elems.size(); k++) m = Math.min(m, d((Value) se.elems.elementAt(k)));
    return v(m);
  }
  public static Value FSin(Value a) { return v(Math.sin(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FFloor(Value a) { return v(Math.floor(d(a))); }
  /** the value itself, with all lazy functions and sets inside it evaluated */
  public static Value Force(Value x) {
    if (x instanceof LazyValue) throw new RuntimeException("lazy");
    if (x instanceof FcnLambdaValue) {
      Value t = x.toTuple();
      x = t != null ? t : (Value) x.toFcnRcd();
    }
    if (x instanceof TupleValue) {
      Value[] e = ((TupleValue) x).elems, r = new Value[e.length];
      for (int k = 0; k < e.length; k++) r[k] = Force(e[k]);
      return new TupleValue(r);
    }
    if (x instanceof RecordValue) {
      RecordValue q = (RecordValue) x;
      Value[] r = new Value[q.values.length];
      for (int k = 0; k < r.length; k++) r[k] = Force(q.values[k]);
      RecordValue y = new RecordValue(q.names, r, false);
      y.normalize();
      return y;
    }
    if (x instanceof FcnRcdValue) {
      FcnRcdValue q = (FcnRcdValue) x;
      Value[] r = new Value[q.values.length];
      for (int k = 0; k < r.length; k++) r[k] = Force(q.values[k]);
      Value[] dom = q.getDomainAsValues();
      for (int k = 0; k < dom.length; k++) dom[k] = Force(dom[k]);
      FcnRcdValue y = new FcnRcdValue(dom, r, false);
      y.normalize();
      return y;
    }
    Value se = x.toSetEnum();
    if (se != null) { se.normalize(); return se; }
    return x;
  }
  public static Value FStr(Value a) { return new StringValue(Double.toString(d(a))); }
}

package tlc2.overrides;

import com.google.gson.stream.JsonReader;
import com.google.gson.stream.JsonToken;
import java.io.BufferedReader;
import java.io.FileReader;
import java.io.IOException;
import java.util.ArrayList;
import java.util.TreeMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Java side of spec/RealArith.tla: real arithmetic and the trace reader. */
public final class RealArith {
  private static final String M = "RealArith";

  private static RealValue r(Value x) {
    if (x instanceof RealValue) return (RealValue) x;
    if (x instanceof IntValue) return new RealValue(((IntValue) x).val);
    throw new RuntimeException("a real number expected, found " + x.toString());
  }

  // d*w where a vanishing derivative stays zero even if w is infinite
  private static double m(double w, double d) { return d == 0.0 ? 0.0 : w * d; }

  @TLAPlusOperator(identifier = "R", module = M, warn = false)
  public static Value R(Value i) { return r(i); }

  @TLAPlusOperator(identifier = "RLit", module = M, warn = false)
  public static Value RLit(StringValue s) { return new RealValue(Double.parseDouble(s.val.toString())); }

  @TLAPlusOperator(identifier = "RDual", module = M, warn = false)
  public static Value RDual(Value v, Value d) { return new RealValue(r(v).v, r(d).v); }

  @TLAPlusOperator(identifier = "RVal", module = M, warn = false)
  public static Value RVal(Value x) { return new RealValue(r(x).v); }

  @TLAPlusOperator(identifier = "RDer", module = M, warn = false)
  public static Value RDer(Value x) { return new RealValue(r(x).d); }

  @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
  public static Value RAdd(Value a, Value b) {
    RealValue x = r(a), y = r(b);
    return new RealValue(x.v + y.v, x.d + y.d);
  }

  @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
  public static Value RSub(Value a, Value b) {
    RealValue x = r(a), y = r(b);
    return new RealValue(x.v - y.v, x.d - y.d);
  }

  @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
  public static Value RMul(Value a, Value b) {
    RealValue x = r(a), y = r(b);
    return new RealValue(x.v * y.v, m(y.v, x.d) + m(x.v, y.d));
  }

  @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
  public static Value RDiv(Value a, Value b) {
    RealValue x = r(a), y = r(b);
    return new RealValue(x.v / y.v, m(1 / y.v, x.d) - m(x.v / (y.v * y.v), y.d));
  }

  @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
  public static Value RNeg(Value a) { RealValue x = r(a); return new RealValue(-x.v, -x.d); }

  @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
  public static Value RAbs(Value a) {
    RealValue x = r(a);
    return new RealValue(Math.abs(x.v), x.v > 0 ? x.d : x.v < 0 ? -x.d : 0);
  }

  @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
  public static Value RExp(Value a) {
    RealValue x = r(a); double e = Math.exp(x.v);
    return new RealValue(e, m(e, x.d));
  }

  @TLAPlusOperator(identifier = "RLog", module = M, warn = false)
  public static Value RLog(Value a) {
    RealValue x = r(a);
    return new RealValue(Math.log(x.v), m(1 / x.v, x.d));
  }

  @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
  public static Value RSqrt(Value a) {
    RealValue x = r(a); double s = Math.sqrt(x.v);
    return new RealValue(s, m(0.5 / s, x.d));
  }

  @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
  public static Value RPow(Value a, Value b) {
    RealValue x = r(a); double p = r(b).v;
    return new RealValue(Math.pow(x.v, p), p == 0 ? 0 : m(p * Math.pow(x.v, p - 1), x.d));
  }

  @TLAPlusOperator(identifier = "RSin", module = M, warn = false)
  public static Value RSin(Value a) { RealValue x = r(a); return new RealValue(Math.sin(x.v), m(Math.cos(x.v), x.d)); }

  @TLAPlusOperator(identifier = "RCos", module = M, warn = false)
  public static Value RCos(Value a) { RealValue x = r(a); return new RealValue(Math.cos(x.v), m(-Math.sin(x.v), x.d)); }

  @TLAPlusOperator(identifier = "RTanh", module = M, warn = false)
  public static Value RTanh(Value a) {
    RealValue x = r(a); double t = Math.tanh(x.v);
    return new RealValue(t, m(1 - t * t, x.d));
  }

  @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
  public static Value RLt(Value a, Value b) { return r(a).v < r(b).v ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
  public static Value RLe(Value a, Value b) { return r(a).v <= r(b).v ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "REq", module = M, warn = false)
  public static Value REq(Value a, Value b) { return r(a).v == r(b).v ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RIsNaN", module = M, warn = false)
  public static Value RIsNaN(Value a) { return Double.isNaN(r(a).v) ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RIsFinite", module = M, warn = false)
  public static Value RIsFinite(Value a) {
    double v = r(a).v;
    return !Double.isNaN(v) && !Double.isInfinite(v) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RFloor", module = M, warn = false)
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(r(a).v)); }

  @TLAPlusOperator(identifier = "RFloat32", module = M, warn = false)
  public static Value RFloat32(Value a) { return new RealValue((double) (float) r(a).v); }

  @TLAPlusOperator(identifier = "RClose", module = M, warn = false)
  public static Value RClose(Value a, Value b, Value tol) {
    double x = r(a).v, y = r(b).v, t = r(tol).v;
    boolean ok;
    if (Double.isNaN(x) || Double.isNaN(y)) ok = Double.isNaN(x) && Double.isNaN(y);
    else if (Double.isInfinite(x) || Double.isInfinite(y)) ok = x == y;
    else ok = Math.abs(x - y) <= t * (1 + Math.max(Math.abs(x), Math.abs(y)));
    return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RNear", module = M, warn = false)
  public static Value RNear(Value a, Value b, Value rel, Value abs) {
    double x = r(a).v, y = r(b).v;
    boolean ok;
    if (Double.isNaN(x) || Double.isNaN(y)) ok = Double.isNaN(x) && Double.isNaN(y);
    else if (Double.isInfinite(x) || Double.isInfinite(y)) ok = x == y;
    else ok = Math.abs(x - y) <= r(rel).v * Math.max(Math.abs(x), Math.abs(y)) + r(abs).v;
    return ok ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("a sequence expected, found " + s.toString());
    return ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "RSum", module = M, warn = false)
  public static Value RSum(Value s) {
    double v = 0, d = 0;
    for (Value e : elems(s)) { RealValue x = r(e); v += x.v; d += x.d; }
    return new RealValue(v, d);
  }

  @TLAPlusOperator(identifier = "RDot", module = M, warn = false)
  public static Value RDot(Value s, Value t) {
    Value[] a = elems(s), b = elems(t);
    if (a.length != b.length) throw new RuntimeException("RDot: lengths " + a.length + " and " + b.length);
    double v = 0, d = 0;
    for (int i = 0; i < a.length; i++) {
      RealValue x = r(a[i]), y = r(b[i]);
      v += x.v * y.v;
      d += m(y.v, x.d) + m(x.v, y.d);
    }
    return new RealValue(v, d);
  }

  @TLAPlusOperator(identifier = "Force", module = M, warn = false)
  public static Value Force(Value s) {
    Value[] es = elems(s);
    for (int i = 0; i < es.length; i++) if (es[i] instanceof tlc2.value.impl.LazyValue) es[i] = es[i].normalize();
    return new TupleValue(es);
  }

  // ---- reading traces -----------------------------------------------------

  @TLAPlusOperator(identifier = "LoadTrace", module = M, warn = false)
  public static synchronized Value LoadTrace(StringValue path) throws IOException {
    Value cached = LOADED.get(path.val.toString());
    if (cached != null) return cached;
    Value v = load(path);
    LOADED.put(path.val.toString(), v);
    return v;
  }

  private static final TreeMap<String, Value> LOADED = new TreeMap<>();

  private static Value load(StringValue path) throws IOException {
    ArrayList<Value> lines = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new FileReader(path.val.toString()))) {
      String line;
      while ((line = br.readLine()) != null) {
        if (line.isEmpty()) continue;
        JsonReader jr = new JsonReader(new java.io.StringReader(line));
        jr.setLenient(true);
        lines.add(read(jr));
      }
    }
    return new TupleValue(lines.toArray(new Value[0]));
  }

  private static Value read(JsonReader jr) throws IOException {
    JsonToken t = jr.peek();
    switch (t) {
      case BEGIN_ARRAY: {
        ArrayList<Value> xs = new ArrayList<>();
        jr.beginArray();
        while (jr.hasNext()) xs.add(read(jr));
        jr.endArray();
        return new TupleValue(xs.toArray(new Value[0]));
      }
      case BEGIN_OBJECT: {
        ArrayList<UniqueString> ks = new ArrayList<>();
        ArrayList<Value> vs = new ArrayList<>();
        jr.beginObject();
        while (jr.hasNext()) {
          ks.add(UniqueString.uniqueStringOf(jr.nextName()));
          vs.add(read(jr));
        }
        jr.endObject();
        RecordValue rv = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
        rv.deepNormalize();
        return rv;
      }
      case STRING: {
        String s = jr.nextString();
        if (s.equals("NaN")) return new RealValue(Double.NaN);
        if (s.equals("+Inf")) return new RealValue(Double.POSITIVE_INFINITY);
        if (s.equals("-Inf")) return new RealValue(Double.NEGATIVE_INFINITY);
        return new StringValue(s);
      }
      case NUMBER: {
        String s = jr.nextString();
        if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) return new RealValue(Double.parseDouble(s));
        return IntValue.gen(Integer.parseInt(s));
      }
      case BOOLEAN:
        return jr.nextBoolean() ? BoolValue.ValTrue : BoolValue.ValFalse;
      case NULL:
        jr.nextNull();
        return new TupleValue(new Value[0]);
      default:
        throw new IOException("unexpected JSON token " + t);
    }
  }
}

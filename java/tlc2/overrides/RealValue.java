package tlc2.overrides;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.ValueConstants;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * A real number for TLC, as a dual number: v is the value (IEEE double), d its
 * derivative along the one direction that the specification chose with RDual.
 */
public final class RealValue extends Value {
  public final double v;
  public final double d;

  public RealValue(double v) { this(v, 0.0); }
  public RealValue(double v, double d) { this.v = v; this.d = d; }

  @Override public byte getKind() { return REALVALUE; }
  @Override public String getKindString() { return "a real number"; }
  @Override public boolean member(Value elem) { throw new RuntimeException("not a set: real number"); }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx >= ex.path.length) return ex.value; throw new RuntimeException("EXCEPT on a real number"); }
  @Override public Value takeExcept(ValueExcept[] exs) {
    Value v = this;
    for (ValueExcept ex : exs) {
      if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a real number");
      v = ex.value;
    }
    return v;
  }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isFinite() { throw new RuntimeException("not a set: real number"); }
  @Override public int size() { throw new RuntimeException("size of a real number"); }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public boolean mutates() { return false; }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, ValueConstants.REALVALUE);
    fp = FP64.Extend(fp, Double.doubleToLongBits(v));
    return FP64.Extend(fp, Double.doubleToLongBits(d));
  }
  @Override public int compareTo(Object o) {
    if (o instanceof RealValue) {
      RealValue r = (RealValue) o;
      int c = Double.compare(v, r.v);
      return c != 0 ? c : Double.compare(d, r.d);
    }
    throw new RuntimeException("comparing a real number with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RealValue) {
      RealValue r = (RealValue) o;
      return Double.doubleToLongBits(v) == Double.doubleToLongBits(r.v)
          && Double.doubleToLongBits(d) == Double.doubleToLongBits(r.d);
    }
    if (o instanceof tlc2.value.impl.ModelValue) return false;
    throw new RuntimeException("comparing a real number with " + o);
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    sb.append(v);
    if (d != 0.0) sb.append("+").append(d).append("eps");
    return sb;
  }
}

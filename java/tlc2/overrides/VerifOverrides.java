package tlc2.overrides;

public final class VerifOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { RealArith.class }; }
}

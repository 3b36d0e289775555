import tlc2.value.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** A rational too long to be worth interning as a string; see Rat.m. */
public class RatValue extends Value {
  final Rat.Q q;
  RatValue(Rat.Q q) { this.q = q; }
  String str() { return q.n + "/" + q.d; }
  public byte getKind() { return ValueConstants.STRINGVALUE; }
  public int compareTo(Object o) {
    if (o instanceof RatValue) return q.cmp(((RatValue) o).q);
    return str().compareTo(o.toString());
  }
  public boolean equals(Object o) {
    return o instanceof RatValue && q.n.equals(((RatValue) o).q.n) && q.d.equals(((RatValue) o).q.d);
  }
  public boolean member(Value v) { throw new RuntimeException("RatValue: member"); }
  public Value takeExcept(ValueExcept e) { return e.idx < e.path.length ? fail() : e.value; }
  public Value takeExcept(ValueExcept[] e) { return fail(); }
  private Value fail() { throw new RuntimeException("RatValue: EXCEPT"); }
  public Value normalize() { return this; }
  public boolean isNormalized() { return true; }
  public boolean isFinite() { return true; }
  public int size() { return 1; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public void write(IValueOutputStream s) throws java.io.IOException { new StringValue(str()).write(s); }
  public long fingerPrint(long fp) { return new StringValue(str()).fingerPrint(fp); }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append('"').append(str()).append('"'); }
}

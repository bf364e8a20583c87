import java.security.MessageDigest;
import tlc2.value.impl.*;
import util.UniqueString;

/** Native evaluation of the primitive operators of module RadiusPrims (same meaning as their TLA+ definitions). */
public class RadiusPrims {
  private static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) {
      int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      b[i] = (byte) x;
    }
    return b;
  }
  private static final IntValue[] INTS = new IntValue[256];
  static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }
  private static Value seq(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = INTS[b[i] & 0xff];
    return new TupleValue(e);
  }
  public static Value MD5(Value v) throws Exception {
    return seq(MessageDigest.getInstance("MD5").digest(bytes(v)));
  }
  public static Value HexBytes(Value v) {
    String s = ((StringValue) v).val.toString();
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return seq(b);
  }
  public static Value XorByte(Value a, Value b) {
    return IntValue.gen(((IntValue) a).val ^ ((IntValue) b).val);
  }
}

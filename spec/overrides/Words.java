import tlc2.value.impl.*;
public class Words {
  static long w(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    long r = 0;
    for (int i = e.length - 1; i >= 0; i--) r = (r << 16) | ((IntValue) e[i]).val;
    return r;
  }
  static Value p(long x, int k) {
    Value[] e = new Value[k];
    for (int i = 0; i < k; i++) e[i] = IntValue.gen((int) ((x >>> (16 * i)) & 0xffff));
    return new TupleValue(e);
  }
  public static Value Xor4(Value a, Value b) { return p(w(a) ^ w(b), 4); }
  public static Value Add4(Value a, Value b) { return p(w(a) + w(b), 4); }
  public static Value Add43(Value a, Value b, Value c) { return p(w(a) + w(b) + w(c), 4); }
  public static Value Rot32_4(Value a) { return p(Long.rotateRight(w(a), 32), 4); }
  public static Value Rot24_4(Value a) { return p(Long.rotateRight(w(a), 24), 4); }
  public static Value Rot16_4(Value a) { return p(Long.rotateRight(w(a), 16), 4); }
  public static Value Rot63_4(Value a) { return p(Long.rotateRight(w(a), 63), 4); }
  public static Value Xor2(Value a, Value b) { return p(w(a) ^ w(b), 2); }
  public static Value Add2(Value a, Value b) { return p(w(a) + w(b), 2); }
  public static Value Add23(Value a, Value b, Value c) { return p(w(a) + w(b) + w(c), 2); }
  public static Value Rot16_2(Value a) { return p(Integer.rotateRight((int) w(a), 16), 2); }
  public static Value Rot12_2(Value a) { return p(Integer.rotateRight((int) w(a), 12), 2); }
  public static Value Rot8_2(Value a) { return p(Integer.rotateRight((int) w(a), 8), 2); }
  public static Value Rot7_2(Value a) { return p(Integer.rotateRight((int) w(a), 7), 2); }
}

import tlc2.value.impl.*;
/* Java implementation of RoundB and RoundS of Blake2.tla (the rest of the module is always interpreted). */
public class Blake2 {
  static final int[][] Q = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
  static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  public static Value RoundB(Value v, Value m, Value s) {
    Value[] ve = el(v), me = el(m), se = el(s);
    long[] x = new long[16], y = new long[16];
    for (int i = 0; i < 16; i++) { x[i] = Words.w(ve[i]); y[i] = Words.w(me[i]); }
    for (int k = 0; k < 8; k++) {
      int a = Q[k][0], b = Q[k][1], c = Q[k][2], d = Q[k][3];
      x[a] += x[b] + y[((IntValue) se[2 * k]).val];
      x[d] = Long.rotateRight(x[d] ^ x[a], 32);
      x[c] += x[d];
      x[b] = Long.rotateRight(x[b] ^ x[c], 24);
      x[a] += x[b] + y[((IntValue) se[2 * k + 1]).val];
      x[d] = Long.rotateRight(x[d] ^ x[a], 16);
      x[c] += x[d];
      x[b] = Long.rotateRight(x[b] ^ x[c], 63);
    }
    Value[] r = new Value[16];
    for (int i = 0; i < 16; i++) r[i] = Words.p(x[i], 4);
    return new TupleValue(r);
  }
  public static Value RoundS(Value v, Value m, Value s) {
    Value[] ve = el(v), me = el(m), se = el(s);
    int[] x = new int[16], y = new int[16];
    for (int i = 0; i < 16; i++) { x[i] = (int) Words.w(ve[i]); y[i] = (int) Words.w(me[i]); }
    for (int k = 0; k < 8; k++) {
      int a = Q[k][0], b = Q[k][1], c = Q[k][2], d = Q[k][3];
      x[a] += x[b] + y[((IntValue) se[2 * k]).val];
      x[d] = Integer.rotateRight(x[d] ^ x[a], 16);
      x[c] += x[d];
      x[b] = Integer.rotateRight(x[b] ^ x[c], 12);
      x[a] += x[b] + y[((IntValue) se[2 * k + 1]).val];
      x[d] = Integer.rotateRight(x[d] ^ x[a], 8);
      x[c] += x[d];
      x[b] = Integer.rotateRight(x[b] ^ x[c], 7);
    }
    Value[] r = new Value[16];
    for (int i = 0; i < 16; i++) r[i] = Words.p(x[i] & 0xffffffffL, 2);
    return new TupleValue(r);
  }
}

// TLC module override for SBytes.tla: hashing and text/byte conversion.
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Arrays;
import tlc2.value.impl.*;
import util.UniqueString;

public class SBytes {
  private static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
    return r;
  }
  private static Value seq(byte[] b) {
    Value[] r = new Value[b.length];
    for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 0xff);
    return new TupleValue(r);
  }
  private static String str(Value v) { return ((StringValue) v).val.toString(); }
  private static Value str(String s) { return new StringValue(UniqueString.uniqueStringOf(s)); }

  public static Value SHA256(Value v) throws Exception {
    return seq(MessageDigest.getInstance("SHA-256").digest(bytes(v)));
  }
  public static Value StrBytes(Value v) { return seq(str(v).getBytes(StandardCharsets.UTF_8)); }
  public static Value BytesStr(Value v) { return str(new String(bytes(v), StandardCharsets.UTF_8)); }
  public static Value HexBytes(Value v) {
    String s = str(v);
    byte[] r = new byte[s.length() / 2];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return seq(r);
  }
  public static Value BytesHex(Value v) {
    StringBuilder sb = new StringBuilder();
    for (byte b : bytes(v)) sb.append(String.format("%02x", b & 0xff));
    return str(sb.toString());
  }
  private static int cmp(String a, String b) {
    return Arrays.compareUnsigned(a.getBytes(StandardCharsets.UTF_8), b.getBytes(StandardCharsets.UTF_8));
  }
  public static Value StrLT(Value a, Value b) { return cmp(str(a), str(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value SortStr(Value s) {
    SetEnumValue e = (SetEnumValue) s.toSetEnum();
    e.normalize();
    String[] a = new String[e.elems.size()];
    for (int i = 0; i < a.length; i++) a[i] = str((Value) e.elems.elementAt(i));
    Arrays.sort(a, SBytes::cmp);
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = str(a[i]);
    return new TupleValue(r);
  }
  public static Value Flat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int n = 0;
    TupleValue[] parts = new TupleValue[t.elems.length];
    for (int i = 0; i < parts.length; i++) { parts[i] = (TupleValue) t.elems[i].toTuple(); n += parts[i].elems.length; }
    Value[] r = new Value[n];
    int k = 0;
    for (TupleValue p : parts) for (Value x : p.elems) r[k++] = x;
    return new TupleValue(r);
  }
  public static Value Utf8Points(Value v) {
    try {
      String s = StandardCharsets.UTF_8.newDecoder().decode(java.nio.ByteBuffer.wrap(bytes(v))).toString();
      int[] cp = s.codePoints().toArray();
      Value[] r = new Value[cp.length];
      for (int i = 0; i < cp.length; i++) r[i] = IntValue.gen(cp[i]);
      return new TupleValue(r);
    } catch (java.nio.charset.CharacterCodingException e) {
      return new TupleValue(new Value[] { IntValue.gen(-1) });
    }
  }
  public static Value SplitWords(Value v) {
    String[] a = str(v).trim().split("\\s+");
    if (a.length == 1 && a[0].isEmpty()) a = new String[0];
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = str(a[i]);
    return new TupleValue(r);
  }
}

import tlc2.value.impl.*;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.*;
import java.security.MessageDigest;
import java.util.*;

/** TLC implementations of the operators of Prim.tla (see there for their meaning). */
public class Prim {
  private static final char[] HX = "0123456789abcdef".toCharArray();
  static String hex(byte[] b) {
    StringBuilder s = new StringBuilder(b.length * 2);
    for (byte x : b) s.append(HX[(x >> 4) & 15]).append(HX[x & 15]);
    return s.toString();
  }
  static byte[] unhex(String s) {
    int n = s.length() / 2;
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++)
      r[i] = (byte) (Character.digit(s.charAt(2 * i), 16) * 16 + Character.digit(s.charAt(2 * i + 1), 16));
    return r;
  }
  static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
    throw new RuntimeException("Prim: not a string: " + v);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static Value tuple(List<String> l) {
    Value[] r = new Value[l.size()];
    for (int i = 0; i < r.length; i++) r[i] = new StringValue(l.get(i));
    return new TupleValue(r);
  }

  public static Value Sha256(Value v) throws Exception {
    return new StringValue(hex(MessageDigest.getInstance("SHA-256").digest(unhex(str(v)))));
  }
  public static Value Utf8(Value v) { return new StringValue(hex(str(v).getBytes(StandardCharsets.UTF_8))); }
  public static Value Lower(Value v) {
    StringBuilder s = new StringBuilder(str(v));
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c >= 'A' && c <= 'Z') s.setCharAt(i, (char) (c + 32));
    }
    return new StringValue(s.toString());
  }
  public static Value HexLess(Value a, Value b) { return bool(str(a).compareTo(str(b)) < 0); }
  public static Value SplitOn(Value s, Value d) {
    String x = str(s);
    char c = str(d).charAt(0);
    List<String> r = new ArrayList<>();
    int from = 0;
    for (int i = 0; i < x.length(); i++)
      if (x.charAt(i) == c) { r.add(x.substring(from, i)); from = i + 1; }
    r.add(x.substring(from));
    return tuple(r);
  }
  public static Value HexSplit(Value h, Value d) {
    String x = str(h), c = str(d);
    List<String> r = new ArrayList<>();
    int from = 0;
    for (int i = 0; i + 1 < x.length(); i += 2)
      if (x.startsWith(c, i)) { r.add(x.substring(from, i)); from = i + 2; }
    r.add(x.substring(from));
    return tuple(r);
  }
  public static Value SortHex(Value s) {
    List<String> l = new ArrayList<>();
    for (Value v : seq(s)) l.add(str(v));
    Collections.sort(l);
    return tuple(l);
  }
  public static Value ConcatAll(Value s) {
    StringBuilder b = new StringBuilder();
    for (Value v : seq(s)) b.append(str(v));
    return new StringValue(b.toString());
  }
  public static Value JoinWith(Value s, Value d) {
    StringJoiner b = new StringJoiner(str(d));
    for (Value v : seq(s)) b.add(str(v));
    return new StringValue(b.toString());
  }
  public static Value DecLeq(Value a, Value b) {
    return bool(new BigInteger(str(a)).compareTo(new BigInteger(str(b))) <= 0);
  }
  public static Value DecAdd(Value a, Value b) {
    return new StringValue(new BigInteger(str(a)).add(new BigInteger(str(b))).toString());
  }
  public static Value Leb128(Value n) {
    BigInteger x = new BigInteger(str(n));
    StringBuilder s = new StringBuilder();
    do {
      int b = x.intValue() & 127;
      x = x.shiftRight(7);
      if (x.signum() != 0) b |= 128;
      s.append(HX[b >> 4]).append(HX[b & 15]);
    } while (x.signum() != 0);
    return new StringValue(s.toString());
  }
  public static Value LebDecode(Value h) {
    byte[] b = unhex(str(h));
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < b.length && i < 10; i++) {
      r = r.add(BigInteger.valueOf(b[i] & 127).shiftLeft(7 * i));
      if (b[i] >= 0) return new StringValue(r.bitLength() <= 64 ? r.toString() : "");
    }
    return new StringValue("");
  }
  public static Value Chars(Value s) {
    String x = str(s);
    Value[] r = new Value[x.length()];
    for (int i = 0; i < r.length; i++) r[i] = new StringValue(x.substring(i, i + 1));
    return new TupleValue(r);
  }
  public static Value PercentDecode(Value h) {
    byte[] b = unhex(str(h));
    java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
    for (int i = 0; i < b.length; i++) {
      if (b[i] == '%' && i + 2 < b.length
          && Character.digit(b[i + 1], 16) >= 0 && Character.digit(b[i + 2], 16) >= 0
          && b[i + 1] > 0 && b[i + 2] > 0) {
        o.write(Character.digit(b[i + 1], 16) * 16 + Character.digit(b[i + 2], 16));
        i += 2;
      } else o.write(b[i]);
    }
    return new StringValue(hex(o.toByteArray()));
  }
  public static Value IsUtf8(Value h) {
    try {
      StandardCharsets.UTF_8.newDecoder().onMalformedInput(CodingErrorAction.REPORT)
          .onUnmappableCharacter(CodingErrorAction.REPORT).decode(ByteBuffer.wrap(unhex(str(h))));
      return bool(true);
    } catch (CharacterCodingException e) { return bool(false); }
  }

  public static Value Bytes(Value h) {
    byte[] b = unhex(str(h));
    Value[] r = new Value[b.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(r);
  }
  public static Value OfBytes(Value s) {
    Value[] v = seq(s);
    byte[] b = new byte[v.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) v[i]).val;
    return new StringValue(hex(b));
  }
  public static Value ByteAt(Value h, Value p) {
    String x = str(h);
    int i = 2 * ((IntValue) p).val;
    return IntValue.gen(Character.digit(x.charAt(i), 16) * 16 + Character.digit(x.charAt(i + 1), 16));
  }
  private static boolean blank(char c) {
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xa0 || c == 0x1680
        || (c >= 0x2000 && c <= 0x200a) || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000;
  }
  public static Value Trim(Value s) {
    String x = str(s);
    int a = 0, b = x.length();
    while (a < b && blank(x.charAt(a))) a++;
    while (b > a && blank(x.charAt(b - 1))) b--;
    return new StringValue(x.substring(a, b));
  }
  private static final String B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  public static Value Base64(Value s) {
    String x = str(s);
    Value err = new TupleValue(new Value[] {new StringValue("err")});
    int n = x.indexOf('=');
    if (n < 0) n = x.length();
    int p = x.length() - n;
    for (int i = n; i < x.length(); i++) if (x.charAt(i) != '=') return err;
    if (n % 4 == 1 || (p > 0 && (n % 4 < 2 || p > 4 - n % 4))) return err;
    java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
    int acc = 0, bits = 0;
    for (int i = 0; i < n; i++) {
      int v = B64.indexOf(x.charAt(i));
      if (v < 0) return err;
      acc = ((acc << 6) | v) & 0xffff;
      bits += 6;
      if (bits >= 8) { bits -= 8; o.write((acc >> bits) & 255); }
    }
    return new TupleValue(new Value[] {new StringValue("ok"), new StringValue(hex(o.toByteArray()))});
  }
}

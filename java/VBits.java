import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.overrides.*;
import util.UniqueString;

/**
 * Evaluation accelerators for spec/Bits.tla (and nothing else).
 *
 * Every operator here has a definition in TLA+ in Bits.tla, and BitsCheck.tla makes TLC compare the two on
 * an exhaustive small domain.  The exceptions are the cryptographic/CRC functions, which TLA+ treats as
 * uninterpreted and which are taken from the JDK (java.security, java.util.zip).
 */
public class VBits implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[]{VBits.class}; }

  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static StringValue v(String x) { return new StringValue(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int n(Value v) { return ((IntValue) v).val; }

  @TLAPlusOperator(identifier = "LcpLen", module = "Bits", warn = false)
  public static Value lcpLen(StringValue a, StringValue b) {
    String x = s(a), y = s(b);
    int m = Math.min(x.length(), y.length()), i = 0;
    while (i < m && x.charAt(i) == y.charAt(i)) i++;
    return IntValue.gen(i);
  }
  @TLAPlusOperator(identifier = "Rep", module = "Bits", warn = false)
  public static Value rep(StringValue c, IntValue k) { return v(s(c).repeat(Math.max(0, k.val))); }

  @TLAPlusOperator(identifier = "Uniform", module = "Bits", warn = false)
  public static Value uniform(StringValue a) {
    String x = s(a);
    for (int i = 1; i < x.length(); i++) if (x.charAt(i) != x.charAt(0)) return b(false);
    return b(true);
  }
  @TLAPlusOperator(identifier = "LexLt", module = "Bits", warn = false)
  public static Value lexLt(StringValue a, StringValue b) { return b(s(a).compareTo(s(b)) < 0); }

  @TLAPlusOperator(identifier = "Nat2Bits", module = "Bits", warn = false)
  public static Value nat2bits(IntValue k, IntValue w) {
    StringBuilder r = new StringBuilder();
    for (int i = w.val - 1; i >= 0; i--) r.append(i < 31 && ((k.val >> i) & 1) == 1 ? '1' : '0');
    return v(r.toString());
  }
  @TLAPlusOperator(identifier = "Bits2Nat", module = "Bits", warn = false)
  public static Value bits2nat(StringValue a) {
    String x = s(a);
    long r = 0;
    for (int i = 0; i < x.length(); i++) {
      r = r * 2 + (x.charAt(i) - '0');
      if (r > Integer.MAX_VALUE) throw new RuntimeException("Bits2Nat: " + x + " does not fit TLC's integers");
    }
    return IntValue.gen((int) r);
  }
  @TLAPlusOperator(identifier = "Hex", module = "Bits", warn = false)
  public static Value hex(StringValue a) {
    String x = s(a);
    if (x.length() % 4 != 0) throw new RuntimeException("Hex: length " + x.length());
    StringBuilder r = new StringBuilder();
    for (int i = 0; i < x.length(); i += 4) r.append(Character.forDigit(Integer.parseInt(x.substring(i, i + 4), 2), 16));
    return v(r.toString());
  }
  @TLAPlusOperator(identifier = "Unhex", module = "Bits", warn = false)
  public static Value unhex(StringValue a) {
    String x = s(a);
    StringBuilder r = new StringBuilder();
    for (int i = 0; i < x.length(); i++) {
      int d = Character.digit(x.charAt(i), 16);
      for (int j = 3; j >= 0; j--) r.append((d >> j) & 1);
    }
    return v(r.toString());
  }
  static BigInteger big(String x) { return x.isEmpty() ? BigInteger.ZERO : new BigInteger(x, 2); }
  static String fit(BigInteger k, int w) {
    String r = k.mod(BigInteger.ONE.shiftLeft(w)).toString(2);
    if (w == 0) return "";
    return "0".repeat(w - r.length()) + r;
  }
  /** Sum of two naturals written in binary, truncated to w bits. */
  @TLAPlusOperator(identifier = "BAdd", module = "Bits", warn = false)
  public static Value badd(StringValue a, StringValue b, IntValue w) { return v(fit(big(s(a)).add(big(s(b))), w.val)); }
  /** Difference modulo 2^w. */
  @TLAPlusOperator(identifier = "BSub", module = "Bits", warn = false)
  public static Value bsub(StringValue a, StringValue b, IntValue w) { return v(fit(big(s(a)).subtract(big(s(b))), w.val)); }
  @TLAPlusOperator(identifier = "BMul", module = "Bits", warn = false)
  public static Value bmul(StringValue a, StringValue b, IntValue w) { return v(fit(big(s(a)).multiply(big(s(b))), w.val)); }
  @TLAPlusOperator(identifier = "BDiv", module = "Bits", warn = false)
  public static Value bdiv(StringValue a, StringValue b, IntValue w) { return v(fit(big(s(a)).divide(big(s(b))), w.val)); }
  @TLAPlusOperator(identifier = "BMod", module = "Bits", warn = false)
  public static Value bmod(StringValue a, StringValue b, IntValue w) { return v(fit(big(s(a)).mod(big(s(b))), w.val)); }
  /** Comparison of two naturals written in binary (any lengths): -1, 0, 1. */
  @TLAPlusOperator(identifier = "BCmp", module = "Bits", warn = false)
  public static Value bcmp(StringValue a, StringValue b) { return IntValue.gen(big(s(a)).compareTo(big(s(b)))); }
  /** Decimal digits of a natural written in binary, and back (minimal binary, "" for zero). */
  @TLAPlusOperator(identifier = "BDec", module = "Bits", warn = false)
  public static Value bdec(StringValue a) { return v(big(s(a)).toString()); }
  @TLAPlusOperator(identifier = "BXor", module = "Bits", warn = false)
  public static Value bxor(StringValue a, StringValue b) {
    String x = s(a), y = s(b);
    StringBuilder r = new StringBuilder();
    for (int i = 0; i < x.length(); i++) r.append(x.charAt(i) == y.charAt(i) ? '0' : '1');
    return v(r.toString());
  }
  @TLAPlusOperator(identifier = "BNot", module = "Bits", warn = false)
  public static Value bnot(StringValue a) {
    String x = s(a);
    StringBuilder r = new StringBuilder();
    for (int i = 0; i < x.length(); i++) r.append(x.charAt(i) == '0' ? '1' : '0');
    return v(r.toString());
  }
  /** 1-based index of the first occurrence of a bit, 0 when absent. */
  @TLAPlusOperator(identifier = "FirstIdx", module = "Bits", warn = false)
  public static Value firstIdx(StringValue a, StringValue c) { return IntValue.gen(s(a).indexOf(s(c)) + 1); }
  @TLAPlusOperator(identifier = "LastIdx", module = "Bits", warn = false)
  public static Value lastIdx(StringValue a, StringValue c) { return IntValue.gen(s(a).lastIndexOf(s(c)) + 1); }

  static byte[] bytes(String hex) {
    byte[] r = new byte[hex.length() / 2];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(hex.substring(2 * i, 2 * i + 2), 16);
    return r;
  }
  static String hexOf(byte[] d) {
    StringBuilder r = new StringBuilder();
    for (byte x : d) { r.append(Character.forDigit((x >> 4) & 15, 16)); r.append(Character.forDigit(x & 15, 16)); }
    return r.toString();
  }
  @TLAPlusOperator(identifier = "Sha256", module = "Bits", warn = false)
  public static Value sha256(StringValue a) throws Exception {
    return v(hexOf(MessageDigest.getInstance("SHA-256").digest(bytes(s(a)))));
  }
  @TLAPlusOperator(identifier = "Sha512", module = "Bits", warn = false)
  public static Value sha512(StringValue a) throws Exception {
    return v(hexOf(MessageDigest.getInstance("SHA-512").digest(bytes(s(a)))));
  }
  /** CRC-32C of the bytes, as the 8 hex digits of its little-endian encoding. */
  @TLAPlusOperator(identifier = "Crc32cLE", module = "Bits", warn = false)
  public static Value crc32c(StringValue a) {
    java.util.zip.CRC32C c = new java.util.zip.CRC32C();
    c.update(bytes(s(a)));
    int x = (int) c.getValue();
    return v(hexOf(new byte[]{(byte) x, (byte) (x >> 8), (byte) (x >> 16), (byte) (x >> 24)}));
  }
  /** CRC-16/XMODEM of the bytes, big-endian hex. */
  @TLAPlusOperator(identifier = "Crc16", module = "Bits", warn = false)
  public static Value crc16(StringValue a) {
    int crc = 0;
    for (byte x : bytes(s(a))) {
      crc ^= (x & 255) << 8;
      for (int i = 0; i < 8; i++) crc = (crc & 0x8000) != 0 ? ((crc << 1) ^ 0x1021) & 0xffff : (crc << 1) & 0xffff;
    }
    return v(hexOf(new byte[]{(byte) (crc >> 8), (byte) crc}));
  }
}

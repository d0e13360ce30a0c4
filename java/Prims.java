// Java overrides for module Prims: the cryptographic primitives the specification
// is parameterised over.  Written independently of the Rust crates the
// implementation uses (JDK digests, BigInteger arithmetic, hand-written RIPEMD-160).
import java.math.BigInteger;
import java.nio.charset.Charset;
import java.nio.charset.CharsetEncoder;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.text.Normalizer;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Prims {
  // ------------------------------------------------------------ conversions
  static byte[] b(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Prims: not a sequence: " + v);
    Value[] e = ((TupleValue) t).elems;
    byte[] r = new byte[e.length];
    for (int i = 0; i < e.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
    return r;
  }
  static TupleValue t(byte[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = IntValue.gen(a[i] & 255);
    return new TupleValue(e);
  }
  static byte[] cat(byte[]... p) {
    int n = 0; for (byte[] x : p) n += x.length;
    byte[] r = new byte[n]; n = 0;
    for (byte[] x : p) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
    return r;
  }

  // ----------------------------------------------------------------- hashes
  static byte[] sha256(byte[] m) {
    try { return MessageDigest.getInstance("SHA-256").digest(m); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value Sha256(Value m) { return t(sha256(b(m))); }

  static Mac mac(byte[] key) {
    try {
      Mac m = Mac.getInstance("HmacSHA512");
      m.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA512"));
      return m;
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value HmacSha512(Value k, Value m) { return t(mac(b(k)).doFinal(b(m))); }

  // PBKDF2-HMAC-SHA512, 2048 rounds, one 64-byte block
  static final Map<String, byte[]> PB = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value Pbkdf2(Value pw, Value salt) {
    byte[] p = b(pw), s = b(salt);
    String key = Arrays.toString(p) + Arrays.toString(s);
    byte[] c = PB.get(key);
    if (c == null) {
      Mac m = mac(p);
      byte[] u = m.doFinal(cat(s, new byte[] {0, 0, 0, 1}));
      byte[] r = u.clone();
      for (int i = 1; i < 2048; i++) {
        u = m.doFinal(u);
        for (int j = 0; j < 64; j++) r[j] ^= u[j];
      }
      c = r;
      if (PB.size() < 20000) PB.put(key, c);
    }
    return t(c);
  }

  // RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996)
  static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
  static final int[] KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  static int f(int j, int x, int y, int z) {
    switch (j) {
      case 0: return x ^ y ^ z;
      case 1: return (x & y) | (~x & z);
      case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z);
      default: return x ^ (y | ~z);
    }
  }
  static byte[] ripemd160(byte[] m) {
    int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    int len = ((m.length + 8) / 64 + 1) * 64;
    byte[] p = Arrays.copyOf(m, len);
    p[m.length] = (byte) 0x80;
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[len - 8 + i] = (byte) (bits >>> (8 * i));
    int[] x = new int[16];
    for (int o = 0; o < len; o += 64) {
      for (int i = 0; i < 16; i++)
        x[i] = (p[o+4*i] & 255) | (p[o+4*i+1] & 255) << 8 | (p[o+4*i+2] & 255) << 16 | (p[o+4*i+3] & 255) << 24;
      int a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
      int a2 = a, b2 = bb, c2 = c, d2 = d, e2 = e;
      for (int j = 0; j < 80; j++) {
        int tt = Integer.rotateLeft(a + f(j/16, bb, c, d) + x[RL[j]] + KL[j/16], SL[j]) + e;
        a = e; e = d; d = Integer.rotateLeft(c, 10); c = bb; bb = tt;
        tt = Integer.rotateLeft(a2 + f(4 - j/16, b2, c2, d2) + x[RR[j]] + KR[j/16], SR[j]) + e2;
        a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = tt;
      }
      int tmp = h[1] + c + d2;
      h[1] = h[2] + d + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + bb + c2; h[0] = tmp;
    }
    byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return r;
  }
  public static Value Ripemd160(Value m) { return t(ripemd160(b(m))); }

  // --------------------------------------------------------------- secp256k1
  static final BigInteger PP = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
  static final BigInteger NN = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
  static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
  static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
  static final BigInteger SEVEN = BigInteger.valueOf(7), TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);
  static BigInteger n(byte[] a) { return new BigInteger(1, a); }
  static byte[] b32(BigInteger x) {
    byte[] a = x.toByteArray(), r = new byte[32];
    int len = Math.min(a.length, 32);
    System.arraycopy(a, a.length - len, r, 32 - len, len);
    return r;
  }
  // Jacobian points {X,Y,Z}; null is infinity
  static BigInteger m(BigInteger a, BigInteger c) { return a.multiply(c).mod(PP); }
  static BigInteger[] dbl(BigInteger[] p) {
    if (p == null || p[1].signum() == 0) return null;
    BigInteger y2 = m(p[1], p[1]), s = m(p[0], y2).shiftLeft(2).mod(PP), mm = m(p[0], p[0]).multiply(THREE).mod(PP);
    BigInteger x = mm.multiply(mm).subtract(s.shiftLeft(1)).mod(PP);
    BigInteger y = mm.multiply(s.subtract(x)).subtract(m(y2, y2).shiftLeft(3)).mod(PP);
    return new BigInteger[] {x, y, m(p[1], p[2]).shiftLeft(1).mod(PP)};
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger z1 = m(p[2], p[2]), z2 = m(q[2], q[2]);
    BigInteger u1 = m(p[0], z2), u2 = m(q[0], z1), s1 = m(p[1], m(z2, q[2])), s2 = m(q[1], m(z1, p[2]));
    if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : null;
    BigInteger h = u2.subtract(u1).mod(PP), r = s2.subtract(s1).mod(PP), h2 = m(h, h), h3 = m(h2, h), v = m(u1, h2);
    BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(PP);
    BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(PP);
    return new BigInteger[] {x, y, m(h, m(p[2], q[2]))};
  }
  static BigInteger[] mul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
    return r;
  }
  static BigInteger[] aff(BigInteger[] p) {
    if (p == null) return null;
    if (p[2].equals(BigInteger.ONE)) return p;
    BigInteger i = p[2].modInverse(PP), i2 = m(i, i);
    return new BigInteger[] {m(p[0], i2), m(p[1], m(i2, i)), BigInteger.ONE};
  }
  static final BigInteger[] G = {GX, GY, BigInteger.ONE};
  static final BigInteger[][][] TAB = new BigInteger[64][16][];   // TAB[w][d] = d * 16^w * G
  static {
    BigInteger[] base = G;
    for (int w = 0; w < 64; w++) {
      BigInteger[] acc = null;
      for (int d = 1; d < 16; d++) { acc = add(acc, base); TAB[w][d] = aff(acc); }
      base = aff(add(acc, base));
    }
  }
  static BigInteger[] mulG(BigInteger k) {
    BigInteger[] r = null;
    byte[] e = b32(k);
    for (int w = 0; w < 64; w++) {
      int d = (e[31 - w / 2] >> (4 * (w % 2))) & 15;
      if (d != 0) r = add(r, TAB[w][d]);
    }
    return r;
  }
  static byte[] ser(BigInteger[] p) {
    p = aff(p);
    return cat(new byte[] {(byte) (p[1].testBit(0) ? 3 : 2)}, b32(p[0]));
  }
  static BigInteger[] lift(BigInteger x, boolean odd) {
    if (x.compareTo(PP) >= 0) return null;
    BigInteger y2 = x.multiply(x).multiply(x).add(SEVEN).mod(PP);
    BigInteger y = y2.modPow(PP.add(BigInteger.ONE).shiftRight(2), PP);
    if (!m(y, y).equals(y2)) return null;
    if (y.testBit(0) != odd) y = PP.subtract(y);
    return new BigInteger[] {x, y, BigInteger.ONE};
  }
  static BigInteger[] parse(byte[] p) {
    if (p.length != 33 || (p[0] != 2 && p[0] != 3)) return null;
    return lift(n(Arrays.copyOfRange(p, 1, 33)), p[0] == 3);
  }
  static boolean inRange(BigInteger k) { return k.signum() > 0 && k.compareTo(NN) < 0; }

  public static Value ScalarOk(Value k) {
    byte[] a = b(k);
    return a.length == 32 && inRange(n(a)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value ScalarAdd(Value a, Value c) { return t(b32(n(b(a)).add(n(b(c))).mod(NN))); }
  public static Value PointOf(Value k) { return t(ser(mulG(n(b(k))))); }
  public static Value PointOk(Value p) { return parse(b(p)) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  /** point + scalar*G, or <<>> for the point at infinity */
  public static Value PointAddG(Value p, Value k) {
    BigInteger[] r = add(parse(b(p)), mulG(n(b(k))));
    return r == null ? t(new byte[0]) : t(ser(r));
  }
  /** does the 64-byte signature verify for this 32-byte message under this point? */
  public static Value SigVerify(Value pub, Value msg, Value sig) {
    byte[] s = b(sig);
    if (s.length != 64) return BoolValue.ValFalse;
    BigInteger r = n(Arrays.copyOfRange(s, 0, 32)), ss = n(Arrays.copyOfRange(s, 32, 64));
    if (!inRange(r) || !inRange(ss)) return BoolValue.ValFalse;
    BigInteger w = ss.modInverse(NN), e = n(b(msg));
    BigInteger[] q = aff(add(mulG(e.multiply(w).mod(NN)), mul(r.multiply(w).mod(NN), parse(b(pub)))));
    return q != null && q[0].mod(NN).equals(r) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value SigLowS(Value sig) {
    BigInteger ss = n(Arrays.copyOfRange(b(sig), 32, 64));
    return ss.compareTo(NN.shiftRight(1)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  /** public key recovered from signature and recovery id, or <<>> */
  public static Value SigRecover(Value msg, Value sig, Value recid) {
    byte[] s = b(sig);
    int id = ((IntValue) recid).val;
    BigInteger r = n(Arrays.copyOfRange(s, 0, 32)), ss = n(Arrays.copyOfRange(s, 32, 64));
    if (!inRange(r) || !inRange(ss) || id < 0 || id > 3) return t(new byte[0]);
    BigInteger[] rp = lift(id >= 2 ? r.add(NN) : r, (id & 1) == 1);
    if (rp == null) return t(new byte[0]);
    BigInteger ri = r.modInverse(NN), e = n(b(msg));
    BigInteger[] q = add(mul(ss.multiply(ri).mod(NN), rp), mulG(NN.subtract(e.mod(NN)).multiply(ri).mod(NN)));
    return q == null ? t(new byte[0]) : t(ser(q));
  }

  // ------------------------------------------------------------------ base58
  static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  static final BigInteger F8 = BigInteger.valueOf(58);
  public static Value Base58Enc(Value v) {
    byte[] a = b(v);
    StringBuilder sb = new StringBuilder();
    BigInteger x = n(a);
    while (x.signum() > 0) { BigInteger[] q = x.divideAndRemainder(F8); sb.append(B58.charAt(q[1].intValue())); x = q[0]; }
    for (int i = 0; i < a.length && a[i] == 0; i++) sb.append('1');
    return t(sb.reverse().toString().getBytes(StandardCharsets.US_ASCII));
  }
  public static Value Base58Valid(Value v) {
    for (byte c : b(v)) if (c < 0 || B58.indexOf(c) < 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value Base58Dec(Value v) {
    byte[] a = b(v);
    int z = 0;
    while (z < a.length && a[z] == '1') z++;
    BigInteger x = BigInteger.ZERO;
    for (byte c : a) x = x.multiply(F8).add(BigInteger.valueOf(B58.indexOf(c)));
    byte[] m = x.toByteArray();
    if (m[0] == 0) m = Arrays.copyOfRange(m, 1, m.length);
    return t(cat(new byte[z], m));
  }

  // -------------------------------------------------------------------- text
  public static Value Nfkd(Value v) {
    return t(Normalizer.normalize(new String(b(v), StandardCharsets.UTF_8), Normalizer.Form.NFKD).getBytes(StandardCharsets.UTF_8));
  }
  public static Value Gb18030(Value v) {
    return t(new String(b(v), StandardCharsets.UTF_8).getBytes(Charset.forName("GB18030")));
  }
  public static Value CodePoints(Value v) {
    int[] c = new String(b(v), StandardCharsets.UTF_8).codePoints().toArray();
    Value[] e = new Value[c.length];
    for (int i = 0; i < c.length; i++) e[i] = IntValue.gen(c[i]);
    return new TupleValue(e);
  }
  public static Value Utf8(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    StringBuilder sb = new StringBuilder();
    for (Value x : e) sb.appendCodePoint(((IntValue) x).val);
    return t(sb.toString().getBytes(StandardCharsets.UTF_8));
  }
  /** position (from 1) of the first occurrence of w in s, or 0 */
  public static Value IndexOf(Value s, Value w) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    for (int i = 0; i < e.length; i++) if (e[i].equals(w)) return IntValue.gen(i + 1);
    return IntValue.gen(0);
  }
}

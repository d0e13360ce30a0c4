------------------------------- MODULE Prims -------------------------------
(* The primitives the KMS specification is instantiated with when it is      *)
(* bound to the real code.  All data are sequences of bytes (0..255).        *)
(* The operators with a definition below are defined here and, for speed,    *)
(* evaluated by java/Prims.java; PrimsSelfTest.tla checks that both agree.   *)
(* Those marked "stub" are standard functions (FIPS 180-4, RFC 2104,         *)
(* RFC 8018, RIPEMD-160, SEC 1/2, Unicode NFKD, GB18030) evaluated only in   *)
(* Java, against the JDK's own implementations or BigInteger arithmetic.     *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Stub(x) == CHOOSE y \in {x} : FALSE

\* ---- hash functions (stubs)
Sha256(m)        == Stub(m)
HmacSha512(k, m) == Stub(<<k, m>>)
Pbkdf2(pw, salt) == Stub(<<pw, salt>>)     \* HMAC-SHA512, 2048 rounds, 64 bytes
Ripemd160(m)     == Stub(m)

\* ---- secp256k1 (stubs; scalars are 32 bytes, points 33 bytes compressed)
ScalarOk(k)      == Stub(k)                \* 32 bytes and 1 <= k < n
ScalarAdd(a, c)  == Stub(<<a, c>>)         \* (a + c) mod n
PointOf(k)       == Stub(k)                \* k*G
PointOk(p)       == Stub(p)                \* a compressed point of the curve
PointAddG(p, k)  == Stub(<<p, k>>)         \* p + k*G, <<>> for infinity
SigVerify(pub, msg, sig)     == Stub(<<pub, msg, sig>>)
SigLowS(sig)                 == Stub(sig)
SigRecover(msg, sig, recid)  == Stub(<<msg, sig, recid>>)

\* ---- text (stubs)
Nfkd(u)    == Stub(u)                      \* UTF-8 in, UTF-8 out
Gb18030(u) == Stub(u)                      \* UTF-8 in, GB18030 out

\* ---- UTF-8
RECURSIVE PureCodePoints(_)
PureCodePoints(u) ==
  IF u = <<>> THEN <<>>
  ELSE LET c == u[1]
           n == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
           h == IF n = 1 THEN c ELSE IF n = 2 THEN c - 192 ELSE IF n = 3 THEN c - 224 ELSE c - 240
           v == FoldLeft(LAMBDA a, x : 64 * a + (x - 128), h, SubSeq(u, 2, n))
       IN <<v>> \o PureCodePoints(SubSeq(u, n + 1, Len(u)))
CodePoints(u) == PureCodePoints(u)

PureUtf8One(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
PureUtf8(cs) == FoldLeft(LAMBDA a, c : a \o PureUtf8One(c), <<>>, cs)
Utf8(cs) == PureUtf8(cs)

\* ---- base58 (long division on digit sequences)
Alphabet58 == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,
                85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,
                114,115,116,117,118,119,120,121,122>>
PureIndexOf(s, w) == IF \E i \in 1..Len(s) : s[i] = w
                     THEN CHOOSE i \in 1..Len(s) : s[i] = w /\ \A j \in 1..(i-1) : s[j] # w
                     ELSE 0
IndexOf(s, w) == PureIndexOf(s, w)

LeadCount(s, x) == IF \E i \in 1..Len(s) : s[i] # x
                   THEN (CHOOSE i \in 1..Len(s) : s[i] # x /\ \A j \in 1..(i-1) : s[j] = x) - 1
                   ELSE Len(s)

\* one step of base conversion: little-endian digits ds (base "to") := ds * from + d
RECURSIVE Carry(_, _, _)
Carry(ds, c, to) ==
  IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % to>> \o Carry(<<>>, c \div to, to))
  ELSE <<(ds[1] + c) % to>> \o Carry(Tail(ds), (ds[1] + c) \div to, to)
MulAdd(ds, from, d, to) == Carry([i \in 1..Len(ds) |-> ds[i] * from], d, to)
Convert(digits, from, to) ==
  Reverse(FoldLeft(LAMBDA acc, d : MulAdd(acc, from, d, to), <<>>, digits))
Zeros(n, x) == [i \in 1..n |-> x]

PureBase58Enc(b) ==
  LET z == LeadCount(b, 0)
      q == Convert(SubSeq(b, z + 1, Len(b)), 256, 58)
  IN Zeros(z, 49) \o [i \in 1..Len(q) |-> Alphabet58[q[i] + 1]]
Base58Enc(b) == PureBase58Enc(b)

PureBase58Valid(s) == \A i \in 1..Len(s) : PureIndexOf(Alphabet58, s[i]) # 0
Base58Valid(s) == PureBase58Valid(s)

PureBase58Dec(s) ==
  LET z == LeadCount(s, 49)
      r == SubSeq(s, z + 1, Len(s))
  IN Zeros(z, 0) \o Convert([i \in 1..Len(r) |-> PureIndexOf(Alphabet58, r[i]) - 1], 58, 256)
Base58Dec(s) == PureBase58Dec(s)
=============================================================================

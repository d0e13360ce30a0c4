------------------------------- MODULE Derive -------------------------------
(* BIP32 derivation: the part of KMS the proofs in Proofs.tla are about.     *)
EXTENDS Integers, Sequences
CONSTANTS
  SHA256(_), HMAC(_, _), RIPEMD(_), ScOk(_), ScAdd(_, _), PtOf(_), PtOk(_), PtAddG(_, _),
  KeySize, MaxDepth, SeedLens, MasterSalt

Ok(v)  == [tag |-> "ok", val |-> v]
Err(k) == [tag |-> "err", kind |-> k]
IsOk(os) == \E o \in os : o.tag = "ok"
Val(os)  == (CHOOSE o \in os : o.tag = "ok").val
When(c, k) == IF c THEN {k} ELSE {}
Errs(ks) == {Err(k) : k \in ks}
Unit == "unit"

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

Hardened(cn) == cn[1] >= 128
ZeroCn == <<0, 0, 0, 0>>
ZeroFp == <<0, 0, 0, 0>>
Prv(k, c, d, f, i) == [kind |-> "prv", key |-> k, chain |-> c, depth |-> d, fp |-> f, cn |-> i]
Pub(k, c, d, f, i) == [kind |-> "pub", key |-> k, chain |-> c, depth |-> d, fp |-> f, cn |-> i]
HASH160(m) == RIPEMD(SHA256(m))
Fingerprint(pub) == Take(HASH160(pub), 4)
Left(I)  == Take(I, KeySize)
Right(I) == Drop(I, KeySize)

Master(seed) ==
  IF Len(seed) \notin SeedLens THEN Errs({"SeedLength"})
  ELSE LET I == HMAC(MasterSalt, seed)
       IN IF ScOk(Left(I)) THEN {Ok(Prv(Left(I), Right(I), 0, ZeroFp, ZeroCn))} ELSE Errs({"Crypto"})

\* key-level arithmetic
PrvFromBytes(b) == IF ScOk(b) THEN {Ok(b)} ELSE Errs({"Crypto"})
PubFromBytes(b) == IF PtOk(b) THEN {Ok(b)} ELSE Errs({"Crypto"})
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
PrvTweak(k, t) ==
  IF ~ScOk(t) THEN Errs({"Crypto"})
  ELSE LET s == ScAdd(k, t) IN IF IsZero(s) THEN Errs({"Crypto"}) ELSE {Ok(s)}
PubTweak(p, t) ==
  IF ~ScOk(t) THEN Errs({"Crypto"})
  ELSE LET q == PtAddG(p, t) IN IF q = <<>> THEN Errs({"Crypto"}) ELSE {Ok(q)}

Neuter(x) == Pub(PtOf(x.key), x.chain, x.depth, x.fp, x.cn)

CkdPrvData(x, cn) == (IF Hardened(cn) THEN <<0>> \o x.key ELSE PtOf(x.key)) \o cn
CkdPrv(x, cn) ==
  LET I == HMAC(x.chain, CkdPrvData(x, cn))
      k == PrvTweak(x.key, Left(I))
      faults == When(x.depth >= MaxDepth, "Depth") \cup When(~IsOk(k), "Crypto")
  IN IF faults # {} THEN Errs(faults)
     ELSE {Ok(Prv(Val(k), Right(I), x.depth + 1, Fingerprint(PtOf(x.key)), cn))}

CkdPub(x, cn) ==
  LET I == HMAC(x.chain, x.key \o cn)
      k == PubTweak(x.key, Left(I))
      faults == When(Hardened(cn), "ChildNumber") \cup When(x.depth >= MaxDepth, "Depth")
                \cup (IF Hardened(cn) THEN {} ELSE When(~IsOk(k), "Crypto"))
  IN IF faults # {} THEN Errs(faults)
     ELSE {Ok(Pub(Val(k), Right(I), x.depth + 1, Fingerprint(x.key), cn))}

Ckd(x, cn) == IF x.kind = "prv" THEN CkdPrv(x, cn) ELSE CkdPub(x, cn)
\* along a path: step by step, until one is refused
CkdStep(r, cn) == IF IsOk(r) THEN Ckd(Val(r), cn) ELSE r
CkdPath(x, path) ==
  LET f[i \in 0..Len(path)] == IF i = 0 THEN {Ok(x)} ELSE CkdStep(f[i - 1], path[i])
  IN f[Len(path)]
\* why deriving along a path may be refused: whatever step fails first, or what is wrong with the path as a whole
PathFaults(x, path) ==
  {o.kind : o \in {q \in CkdPath(x, path) : q.tag = "err"}}
  \cup When(x.depth + Len(path) > MaxDepth, "Depth")
  \cup When(x.kind = "pub" /\ \E i \in 1..Len(path) : Hardened(path[i]), "ChildNumber")
NewFromPath(seed, path) ==
  LET m == Master(seed) IN IF IsOk(m) THEN CkdPath(Val(m), path) ELSE m
=============================================================================

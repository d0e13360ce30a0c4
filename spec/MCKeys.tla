------------------------------- MODULE MCKeys -------------------------------
(* Key arithmetic exhaustively, over the small curve: every key with every   *)
(* tweak, every encoding of a point, every seed of up to four bytes.  A byte *)
(* is 0..63, so that there are scalars and coordinates that are too large.   *)
EXTENDS KMS, TLC
C == INSTANCE Curve43
Byte == 0..63
KScOk(k) == Len(k) = 1 /\ k[1] \in 1..(C!N - 1)
KScAdd(a, b) == <<(a[1] + b[1]) % C!N>>
KPtOf(k) == C!Compress(C!MulG(k[1]))
KPtOk(p) == Len(p) = 2 /\ C!Decompress(p) # C!Inf
KPtAddG(p, k) == LET q == C!AddP(C!Decompress(p), C!MulG(k[1])) IN IF q = C!Inf THEN <<>> ELSE C!Compress(q)
KHmac(k, d) == LET s == FoldLeft(LAMBDA a, x : (7 * a + 3 * x + 5) % 4096, Len(d), k \o d) IN <<s % 64, s \div 64>>
KHash(x) == LET s == FoldLeft(LAMBDA a, y : (5 * a + y + 1) % 4096, 0, x) IN <<s % 64, s \div 64, s % 63, s % 61>>
KSame(x) == x
KSkip2(x, y) == x
KNone == <<>>
KSeedLens == {2, 3}
KSalt == <<1, 2>>

VARIABLES k, t
Init == k \in Byte /\ t = -1
Next == t = -1 /\ t' \in Byte /\ k' = k
Spec == Init /\ [][Next]_<<k, t>>
Encodings == (IF k < 6 THEN {<<k, t>>} ELSE {})
Seeds == {<<>>, <<k>>, <<k, t>>, <<t, k, 0>>, <<k, t, t, k>>}

Created == /\ PrvFromBytes(<<k>>) = IF k \in 1..30 THEN {Ok(<<k>>)} ELSE Errs({"Crypto"})
           /\ \A e \in Encodings : LET p == PubFromBytes(e) IN
              /\ IsOk(p) = (e[1] \in {2, 3} /\ e[2] < C!P /\ \E q \in C!Affine : q[1] = e[2] /\ q[2] % 2 = e[1] - 2)
              /\ IsOk(p) => Val(p) = e /\ C!Compress(C!Decompress(e)) = e
Valid == k \in 1..30
Tweaked == Valid =>
   LET a == PrvTweak(<<k>>, <<t>>)  b == PubTweak(KPtOf(<<k>>), <<t>>) IN
   /\ IsOk(a) = (t \in 1..30 /\ k + t # 31)
   /\ IsOk(b) = IsOk(a)
   /\ IsOk(a) => Val(b) = KPtOf(Val(a)) /\ KScOk(Val(a)) /\ KPtOk(Val(b)) /\ (Val(a)[1] - k - t) % 31 = 0
   \* tweaks can be undone, and commute
   /\ (IsOk(a) /\ t \in 1..30 /\ Val(a)[1] + 31 - t # 31) => PrvTweak(Val(a), <<31 - t>>) = {Ok(<<k>>)}
   /\ \A u \in 1..30 : (IsOk(a) /\ IsOk(PrvTweak(Val(a), <<u>>)) /\ IsOk(PrvTweak(<<k>>, <<u>>))) =>
        PrvTweak(Val(a), <<u>>) = PrvTweak(Val(PrvTweak(<<k>>, <<u>>)), <<t>>)
MasterOk == \A s \in Seeds : LET m == Master(s) IN
   /\ IsOk(m) = (Len(s) \in {2, 3} /\ KHmac(KSalt, s)[1] \in 1..30)
   /\ IsOk(m) => Val(m).depth = 0 /\ Val(m).fp = ZeroFp /\ Val(m).cn = ZeroCn /\ <<Val(m).key[1], Val(m).chain[1]>> = KHmac(KSalt, s)
   /\ Len(s) \notin {2, 3} => m = Errs({"SeedLength"})
\* derivation from every key with chain code t: both branches agree
Indices == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>}
Derived == Valid => \A i \in Indices : \A d \in {0, MaxDepth - 1, MaxDepth} :
   LET x == Prv(<<k>>, <<t>>, d, <<1, 2, 3, 4>>, i)  a == CkdPrv(x, i)  b == CkdPub(Neuter(x), i) IN
   /\ ~Hardened(i) => IsOk(a) = IsOk(b)
   /\ Hardened(i) => ~IsOk(b)
   /\ (IsOk(a) /\ ~Hardened(i)) => Neuter(Val(a)) = Val(b)
   /\ IsOk(a) => d < MaxDepth /\ Val(a).depth = d + 1 /\ Val(a).fp = Fingerprint(KPtOf(<<k>>))
   /\ (d < MaxDepth /\ ~IsOk(a)) => LET I == KHmac(<<t>>, CkdPrvData(x, i))[1] IN I \notin 1..30 \/ (I + k) % 31 = 0
Prop == t >= 0 => Created /\ Tweaked /\ MasterOk /\ Derived
=============================================================================

------------------------------- MODULE Proofs -------------------------------
(* What model checking shows over toy primitives within bounds is proved     *)
(* here with TLAPS for every key, tweak, hash, index and path of any length, *)
(* given only that points form the image of the scalars (Homomorphism).      *)
EXTENDS Derive, NaturalsInduction, SequenceTheorems, TLAPS

ASSUME Sizes == MaxDepth \in Nat
\* what the group has to provide (checked for the real curve by SelfTest and for the toys exhaustively)
ASSUME Homomorphism ==
  \A k, t : ScOk(k) /\ ScOk(t) =>
    /\ IsZero(ScAdd(k, t)) <=> PtAddG(PtOf(k), t) = <<>>
    /\ ~IsZero(ScAdd(k, t)) => ScOk(ScAdd(k, t)) /\ PtAddG(PtOf(k), t) = PtOf(ScAdd(k, t))
ASSUME Points == \A k : ScOk(k) => PtOk(PtOf(k))
ASSUME PointsClosed == \A p, t : PtOk(p) /\ ScOk(t) /\ PtAddG(p, t) # <<>> => PtOk(PtAddG(p, t))

PrvKey(x) == /\ x = Prv(x.key, x.chain, x.depth, x.fp, x.cn) /\ ScOk(x.key) /\ x.depth \in Nat /\ x.depth <= MaxDepth
PubKey(x) == /\ x = Pub(x.key, x.chain, x.depth, x.fp, x.cn) /\ PtOk(x.key) /\ x.depth \in Nat /\ x.depth <= MaxDepth

---------------------------------------------------------------------------
LEMMA OkIs == ASSUME NEW v PROVE IsOk({Ok(v)}) /\ Val({Ok(v)}) = v
  BY DEF Ok, IsOk, Val
LEMMA ErrsAre == ASSUME NEW ks PROVE ~IsOk(Errs(ks))
  BY DEF Errs, Err, IsOk

\* C06: a hardened step is never taken from a public key
THEOREM Barrier == ASSUME NEW x, NEW cn, Hardened(cn) PROVE ~IsOk(CkdPub(x, cn))
  BY ErrsAre DEF CkdPub, When

\* C05, C08: what a private step gives
THEOREM PrvStep ==
  ASSUME NEW x, NEW cn, PrvKey(x), IsOk(CkdPrv(x, cn))
  PROVE  /\ CkdPrv(x, cn) = {Ok(Val(CkdPrv(x, cn)))}
         /\ PrvKey(Val(CkdPrv(x, cn)))
         /\ Val(CkdPrv(x, cn)).depth = x.depth + 1
         /\ Val(CkdPrv(x, cn)).cn = cn
         /\ Val(CkdPrv(x, cn)).fp = Fingerprint(PtOf(x.key))
<1> DEFINE I == HMAC(x.chain, CkdPrvData(x, cn))
           k == PrvTweak(x.key, Left(I))
           y == Prv(Val(k), Right(I), x.depth + 1, Fingerprint(PtOf(x.key)), cn)
<1> HIDE DEF I
<1>1. ~(x.depth >= MaxDepth) /\ IsOk(k) /\ CkdPrv(x, cn) = {Ok(y)}
  BY ErrsAre DEF CkdPrv, When, I
<1>2. ScOk(Left(I)) /\ ~IsZero(ScAdd(x.key, Left(I))) /\ k = {Ok(ScAdd(x.key, Left(I)))}
  BY <1>1, ErrsAre DEF PrvTweak
<1>3. Val(k) = ScAdd(x.key, Left(I)) BY <1>2, OkIs
<1>4. ScOk(Val(k)) BY <1>2, <1>3, Homomorphism DEF PrvKey
<1>5. Val(CkdPrv(x, cn)) = y BY <1>1, OkIs
<1>6. x.depth + 1 \in Nat /\ x.depth + 1 <= MaxDepth BY <1>1, Sizes DEF PrvKey
<1>7. PrvKey(y) BY <1>4, <1>6 DEF PrvKey, Prv
<1> QED BY <1>1, <1>5, <1>7 DEF Prv

THEOREM PubStep ==
  ASSUME NEW x, NEW cn, PubKey(x), IsOk(CkdPub(x, cn))
  PROVE  /\ CkdPub(x, cn) = {Ok(Val(CkdPub(x, cn)))}
         /\ PubKey(Val(CkdPub(x, cn)))
         /\ Val(CkdPub(x, cn)).depth = x.depth + 1
         /\ Val(CkdPub(x, cn)).cn = cn
         /\ Val(CkdPub(x, cn)).fp = Fingerprint(x.key)
         /\ ~Hardened(cn)
<1> DEFINE I == HMAC(x.chain, x.key \o cn)
           k == PubTweak(x.key, Left(I))
           y == Pub(Val(k), Right(I), x.depth + 1, Fingerprint(x.key), cn)
<1> HIDE DEF I
<1>0. ~Hardened(cn) BY Barrier
<1>1. ~(x.depth >= MaxDepth) /\ IsOk(k) /\ CkdPub(x, cn) = {Ok(y)}
  BY <1>0, ErrsAre DEF CkdPub, When, I
<1>2. ScOk(Left(I)) /\ PtAddG(x.key, Left(I)) # <<>> /\ k = {Ok(PtAddG(x.key, Left(I)))}
  BY <1>1, ErrsAre DEF PubTweak
<1>3. Val(k) = PtAddG(x.key, Left(I)) BY <1>2, OkIs
<1>4. PtOk(Val(k)) BY <1>2, <1>3, PointsClosed DEF PubKey
<1>5. Val(CkdPub(x, cn)) = y BY <1>1, OkIs
<1>6. x.depth + 1 \in Nat /\ x.depth + 1 <= MaxDepth BY <1>1, Sizes DEF PubKey
<1>7. PubKey(y) BY <1>4, <1>6 DEF PubKey, Pub
<1> QED BY <1>0, <1>1, <1>5, <1>7 DEF Pub

\* C06: public derivation is the image of private derivation, refusals included
THEOREM Commutation ==
  ASSUME NEW x, NEW cn, PrvKey(x), ~Hardened(cn)
  PROVE  /\ IsOk(CkdPub(Neuter(x), cn)) <=> IsOk(CkdPrv(x, cn))
         /\ IsOk(CkdPrv(x, cn)) => CkdPub(Neuter(x), cn) = {Ok(Neuter(Val(CkdPrv(x, cn))))}
         /\ ~IsOk(CkdPrv(x, cn)) => CkdPub(Neuter(x), cn) = CkdPrv(x, cn)
<1> DEFINE I == HMAC(x.chain, PtOf(x.key) \o cn)
           k == PrvTweak(x.key, Left(I))
           q == PubTweak(PtOf(x.key), Left(I))
           n == Neuter(x)
           y == Prv(Val(k), Right(I), x.depth + 1, Fingerprint(PtOf(x.key)), cn)
           z == Pub(Val(q), Right(I), x.depth + 1, Fingerprint(PtOf(x.key)), cn)
<1>0. n.key = PtOf(x.key) /\ n.chain = x.chain /\ n.depth = x.depth BY DEF Neuter, Pub
<1> HIDE DEF I
<1>1. HMAC(x.chain, CkdPrvData(x, cn)) = I BY DEF CkdPrvData, I
<1>2. HMAC(n.chain, n.key \o cn) = I BY <1>0 DEF I
<1> HIDE DEF n
<1>3. IsOk(k) <=> IsOk(q)
  <2>1. CASE ScOk(Left(I))
    BY <2>1, Homomorphism, OkIs, ErrsAre DEF PrvTweak, PubTweak, PrvKey
  <2>2. CASE ~ScOk(Left(I))
    BY <2>2, ErrsAre DEF PrvTweak, PubTweak
  <2> QED BY <2>1, <2>2
<1>4. ASSUME IsOk(k) PROVE Val(q) = PtOf(Val(k))
  <2>1. ScOk(Left(I)) /\ ~IsZero(ScAdd(x.key, Left(I))) /\ k = {Ok(ScAdd(x.key, Left(I)))}
    BY <1>4, ErrsAre DEF PrvTweak
  <2>2. PtAddG(PtOf(x.key), Left(I)) = PtOf(ScAdd(x.key, Left(I))) /\ PtAddG(PtOf(x.key), Left(I)) # <<>>
    BY <2>1, Homomorphism DEF PrvKey
  <2>3. q = {Ok(PtAddG(PtOf(x.key), Left(I)))} BY <2>1, <2>2 DEF PubTweak
  <2> QED BY <2>1, <2>2, <2>3, OkIs
<1> DEFINE bad == When(x.depth >= MaxDepth, "Depth") \cup When(~IsOk(k), "Crypto")
<1> HIDE DEF k, q
<1>5. CkdPrv(x, cn) = IF bad # {} THEN Errs(bad) ELSE {Ok(y)}
  BY <1>1 DEF CkdPrv, k
<1>6. CkdPub(n, cn) = IF bad # {} THEN Errs(bad) ELSE {Ok(z)}
  <2>1. When(Hardened(cn), "ChildNumber") = {} BY DEF When
  <2>2. PubTweak(n.key, Left(HMAC(n.chain, n.key \o cn))) = q BY <1>0, <1>2 DEF q
  <2>3. Right(HMAC(n.chain, n.key \o cn)) = Right(I) BY <1>2
  <2> QED BY <2>1, <2>2, <2>3, <1>0, <1>3 DEF CkdPub, z
<1>7. CASE bad # {}
  BY <1>5, <1>6, <1>7, ErrsAre DEF n
<1>8. CASE bad = {}
  <2>1. IsOk(k) BY <1>8 DEF When
  <2>2. z = Neuter(y) BY <2>1, <1>4 DEF Neuter, Prv, Pub, k, q
  <2> QED BY <1>5, <1>6, <1>8, <2>2, OkIs DEF n
<1> QED BY <1>7, <1>8

---------------------------------------------------------------------------
\* walking a path of any length over any child numbers
Walk(x, path) == CHOOSE g : g = [i \in 0..Len(path) |-> IF i = 0 THEN {Ok(x)} ELSE CkdStep(g[i - 1], path[i])]
LEMMA PathIsWalk == ASSUME NEW x, NEW path PROVE CkdPath(x, path) = Walk(x, path)[Len(path)]
  BY DEF CkdPath, Walk

LEMMA WalkDef ==
  ASSUME NEW x, NEW S, NEW path \in Seq(S)
  PROVE  /\ Walk(x, path)[0] = {Ok(x)}
         /\ \A i \in 1..Len(path) : Walk(x, path)[i] = CkdStep(Walk(x, path)[i - 1], path[i])
<1> DEFINE Is(g, m) == g = [i \in 0..m |-> IF i = 0 THEN {Ok(x)} ELSE CkdStep(g[i - 1], path[i])]
           P(m) == \E g : Is(g, m)
           n == Len(path)
           w == Walk(x, path)
<1>1. n \in Nat OBVIOUS
<1>2. P(0)
  <2> DEFINE g == [i \in 0..0 |-> {Ok(x)}]
  <2>1. \A i \in 0..0 : i = 0 OBVIOUS
  <2>2. g = [i \in 0..0 |-> IF i = 0 THEN {Ok(x)} ELSE CkdStep(g[i - 1], path[i])] BY <2>1
  <2> QED BY <2>2
<1>3. ASSUME NEW m \in Nat, P(m) PROVE P(m + 1)
  <2>1. PICK g : Is(g, m) BY <1>3
  <2> DEFINE h == [i \in 0..(m + 1) |-> IF i = m + 1 THEN CkdStep(g[m], path[m + 1]) ELSE g[i]]
             e(i) == IF i = 0 THEN {Ok(x)} ELSE CkdStep(h[i - 1], path[i])
  <2>2. ASSUME NEW i \in 0..(m + 1) PROVE h[i] = e(i)
    <3>1. CASE i = m + 1
      <4>1. i - 1 = m /\ m \in 0..(m + 1) /\ m # m + 1 /\ i # 0 BY <3>1
      <4>2. h[m] = g[m] BY <4>1
      <4> QED BY <3>1, <4>1, <4>2
    <3>2. CASE i # m + 1 /\ i # 0
      <4>1. i \in 0..m /\ i - 1 \in 0..(m + 1) /\ i - 1 # m + 1 BY <3>2
      <4>2. g[i] = CkdStep(g[i - 1], path[i]) BY <2>1, <3>2, <4>1
      <4>3. h[i - 1] = g[i - 1] /\ h[i] = g[i] BY <3>2, <4>1
      <4> QED BY <3>2, <4>2, <4>3
    <3>3. CASE i = 0
      <4>1. 0 \in 0..m /\ 0 # m + 1 BY <3>3
      <4>2. g[0] = {Ok(x)} BY <2>1, <4>1
      <4> QED BY <3>3, <4>1, <4>2
    <3> QED BY <3>1, <3>2, <3>3
  <2>3. h = [i \in 0..(m + 1) |-> h[i]] OBVIOUS
  <2> HIDE DEF h
  <2>4. h = [i \in 0..(m + 1) |-> e(i)] BY <2>2, <2>3
  <2> QED BY <2>4
<1>4. \A m \in Nat : P(m)
  <2> HIDE DEF P
  <2> QED BY <1>2, <1>3, NatInduction, Isa
<1>5. w = [i \in 0..n |-> IF i = 0 THEN {Ok(x)} ELSE CkdStep(w[i - 1], path[i])]
  BY <1>1, <1>4 DEF Walk
<1> HIDE DEF w, n
<1>6. 0 \in 0..n /\ \A i \in 1..n : i \in 0..n /\ i # 0 BY <1>1
<1> QED BY <1>5, <1>6 DEF w, n

LEMMA WalkStart == ASSUME NEW x PROVE CkdPath(x, <<>>) = {Ok(x)}
<1>1. <<>> \in Seq({}) /\ Len(<<>>) = 0 OBVIOUS
<1> QED BY <1>1, WalkDef, PathIsWalk

LEMMA WalkAppend ==
  ASSUME NEW x, NEW S, NEW path \in Seq(S), NEW cn \in S
  PROVE  CkdPath(x, Append(path, cn)) = CkdStep(CkdPath(x, path), cn)
<1> DEFINE n == Len(path)  more == Append(path, cn)
<1>1. more \in Seq(S) /\ Len(more) = n + 1 /\ more[n + 1] = cn /\ (\A i \in 1..n : more[i] = path[i]) /\ n \in Nat
  BY AppendProperties
<1> HIDE DEF more
<1> DEFINE P(i) == i <= n => Walk(x, more)[i] = Walk(x, path)[i]
<1>2. P(0) BY <1>1, WalkDef
<1>3. ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n PROVE Walk(x, more)[i + 1] = Walk(x, path)[i + 1] OBVIOUS
  <2>1. i + 1 \in 1..n /\ i + 1 \in 1..Len(more) /\ (i + 1) - 1 = i BY <1>1
  <2>2. Walk(x, more)[i + 1] = CkdStep(Walk(x, more)[i], more[i + 1]) BY <2>1, <1>1, WalkDef
  <2>3. Walk(x, path)[i + 1] = CkdStep(Walk(x, path)[i], path[i + 1]) BY <2>1, WalkDef
  <2> QED BY <2>1, <2>2, <2>3, <1>1, <1>3
<1>4. \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>2, <1>3, NatInduction, Isa
<1>5. Walk(x, more)[n] = Walk(x, path)[n] BY <1>1, <1>4
<1>6. n + 1 \in 1..Len(more) /\ (n + 1) - 1 = n BY <1>1
<1>7. Walk(x, more)[n + 1] = CkdStep(Walk(x, more)[n], cn) BY <1>1, <1>6, WalkDef
<1> QED BY <1>1, <1>5, <1>7, PathIsWalk DEF more

Key(x) == PrvKey(x) \/ PubKey(x)
LEMMA Kinds == ASSUME NEW x PROVE (PrvKey(x) => x.kind = "prv") /\ (PubKey(x) => x.kind = "pub")
  BY DEF PrvKey, PubKey, Prv, Pub

\* C08: depth counts the steps and never passes the limit; keys stay keys (C05, C24)
Reached(x, p) == LET r == CkdPath(x, p) IN
  IsOk(r) => /\ r = {Ok(Val(r))} /\ Key(Val(r)) /\ Val(r).kind = x.kind
             /\ Val(r).depth = x.depth + Len(p) /\ Val(r).depth <= MaxDepth
THEOREM PathLineage ==
  ASSUME NEW S, NEW x, Key(x) PROVE \A p \in Seq(S) : Reached(x, p)
<1> DEFINE P(p) == Reached(x, p)
<1>0. x.depth \in Nat /\ x.depth <= MaxDepth BY DEF Key, PrvKey, PubKey
<1>1. P(<<>>)
  <2>1. CkdPath(x, <<>>) = {Ok(x)} /\ Len(<<>>) = 0 BY WalkStart
  <2> QED BY <2>1, <1>0, OkIs DEF Reached
<1>2. ASSUME NEW p \in Seq(S), NEW cn \in S, P(p) PROVE P(Append(p, cn))
  <2> DEFINE r == CkdPath(x, p)  y == Val(r)  t == CkdPath(x, Append(p, cn))
  <2>1. t = CkdStep(r, cn) BY WalkAppend
  <2>2. Len(Append(p, cn)) = Len(p) + 1 /\ Len(p) \in Nat BY AppendProperties
  <2> HIDE DEF r, t
  <2> SUFFICES ASSUME IsOk(t) PROVE t = {Ok(Val(t))} /\ Key(Val(t)) /\ Val(t).kind = x.kind /\ Val(t).depth = x.depth + Len(p) + 1 /\ Val(t).depth <= MaxDepth
    BY <2>2, <1>0 DEF Reached, t
  <2>3. IsOk(r) /\ t = Ckd(y, cn) BY <2>1 DEF CkdStep
  <2>4. Key(y) /\ y.kind = x.kind /\ y.depth = x.depth + Len(p) BY <2>3, <1>2 DEF Reached, r
  <2> HIDE DEF y
  <2>5. CASE PrvKey(y)
    <3>1. y.kind = "prv" /\ t = CkdPrv(y, cn) BY <2>5, <2>3, Kinds DEF Ckd
    <3>2. t = {Ok(Val(t))} /\ PrvKey(Val(t)) /\ Val(t).depth = y.depth + 1 BY <3>1, <2>5, PrvStep
    <3>3. Val(t).kind = "prv" BY <3>2, Kinds
    <3> QED BY <3>1, <3>2, <3>3, <2>4 DEF Key, PrvKey
  <2>6. CASE PubKey(y)
    <3>1. y.kind = "pub" /\ t = CkdPub(y, cn) BY <2>6, <2>3, Kinds DEF Ckd
    <3>2. t = {Ok(Val(t))} /\ PubKey(Val(t)) /\ Val(t).depth = y.depth + 1 BY <3>1, <2>6, PubStep
    <3>3. Val(t).kind = "pub" BY <3>2, Kinds
    <3> QED BY <3>1, <3>2, <3>3, <2>4 DEF Key, PubKey
  <2> QED BY <2>4, <2>5, <2>6 DEF Key
<1> HIDE DEF P
<1>3. \A p \in Seq(S) : P(p) BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

\* C07: a path may be cut anywhere
Along(r, q) == IF IsOk(r) THEN CkdPath(Val(r), q) ELSE r
THEOREM Composition ==
  ASSUME NEW S, NEW x, Key(x), NEW p \in Seq(S)
  PROVE  \A q \in Seq(S) : CkdPath(x, p \o q) = Along(CkdPath(x, p), q)
<1> DEFINE P(q) == CkdPath(x, p \o q) = Along(CkdPath(x, p), q)
           r == CkdPath(x, p)
<1>0. IsOk(r) => r = {Ok(Val(r))} BY PathLineage DEF Reached
<1>1. P(<<>>)
  <2>1. p \o <<>> = p BY ConcatEmptySeq
  <2>2. CkdPath(Val(r), <<>>) = {Ok(Val(r))} BY WalkStart
  <2> QED BY <1>0, <2>1, <2>2 DEF Along
<1>2. ASSUME NEW q \in Seq(S), NEW cn \in S, P(q) PROVE P(Append(q, cn))
  <2>1. p \o Append(q, cn) = Append(p \o q, cn) OBVIOUS
  <2>2. p \o q \in Seq(S) OBVIOUS
  <2>3. CkdPath(x, p \o Append(q, cn)) = CkdStep(CkdPath(x, p \o q), cn) BY <2>1, <2>2, WalkAppend
  <2>4. CkdPath(Val(r), Append(q, cn)) = CkdStep(CkdPath(Val(r), q), cn) BY WalkAppend
  <2> QED BY <2>3, <2>4, <1>2 DEF Along, CkdStep
<1> HIDE DEF P
<1>3. \A q \in Seq(S) : P(q) BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

\* C06: along unhardened paths of any length, neutering first or last gives the same
LEMMA NeuterKey == ASSUME NEW x, PrvKey(x) PROVE PubKey(Neuter(x))
<1>1. PtOk(PtOf(x.key)) BY Points DEF PrvKey
<1> QED BY <1>1 DEF PrvKey, PubKey, Neuter, Pub
Image(x, p) == LET a == CkdPath(x, p)  b == CkdPath(Neuter(x), p) IN
  /\ IsOk(a) <=> IsOk(b)
  /\ IsOk(a) => b = {Ok(Neuter(Val(a)))}
  /\ ~IsOk(a) => b = a
THEOREM PathCommutation ==
  ASSUME NEW S, NEW x, PrvKey(x), \A cn \in S : ~Hardened(cn)
  PROVE  \A p \in Seq(S) : Image(x, p)
<1> DEFINE P(p) == Image(x, p)
<1>1. P(<<>>) BY WalkStart, OkIs DEF Image
<1>2. ASSUME NEW p \in Seq(S), NEW cn \in S, P(p) PROVE P(Append(p, cn))
  <2> DEFINE a == CkdPath(x, p)  b == CkdPath(Neuter(x), p)
             c == CkdPath(x, Append(p, cn))  d == CkdPath(Neuter(x), Append(p, cn))
  <2>1. c = CkdStep(a, cn) /\ d = CkdStep(b, cn) BY WalkAppend
  <2>2. CASE ~IsOk(a)
    BY <2>1, <2>2, <1>2 DEF Image, CkdStep
  <2>3. CASE IsOk(a)
    <3> DEFINE y == Val(a)
    <3>1. b = {Ok(Neuter(y))} /\ IsOk(b) /\ Val(b) = Neuter(y) BY <2>3, <1>2, OkIs DEF Image
    <3>2. Key(y) /\ y.kind = "prv" BY <2>3, PathLineage, Kinds DEF Reached, Key
    <3>3. PrvKey(y) BY <3>2, Kinds DEF Key
    <3> HIDE DEF a, b, c, d, y
    <3>4. c = CkdPrv(y, cn) BY <2>1, <2>3, <3>2 DEF CkdStep, Ckd, y
    <3>5. Neuter(y).kind = "pub" BY DEF Neuter, Pub
    <3>6. d = CkdPub(Neuter(y), cn) BY <2>1, <3>1, <3>5 DEF CkdStep, Ckd
    <3>7. /\ IsOk(d) <=> IsOk(c)
          /\ IsOk(c) => d = {Ok(Neuter(Val(c)))}
          /\ ~IsOk(c) => d = c
      BY <3>3, <3>4, <3>6, Commutation
    <3> QED BY <3>7 DEF Image, c, d
  <2> QED BY <2>2, <2>3
<1> HIDE DEF P
<1>3. \A p \in Seq(S) : P(p) BY <1>1, <1>2, SequencesInductionAppend, Isa
<1> QED BY <1>3 DEF P

\* C06: a path that is hardened anywhere leads nowhere from a public key
THEOREM PathBarrier ==
  ASSUME NEW S, NEW x, PubKey(x), NEW p \in Seq(S), NEW cn \in S, Hardened(cn), NEW q \in Seq(S)
  PROVE  ~IsOk(CkdPath(x, Append(p, cn) \o q))
<1> DEFINE r == CkdPath(x, p)  t == CkdPath(x, Append(p, cn))
<1>1. t = CkdStep(r, cn) BY WalkAppend
<1>2. ~IsOk(t)
  <2>1. CASE ~IsOk(r) BY <2>1, <1>1 DEF CkdStep
  <2>2. CASE IsOk(r)
    <3>1. Val(r).kind = "pub" BY <2>2, PathLineage, Kinds DEF Reached, Key
    <3> QED BY <3>1, <2>2, <1>1, Barrier DEF CkdStep, Ckd
  <2> QED BY <2>1, <2>2
<1>3. Append(p, cn) \in Seq(S) BY AppendProperties
<1>5. Key(x) BY DEF Key
<1> HIDE DEF t
<1>6. \A u \in Seq(S) : CkdPath(x, Append(p, cn) \o u) = Along(CkdPath(x, Append(p, cn)), u) BY <1>3, <1>5, Composition, Isa
<1>4. CkdPath(x, Append(p, cn) \o q) = Along(t, q) BY <1>6 DEF t
<1> QED BY <1>2, <1>4 DEF Along
=============================================================================

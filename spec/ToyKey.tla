------------------------------- MODULE ToyKey -------------------------------
(* A key type other than secp256k1, to instantiate KMS with and to plug into *)
(* the crate's generic extended keys (harness/src/toy.rs implements the same *)
(* definitions).  A scalar is 32 bytes; about half of all 32-byte strings    *)
(* are refused as scalars, and one sum in fourteen is refused as well, so    *)
(* that what has probability 2^-127 with secp256k1 happens all the time.     *)
EXTENDS Integers, Sequences, SequencesExt

ToyTop == 150                   \* scalars are numbers modulo ToyTop * 256^31 ...
ByteSum(k) == FoldLeft(LAMBDA a, x : a + x, 0, k)
\* ... that 15 does not divide (256 = 1 and ToyTop = 0 modulo 15)
ToyScOk(k) == Len(k) = 32 /\ k[1] < ToyTop /\ ByteSum(k) % 15 # 0
ToyZero == [i \in 1..32 |-> 0]
ToySum(a, t) ==
  FoldLeft(LAMBDA acc, j : LET i == 33 - j
                               s == a[i] + t[i] + acc.c
                               m == IF i = 1 THEN ToyTop ELSE 256
                           IN [r |-> <<s % m>> \o acc.r, c |-> s \div m],
           [r |-> <<>>, c |-> 0], [j \in 1..32 |-> j]).r
ToyScAdd(a, t) == LET s == ToySum(a, t) IN IF ToyScOk(s) THEN s ELSE ToyZero
ToyPtOf(k) == <<2>> \o k
ToyPtOk(p) == Len(p) = 33 /\ p[1] = 2 /\ ToyScOk(Tail(p))
ToyPtAddG(p, t) == LET s == ToySum(Tail(p), t) IN IF ToyScOk(s) THEN <<2>> \o s ELSE <<>>
=============================================================================

------------------------------- MODULE MCSizes -------------------------------
(* The table of mnemonic sizes with the real constants: every number up to   *)
(* Top entered in every way.  (Whatever is larger is refused by definition;  *)
(* the real code is asked about larger numbers during trace validation.)     *)
EXTENDS KMS, TLC
CONSTANT Top
RLens == {16, 20, 24, 28, 32}
Skip1(x) == x
Skip2(x, y) == x
None1 == <<>>
VARIABLE n
Init == n = 0
Next == n < Top /\ n' = n + 1
Spec == Init /\ [][Next]_n
Bip39Table == {<<12, 128, 4, 132>>, <<15, 160, 5, 165>>, <<18, 192, 6, 198>>, <<21, 224, 7, 231>>, <<24, 256, 8, 264>>}
Row(t) == <<t.words, t.ent, t.cs, t.total>>
Phrase(k) == [i \in 1..(2 * k - 1) |-> IF i % 2 = 0 THEN 32 ELSE 120]
Prop ==
  /\ IsOk(TypeForWords(n)) = (n \in {12, 15, 18, 21, 24})
  /\ IsOk(TypeForBits(n)) = (n \in {128, 160, 192, 224, 256})
  /\ IsOk(TypeForWords(n)) => LET t == Val(TypeForWords(n)) IN
       /\ Row(t) \in Bip39Table /\ t.words = n
       /\ TypeForBits(t.ent) = {Ok(t)} /\ TypeForPhrase(Phrase(n)) = {Ok(t)}
       /\ 3 * t.ent = 32 * n /\ 32 * t.cs = t.ent /\ t.ent + t.cs = t.total /\ t.total = 11 * n
       /\ t.ent = 8 * (t.ent \div 8) /\ (t.ent \div 8) \in EntLens
  /\ IsOk(TypeForBits(n)) => Val(TypeForBits(n)).ent = n /\ TypeForWords(Val(TypeForBits(n)).words) = TypeForBits(n)
  /\ (n > 0 /\ n < 60) => TypeForPhrase(Phrase(n)) = TypeForWords(n)
  /\ Cardinality(TypeForWords(n)) = 1 /\ Cardinality(TypeForBits(n)) = 1
=============================================================================

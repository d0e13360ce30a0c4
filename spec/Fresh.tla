------------------------------- MODULE Fresh -------------------------------
(* All entropies drawn by Mnemonic::new over several threads and processes.  *)
(* A correct generator draws every bit afresh; then the following hold for   *)
(* the recorded draws except with negligible probability (see DESIGN.md):    *)
(* no 8 consecutive bytes ever come back, every bit takes both values at     *)
(* every size, no two byte positions are tied to each other, and every byte  *)
(* value occurs.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANT LogFile
Draws == ndJsonDeserialize(LogFile)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
W == 8
Windows == [i \in 1..Len(Draws) |-> {SubSeq(Draws[i].ent, j, j + W - 1) : j \in 1..(Len(Draws[i].ent) - W + 1)}]
Places == {<<i, j>> \in (1..Len(Draws)) \X (1..32) : j <= Len(Draws[i].ent) - W + 1}
AllWindows == {SubSeq(Draws[x[1]].ent, x[2], x[2] + W - 1) : x \in Places}
Total == FoldLeft(LAMBDA a, i : a + Len(Draws[i].ent) - W + 1, 0, [i \in 1..Len(Draws) |-> i])
NoRepeat == Cardinality(AllWindows) = Total
Repeats(i) == \/ Cardinality(Windows[i]) # Len(Draws[i].ent) - W + 1
              \/ \E j \in 1..Len(Draws) : j # i /\ Windows[i] \cap Windows[j] # {}

Bit(x, k) == (x \div Pow2[k]) % 2
Lens == {Len(Draws[i].ent) : i \in 1..Len(Draws)}
OfLen == [n \in Lens |-> {i \in 1..Len(Draws) : Len(Draws[i].ent) = n}]
StuckBits == {<<n, p, k>> \in Lens \X (1..32) \X (1..8) : p <= n /\ Cardinality({Bit(Draws[i].ent[p], k) : i \in OfLen[n]}) < 2}
TiedBytes == {<<n, p, q>> \in Lens \X (1..32) \X (1..32) : p < q /\ q <= n /\ Cardinality({(Draws[i].ent[p] - Draws[i].ent[q]) % 256 : i \in OfLen[n]}) < 2}
Values == UNION {{Draws[i].ent[p] : p \in 1..Len(Draws[i].ent)} : i \in 1..Len(Draws)}
MissingValues == (0..255) \ Values

VARIABLE n
Init == n = 0
Next == /\ n < Len(Draws) /\ n' = n + 1
        /\ IF NoRepeat \/ ~Repeats(n + 1) THEN TRUE ELSE PrintT("NOTFRESH " \o ToJson(<<"entropy bytes come back", Draws[n + 1]>>))
        /\ IF n > 0 THEN TRUE ELSE
             /\ IF StuckBits = {} THEN TRUE ELSE PrintT("NOTFRESH " \o ToJson(<<"bits that never change (size, byte, bit)", StuckBits>>))
             /\ IF TiedBytes = {} THEN TRUE ELSE PrintT("NOTFRESH " \o ToJson(<<"bytes tied to each other (size, byte, byte)", TiedBytes>>))
             /\ IF MissingValues = {} \/ Len(Draws) < 400 THEN TRUE ELSE PrintT("NOTFRESH " \o ToJson(<<"byte values that never occur", MissingValues>>))
Spec == Init /\ [][Next]_n
=============================================================================

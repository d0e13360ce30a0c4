------------------------------ MODULE Sources ------------------------------
(* One call of the generator against a source that hands out its units in    *)
(* portions, interrupts, or fails for good; and what the call makes of the   *)
(* units.  Design "os": ask until the entropy is full, refuse if the source  *)
(* fails, use the units as they are; "stream": a bijective mixing of them.   *)
(* Designs that must be refused: "swallow" (a failure is ignored), "once"    *)
(* (a short answer is taken for a full one), "short" (few units are asked    *)
(* for and stretched), "fold" (halves combined), "clamp" (a unit is forced), *)
(* "tie" (a unit is overwritten by the sum of others).                       *)
(*                                                                           *)
(* Whole: an entropy is made only of as many units as promised, all of them  *)
(* the source's.  Telling: whenever a design maps two source contents to one *)
(* entropy, already the small Family of contents (constant ones, one unit    *)
(* changed, two units changed alike) has such a pair; so replaying just the  *)
(* Family against the real code decides it.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, B, Design            \* units per entropy, values per unit (a power of two)
Idx == 1..N
U == 0..B-1
Contents == [Idx -> U]
Asked == IF Design = "short" THEN N \div 2 ELSE N
RECURSIVE Prefix(_, _)
Prefix(s, k) == IF k = 0 THEN 0 ELSE (Prefix(s, k - 1) + s[k]) % B
Out(s) == CASE Design = "short" -> [i \in Idx |-> s[((i - 1) % (N \div 2)) + 1]]
            [] Design = "stream" -> [i \in Idx |-> Prefix(s, i)]
            [] Design = "fold" -> [i \in Idx |-> (s[i] + s[((i + (N \div 2) - 1) % N) + 1]) % B]
            [] Design = "clamp" -> [s EXCEPT ![1] = IF @ < B \div 2 THEN @ + B \div 2 ELSE @]
            [] Design = "tie" -> [s EXCEPT ![N] = Prefix(s, N - 1)]
            [] OTHER -> s
Flip(x, d) == (x + d) % B
Const(v) == [i \in Idx |-> v]
Family == {Const(v) : v \in U} \cup {[Const(v) EXCEPT ![i] = w] : v \in {0, B - 1}, i \in Idx, w \in U}
          \cup {[i \in Idx |-> IF i = p THEN Flip(0, d) ELSE IF i = q THEN Flip(0, e) ELSE 0] : p \in Idx, q \in Idx, d \in {1, B \div 2}, e \in {1, B - 1, B \div 2}}
Telling == Cardinality({Out(s) : s \in Contents}) < Cardinality(Contents) => Cardinality({Out(s) : s \in Family}) < Cardinality(Family)
Injective == Cardinality({Out(s) : s \in Contents}) = Cardinality(Contents)
ASSUME Telling

VARIABLES have,     \* units received: numbers of the source's units, 0 for what was never received
          next,     \* number of the source's next unit
          fuel,     \* interruptions left
          st        \* "asking" | "made" | "refused"
vars == <<have, next, fuel, st>>
Init == have = <<>> /\ next = 1 /\ fuel = 2 /\ st = "asking"
Pad(h, n) == [i \in 1..n |-> IF i <= Len(h) THEN h[i] ELSE 0]
Serve == /\ st = "asking" /\ Len(have) < Asked
         /\ \E k \in 1..(Asked - Len(have)) :
              /\ have' = have \o [i \in 1..k |-> next + i - 1] /\ next' = next + k
              /\ st' = IF Design = "once" THEN "made" ELSE st
         /\ UNCHANGED fuel
Interrupt == st = "asking" /\ Len(have) < Asked /\ fuel > 0 /\ fuel' = fuel - 1 /\ UNCHANGED <<have, next, st>>
Fail == /\ st = "asking" /\ Len(have) < Asked
        /\ st' = IF Design = "swallow" THEN "made" ELSE "refused"
        /\ UNCHANGED <<have, next, fuel>>
Full == st = "asking" /\ Len(have) = Asked /\ st' = "made" /\ UNCHANGED <<have, next, fuel>>
Next == Serve \/ Interrupt \/ Fail \/ Full
Spec == Init /\ [][Next]_vars
Made == IF Design = "short" THEN [i \in Idx |-> Pad(have, Asked)[((i - 1) % (N \div 2)) + 1]] ELSE Pad(have, N)
Whole == st = "made" => Injective /\ \A i, j \in Idx : Made[i] > 0 /\ (i # j => Made[i] # Made[j])
=============================================================================

------------------------------ MODULE MCToyKey ------------------------------
(* ToyKey is a key type: sums of scalars are scalars or refused, the order   *)
(* of the summands does not matter, and deriving before or after taking the  *)
(* public key is the same.  Every pair of a grid of scalars is a state.      *)
EXTENDS ToyKey, TLC
Grid == {[i \in 1..32 |-> IF i = 1 THEN f ELSE IF i = 32 THEN z ELSE m] : f \in {0, 1, 75, 149, 150, 255}, m \in {0, 1, 127, 255}, z \in {0, 1, 14, 15, 254, 255}}
VARIABLES a, t
Init == a \in Grid /\ t \in Grid
Next == UNCHANGED <<a, t>>
Spec == Init /\ [][Next]_<<a, t>>
Good == ToyScOk(a) /\ ToyScOk(t)
Closed == Good => (ToyScAdd(a, t) = ToyZero \/ ToyScOk(ToyScAdd(a, t)))
Abelian == Good => ToyScAdd(a, t) = ToyScAdd(t, a)
Homomorphic == Good => /\ ToyPtOk(ToyPtOf(a))
                       /\ ToyPtAddG(ToyPtOf(a), t) = (IF ToyScAdd(a, t) = ToyZero THEN <<>> ELSE ToyPtOf(ToyScAdd(a, t)))
Cancels == (ToyScOk(a) /\ ToyScOk(t) /\ ToyScAdd(a, t) # ToyZero) =>
             \* the inverse of t is the number that t completes to the modulus
             LET inv == [i \in 1..32 |-> IF i = 1 THEN ToyTop - 1 - t[1] ELSE 255 - t[i]]
                 one == [i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0]
             IN ToySum(ToySum(ToySum(a, t), inv), one) = a
BothHappen == /\ \E x \in Grid : ToyScOk(x)
              /\ \E x \in Grid : ~ToyScOk(x)
              /\ \E x, y \in Grid : ToyScOk(x) /\ ToyScOk(y) /\ ToyScAdd(x, y) = ToyZero
ASSUME BothHappen
=============================================================================

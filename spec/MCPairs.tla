------------------------------- MODULE MCPairs -------------------------------
(* Pairs of extended keys that differ in a chosen set of fields, by the same *)
(* change in the same place of each of them (so that differences could       *)
(* cancel out in a careless comparison).  Equality, text and children are    *)
(* compared on the small scale; the same pairs, concretised, are given to    *)
(* the real comparison and debug formatting.                                 *)
EXTENDS KMS, Toy, TLC, Json
Fields == {"key", "chain", "depth", "fp", "cn"}
VARIABLES kind, diff, pos, bit
vars == <<kind, diff, pos, bit>>
Init == kind \in {"prv", "pub"} /\ diff = {} /\ pos \in {"first", "middle", "last"} /\ bit \in {"low", "high"}
Next == \E f \in Fields \ diff : diff' = diff \cup {f} /\ UNCHANGED <<kind, pos, bit>>
Spec == Init /\ [][Next]_vars
Place(s) == IF pos = "first" THEN 1 ELSE IF pos = "last" THEN Len(s) ELSE (Len(s) + 1) \div 2
Alter(s) == [s EXCEPT ![Place(s)] = IF bit = "low" THEN (IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1) ELSE (IF @ < 128 THEN @ + 128 ELSE @ - 128)]
\* another valid key, whatever place and bit
AlterKey(k) == IF kind = "prv" THEN <<(k[1] % 4) + 1>> ELSE ToyPtOf(<<2>>)
X == IF kind = "prv" THEN Prv(<<3>>, <<1>>, 1, <<9, 8, 7, 6>>, <<0, 1, 2, 3>>) ELSE Pub(ToyPtOf(<<3>>), <<1>>, 1, <<9, 8, 7, 6>>, <<0, 1, 2, 3>>)
Y == [X EXCEPT !.key = IF "key" \in diff THEN AlterKey(@) ELSE @, !.chain = IF "chain" \in diff THEN Alter(@) ELSE @,
               !.depth = IF "depth" \in diff THEN 2 ELSE @, !.fp = IF "fp" \in diff THEN Alter(@) ELSE @, !.cn = IF "cn" \in diff THEN Alter(@) ELSE @]
Ver == <<120, 112, 114, 118>>
Prop == /\ KeyEq(X, Y) = (diff = {})
        /\ (ExportText(Ver, X) = ExportText(Ver, Y)) = (diff = {})
        /\ diff = {} => \A i \in {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>} : Ckd(X, i) = Ckd(Y, i)
        \* what may be shown of a private key (its attributes) is the same exactly when only the key differs
        /\ kind = "prv" => ([X EXCEPT !.key = 0] = [Y EXCEPT !.key = 0]) = (diff \subseteq {"key"})
Emit == PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, diff |-> diff, pos |-> pos, bit |-> bit]))
=============================================================================

------------------------------ MODULE Scripted ------------------------------
(* Draws made while the source of randomness was scripted (the Family of     *)
(* Sources.tla, concretised): different contents give different entropies.   *)
(* Also, the first draw of a process has taken at least as many bytes from   *)
(* the system as its entropy has.                                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT LogFile
Draws == ndJsonDeserialize(LogFile)
Lens == {Len(Draws[i].ent) : i \in 1..Len(Draws)}
Of(n) == {i \in 1..Len(Draws) : Len(Draws[i].ent) = n}
Ents(n) == {Draws[i].ent : i \in Of(n)}
Scripts(n) == {Draws[i].script : i \in Of(n)}
Clash(i) == \E j \in 1..Len(Draws) : j # i /\ Draws[j].ent = Draws[i].ent /\ Draws[j].script # Draws[i].script
VARIABLE n
Init == n = 0
Next == /\ n = 0 /\ n' = 1
        /\ \A k \in Lens : IF Cardinality(Ents(k)) >= Cardinality(Scripts(k)) THEN TRUE
                           ELSE PrintT("NOTFRESH " \o ToJson(<<"different randomness, same entropy", CHOOSE i \in Of(k) : Clash(i), k>>))
        /\ \A i \in 1..Len(Draws) : IF Draws[i].first => Draws[i].drawn >= Len(Draws[i].ent) THEN TRUE
                           ELSE PrintT("NOTFRESH " \o ToJson(<<"fewer random bytes taken than the entropy has", Draws[i].drawn, Len(Draws[i].ent)>>))
Spec == Init /\ [][Next]_n
=============================================================================

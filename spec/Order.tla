-------------------------------- MODULE Order --------------------------------
(* Comparing values made of several fields, three at a time.  Way says how    *)
(* they are compared:                                                         *)
(*   "lex"      field by field, in some order of the fields                   *)
(*   "partial"  one field is left out                                         *)
(*   "rounded"  by the sum of the fields                                      *)
(*   "cyclic"   field by field, but each field the short way round            *)
(* Only the first is a total order that agrees with equality, whatever the    *)
(* order of the fields.  The triples are given to the real comparisons.       *)
EXTENDS KMS, TLC, Json
CONSTANTS Way, NFields, NValues
Skip1(x) == x
Skip2(x, y) == x
None1 == <<>>
Vals == [1..NFields -> 0..(NValues - 1)]
VARIABLES x, perm, started
ovars == <<x, perm, started>>
Init == x \in [1..3 -> Vals] /\ perm = <<>> /\ started = FALSE
\* the order of the fields is chosen afterwards, so that triples can be printed once
Next == ~started /\ started' = TRUE /\ x' = x /\ perm' \in {p \in [1..NFields -> 1..NFields] : \A i, j \in 1..NFields : i # j => p[i] # p[j]}
Spec == Init /\ [][Next]_ovars
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Round(n) == IF NValues > 2 /\ n = NValues - 1 THEN -1 ELSE IF NValues > 2 /\ n = 1 - NValues THEN 1 ELSE n
RECURSIVE Lex(_, _, _)
Lex(a, b, k) == IF k > (IF Way = "partial" THEN NFields - 1 ELSE NFields) THEN 0
                ELSE LET d == a[perm[k]] - b[perm[k]] IN IF d # 0 THEN Sgn(IF Way = "cyclic" THEN Round(d) ELSE d) ELSE Lex(a, b, k + 1)
Sum(a) == FoldLeft(LAMBDA s, i : s + a[i], 0, [i \in 1..NFields |-> i])
Compare(a, b) == IF Way = "rounded" THEN Sgn(Sum(a) - Sum(b)) ELSE Lex(a, b, 1)
Cmp == [i \in 1..3 |-> [j \in 1..3 |-> Compare(x[i], x[j])]]
Lawful == started => LawfulOrder(x, Cmp)
\* then sorting has one outcome, up to equal values
Sorted(s) == Cmp[s[1]][s[2]] <= 0 /\ Cmp[s[2]][s[3]] <= 0
Sorts == {s \in [1..3 -> 1..3] : {s[i] : i \in 1..3} = 1..3 /\ Sorted(s)}
OneSorting == started => Sorts # {} /\ \A s, t \in Sorts : \A i \in 1..3 : x[s[i]] = x[t[i]]
Emit == started \/ PrintT("BEHAVIOUR " \o ToJson(x))
=============================================================================

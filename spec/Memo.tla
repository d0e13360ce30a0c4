-------------------------------- MODULE Memo --------------------------------
(* An implementation that remembers earlier answers.  It looks a call up     *)
(* under some of what the call's arguments contain; when it finds something  *)
(* it answers with that, otherwise it computes.  Arguments are sequences of  *)
(* fields, fields are sequences of elements; the true answer tells all       *)
(* arguments apart.  A memo that looks at everything is right; one that      *)
(* overlooks anything has to be exposed by one of the Plans: a call, a call  *)
(* that differs from it in one specific way, and the first call again.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NFields, How      \* How: the ways of varying a call that plans use

F == 1..NFields
Elem == 0..2
Base == <<0, 1, 2>>

\* ---- what a memo may look at, per field, and across fields
Looks == {"all", "nothing", "first", "last", "length", "bag", "butlast", "butfirst", "ends"}
Look(a, s) ==
  CASE a = "all" -> s
    [] a = "nothing" -> <<>>
    [] a = "first" -> IF s = <<>> THEN <<>> ELSE <<s[1]>>
    [] a = "last" -> IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
    [] a = "length" -> <<Len(s)>>
    [] a = "bag" -> [x \in Elem |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
    [] a = "butlast" -> IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
    [] a = "butfirst" -> IF s = <<>> THEN <<>> ELSE Tail(s)
    [] a = "ends" -> IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>
Joined(v) == FoldLeft(LAMBDA x, y : x \o y, <<>>, v)
Fn(t, l) == [t |-> t, l |-> l]
AllOf == [i \in F |-> "all"]
Full == Fn("fields", AllOf)
KeyFns == {Fn("fields", l) : l \in [F -> Looks]} \cup {Fn("joined", AllOf), Fn("sorted", AllOf)}
KeyOf(k, v) ==
  CASE k.t = "joined" -> Joined(v)                     \* no separator between the fields
    [] k.t = "sorted" -> {v[i] : i \in F}              \* the fields without their order
    [] OTHER -> [i \in F |-> Look(k.l[i], v[i])]
\* with one field only, joining and sorting overlook nothing
Right == IF NFields = 1 THEN KeyFns \ {Fn("fields", l) : l \in [F -> Looks] \ {AllOf}} ELSE {Full}

\* ---- ways to vary a call v
SetAt(s, i, x) == [s EXCEPT ![i] = x]
Vary(s, h) ==
  CASE h = "first" -> SetAt(s, 1, (s[1] + 1) % 3)
    [] h = "last" -> SetAt(s, Len(s), (s[Len(s)] + 1) % 3)
    [] h = "middle" -> SetAt(s, 2, (s[2] + 1) % 3)
    [] h = "swap" -> SetAt(SetAt(s, 1, s[2]), 2, s[1])
    [] h = "extend" -> Append(s, s[Len(s)])
    [] h = "prepend" -> <<s[1]>> \o s
    [] h = "cut" -> SubSeq(s, 1, Len(s) - 1)
    [] h = "behead" -> Tail(s)
Single == {"first", "last", "middle", "swap", "extend", "prepend", "cut", "behead"}
Variations == {[how |-> h, f |-> i, g |-> 0] : h \in How \cap Single, i \in F}
              \cup {[how |-> h, f |-> i, g |-> j] : h \in How \cap {"shift", "exchange"}, i \in F, j \in F \ {0}}
Applicable(x) == x.how \in {"shift", "exchange"} => x.f < x.g
Bases == {[i \in F |-> IF i % 2 = 1 THEN Base ELSE <<2, 0, 1>>]}
Varied(v, x) ==
  CASE x.how = "shift" -> [v EXCEPT ![x.f] = SubSeq(@, 1, Len(@) - 1), ![x.g] = <<v[x.f][Len(v[x.f])]>> \o @]
    [] x.how = "exchange" -> [v EXCEPT ![x.f] = v[x.g], ![x.g] = v[x.f]]
    [] OTHER -> [v EXCEPT ![x.f] = Vary(@, x.how)]
Plans == {<<v, Varied(v, x), v>> : v \in Bases, x \in {y \in Variations : Applicable(y)}}

\* ---- the implementation running through a plan
VARIABLES keyfn, keeps, plan, vary, at, memo, wrong
vars == <<keyfn, keeps, plan, vary, at, memo, wrong>>
Init == /\ keyfn \in KeyFns /\ keeps \in {"one", "many"}
        /\ \E v \in Bases, x \in {y \in Variations : Applicable(y)} : vary = x /\ \E b \in BOOLEAN :
             plan = IF b THEN <<v, Varied(v, x), v>> ELSE <<Varied(v, x), v, Varied(v, x)>>
        /\ at = 1 /\ memo = <<>> /\ wrong = FALSE
Next == /\ at <= Len(plan)
        /\ LET v == plan[at]
               hits == SelectSeq(memo, LAMBDA m : m.key = KeyOf(keyfn, v))
               ans == IF hits = <<>> THEN v ELSE hits[1].val
               m2 == IF hits # <<>> THEN memo ELSE LET n == [key |-> KeyOf(keyfn, v), val |-> v] IN IF keeps = "one" THEN <<n>> ELSE Append(memo, n)
           IN /\ wrong' = (wrong \/ ans # v) /\ memo' = m2 /\ at' = at + 1
        /\ UNCHANGED <<keyfn, keeps, plan, vary>>
Spec == Init /\ [][Next]_vars
\* a memo that looks at everything never errs, whatever the plan
Sound == (keyfn \in Right) => ~wrong
\* every other one errs on some plan, in the same positions TLC explores above
RECURSIVE Errs(_, _, _, _)
Errs(k, kp, p, m) ==
  IF p = <<>> THEN FALSE
  ELSE LET v == p[1]  hits == SelectSeq(m, LAMBDA x : x.key = KeyOf(k, v))  n == [key |-> KeyOf(k, v), val |-> v] IN
       IF hits # <<>> THEN hits[1].val # v \/ Errs(k, kp, Tail(p), m)
       ELSE Errs(k, kp, Tail(p), IF kp = "one" THEN <<n>> ELSE Append(m, n))
Exposed == (at = 1 /\ keyfn \notin Right) => \E p \in Plans : Errs(keyfn, keeps, p, <<>>)
EmitPlan == (at = 1 /\ keyfn = Full /\ keeps = "one" /\ plan[1] \in Bases) => PrintT("BEHAVIOUR " \o ToJson(vary))
=============================================================================

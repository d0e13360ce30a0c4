----------------------------- MODULE ProofsInit -----------------------------
(* The design of first use in LazyInit is right for any set of threads and   *)
(* any number of calls per thread, not only those TLC enumerates.            *)
EXTENDS LazyInit, TLAPS
ASSUME Design == Variant = "ok" /\ PerThread \in Nat

CellOk(c) == /\ c.st \in {"empty", "building", "ready"} /\ c.filled \in 0..Size
             /\ c.st = "empty" => c.filled = 0
             /\ c.st = "ready" => c.filled = Size
Types == /\ cell \in [Cells -> [st : {"empty", "building", "ready"}, by : Threads \cup {0}, filled : 0..Size]]
         /\ todo \in [Threads -> Seq(Cells)] /\ stack \in [Threads -> Seq(Cells)]
Inv == Types /\ (\A c \in Cells : CellOk(cell[c])) /\ MapAfterList /\ Complete

LEMMA CellsAre == \A l \in LangsL : <<l, "map">> \in Cells /\ <<l, "list">> \in Cells
<1> SUFFICES ASSUME NEW l \in LangsL PROVE <<l, "map">> \in Cells /\ <<l, "list">> \in Cells OBVIOUS
<1>1. "map" \in {"list", "map"} /\ "list" \in {"list", "map"} OBVIOUS
<1> QED BY <1>1 DEF Cells
LEMMA CellParts == \A c \in Cells : c[1] \in LangsL
  BY DEF Cells
LEMMA Starts == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. plan \in [Threads -> Seq(Cells)]
  <2>1. Plans \subseteq Seq(Cells) BY Design DEF Plans
  <2> QED BY <2>1 DEF Init
<1>2. \A c \in Cells : cell[c] = [st |-> "empty", by |-> 0, filled |-> 0] BY DEF Init
<1>3. Types BY <1>1, <1>2 DEF Types, Init, Size
<1>4. \A c \in Cells : CellOk(cell[c]) BY <1>2 DEF CellOk, Size
<1>5. MapAfterList BY <1>2, CellsAre DEF MapAfterList
<1>6. Complete BY DEF Complete, Init
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA Keeps == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE DEF Inv
<1>0. CASE UNCHANGED vars
  BY <1>0 DEF vars, Types, CellOk, MapAfterList, Complete
<1>1. ASSUME NEW t \in Threads, Start(t) PROVE Inv'
  <2>1. stack' = [stack EXCEPT ![t] = <<todo[t][1]>>] /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ todo[t] # <<>> /\ UNCHANGED <<cell, seen, plan>> BY <1>1 DEF Start
  <2>2. todo[t] \in Seq(Cells) /\ todo[t][1] \in Cells /\ Tail(todo[t]) \in Seq(Cells) BY <2>1 DEF Types
  <2>3. Types' BY <2>1, <2>2 DEF Types
  <2> QED BY <2>1, <2>3 DEF CellOk, MapAfterList, Complete
<1>2. ASSUME NEW t \in Threads, Enter(t) PROVE Inv'
  <2> DEFINE c == Top(t)
  <2>1. stack[t] # <<>> /\ c \in Cells BY <1>2 DEF Enter, Top, Types
  <2>2. cell[c].st = "empty" BY <1>2, Design DEF Enter
  <2>3. cell' = [cell EXCEPT ![c] = [@ EXCEPT !.st = "building", !.by = t]] /\ UNCHANGED <<todo, stack, seen, plan>> BY <1>2 DEF Enter
  <2> HIDE DEF c
  <2>4. cell[c].filled = 0 BY <2>1, <2>2 DEF CellOk
  <2>5. Types' BY <2>1, <2>3 DEF Types
  <2>6. \A d \in Cells : d # c => cell'[d] = cell[d] BY <2>3, <2>1 DEF Types
  <2>7. cell'[c].st = "building" /\ cell'[c].filled = 0 BY <2>1, <2>3, <2>4 DEF Types
  <2>8. \A d \in Cells : CellOk(cell'[d]) BY <2>6, <2>7 DEF CellOk, Size
  <2>9. MapAfterList'
    <3> SUFFICES ASSUME NEW l \in LangsL, cell'[<<l, "map">>].filled > 0 PROVE cell'[<<l, "list">>].st = "ready" BY DEF MapAfterList
    <3>1. <<l, "map">> # c BY <2>7
    <3>2. cell[<<l, "list">>].st = "ready" BY <3>1, <2>6, CellsAre DEF MapAfterList
    <3>3. <<l, "list">> # c BY <3>2, <2>2
    <3> QED BY <3>2, <3>3, <2>6, CellsAre
  <2>10. Complete' BY <2>3 DEF Complete
  <2> QED BY <2>5, <2>8, <2>9, <2>10
<1>3. ASSUME NEW t \in Threads, Build(t) PROVE Inv'
  <2> DEFINE c == Top(t)
  <2>1. stack[t] # <<>> /\ c \in Cells /\ cell[c].st = "building" BY <1>3 DEF Build, Top, Types
  <2>2. UNCHANGED <<todo, seen, plan>> BY <1>3 DEF Build
  <2>3. CASE Missing(t, c) # {}
    <3> DEFINE n == CHOOSE m \in Missing(t, c) : TRUE
    <3>1. stack' = [stack EXCEPT ![t] = <<n>> \o @] /\ UNCHANGED cell BY <1>3, <2>3 DEF Build
    <3>2. n \in Cells
      <4>1. n \in Missing(t, c) BY <2>3
      <4>2. n \in Needs(c) BY <4>1 DEF Missing
      <4>3. n = <<c[1], "list">> BY <4>2, Design DEF Needs
      <4> QED BY <4>3, <2>1, CellParts, CellsAre
    <3> HIDE DEF n
    <3>3. <<n>> \o stack[t] \in Seq(Cells) BY <3>2 DEF Types
    <3>4. Types' BY <3>1, <3>3, <2>2 DEF Types
    <3> QED BY <3>1, <3>4, <2>2 DEF CellOk, MapAfterList, Complete
  <2>4. CASE Missing(t, c) = {}
    <3>1. cell' = [cell EXCEPT ![c] = IF @.filled < Size THEN [@ EXCEPT !.filled = @ + 1, !.st = "building"] ELSE [@ EXCEPT !.st = "ready"]] /\ UNCHANGED stack
      BY <1>3, <2>4, Design DEF Build
    <3>2. c[2] = "map" => cell[<<c[1], "list">>].st = "ready" BY <2>4, <2>1 DEF Missing, Needs, Cells
    <3> HIDE DEF c
    <3>3. Types' BY <3>1, <2>1, <2>2 DEF Types, Size
    <3>4. \A d \in Cells : d # c => cell'[d] = cell[d] BY <3>1, <2>1 DEF Types
    <3>5. cell[c].filled \in 0..Size BY <2>1 DEF CellOk
    <3>6. /\ cell[c].filled < Size => cell'[c].filled = cell[c].filled + 1 /\ cell'[c].st = "building"
          /\ ~(cell[c].filled < Size) => cell'[c].filled = cell[c].filled /\ cell'[c].st = "ready"
      BY <3>1, <2>1 DEF Types
    <3>7. CellOk(cell'[c]) BY <3>5, <3>6 DEF CellOk, Size
    <3>8. \A d \in Cells : CellOk(cell'[d]) BY <3>4, <3>7
    <3>9. MapAfterList'
      <4> SUFFICES ASSUME NEW l \in LangsL, cell'[<<l, "map">>].filled > 0 PROVE cell'[<<l, "list">>].st = "ready" BY DEF MapAfterList
      <4>1. cell[<<l, "list">>].st = "ready"
        <5>1. CASE <<l, "map">> = c BY <5>1, <3>2
        <5>2. CASE <<l, "map">> # c BY <5>2, <3>4, CellsAre DEF MapAfterList
        <5> QED BY <5>1, <5>2
      <4>2. <<l, "list">> # c BY <4>1, <2>1
      <4> QED BY <4>1, <4>2, <3>4, CellsAre
    <3>10. Complete' BY <2>2 DEF Complete
    <3> QED BY <3>3, <3>8, <3>9, <3>10
  <2> QED BY <2>3, <2>4
<1>4. ASSUME NEW t \in Threads, Again(t) PROVE Inv' BY <1>4, Design DEF Again
<1>5. ASSUME NEW t \in Threads, Read(t) PROVE Inv'
  <2> DEFINE c == Top(t)
  <2>1. stack[t] # <<>> /\ c \in Cells /\ cell[c].st = "ready" BY <1>5 DEF Read, Top, Types
  <2>2. cell[c].filled = Size BY <2>1 DEF CellOk
  <2>3. seen' = seen \cup {<<c, cell[c].filled>>} /\ stack' = [stack EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<cell, todo, plan>> BY <1>5 DEF Read
  <2>4. Complete' BY <2>2, <2>3 DEF Complete
  <2>5. Tail(stack[t]) \in Seq(Cells) BY <2>1 DEF Types
  <2>6. Types' BY <2>3, <2>5 DEF Types
  <2> QED BY <2>3, <2>4, <2>6 DEF CellOk, MapAfterList
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

\* readers only ever see complete tables; tables are built once; a map never before its list
THEOREM FirstUse == Spec => [](Complete /\ OnceBuilt /\ MapAfterList)
<1>1. Inv => Complete /\ OnceBuilt /\ MapAfterList BY DEF Inv, OnceBuilt, CellOk, Size
<1>2. Spec => []Inv BY Starts, Keeps, PTL DEF Spec
<1> QED BY <1>1, <1>2, PTL
=============================================================================

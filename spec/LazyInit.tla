------------------------------ MODULE LazyInit ------------------------------
(* The word tables are built on first use: per language a list, and a map    *)
(* that is built from the list.  Any number of threads may be the first, at  *)
(* once.  Each cell is a once-cell: one thread builds while the others wait, *)
(* then everybody reads the same complete table.                             *)
(* A table is built entry by entry, so that half-built ones can be seen.     *)
(* Variant "ok" is the design; the others are broken ones that the           *)
(* properties have to refuse: "racy" (the table is published before it is    *)
(* complete), "twice" (two threads may both build, and the entries double),  *)
(* "cross" (the map of one language first waits for that of the other).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, PerThread, Variant
LangsL == {"en", "zh"}
Cells == LangsL \X {"list", "map"}
Size == 2
VARIABLES cell,     \* cell -> [st: "empty" / "building" / "ready", by, filled]
          todo,     \* thread -> calls still to make: sequence of cells it needs
          stack,    \* thread -> cells it is inside of, innermost first
          seen,     \* what readers saw: set of <<cell, filled>>
          plan      \* what was asked for (never changes)
vars == <<cell, todo, stack, seen, plan>>
Other(l) == IF l = "en" THEN "zh" ELSE "en"
Plans == UNION {[1..k -> Cells] : k \in 1..PerThread}
Init == /\ cell = [c \in Cells |-> [st |-> "empty", by |-> 0, filled |-> 0]]
        /\ plan \in [Threads -> Plans]
        /\ todo = plan /\ stack = [t \in Threads |-> <<>>] /\ seen = {}
Top(t) == stack[t][1]
\* what has to be read before this cell can be built
Needs(c) == IF c[2] = "list" THEN {} ELSE {<<c[1], "list">>} \cup (IF Variant = "cross" THEN {<<Other(c[1]), "map">>} ELSE {})
Missing(t, c) == {n \in Needs(c) : cell[n].st # "ready"}
Start(t) == /\ stack[t] = <<>> /\ todo[t] # <<>>
            /\ stack' = [stack EXCEPT ![t] = <<todo[t][1]>>] /\ todo' = [todo EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<cell, seen, plan>>
\* begin to build: only if nobody is (unless the variant lets two in)
Enter(t) == /\ stack[t] # <<>> /\ LET c == Top(t) IN
                     /\ cell[c].st = "empty" \/ (Variant = "twice" /\ cell[c].st = "building" /\ cell[c].by # t /\ cell[c].filled = 0)
                     /\ cell' = [cell EXCEPT ![c] = [@ EXCEPT !.st = "building", !.by = t]]
                     /\ UNCHANGED <<todo, stack, seen, plan>>
\* while building: first get what is needed, then fill entry by entry, then publish
Build(t) == /\ stack[t] # <<>> /\ LET c == Top(t) IN
                  /\ cell[c].st = "building" /\ (cell[c].by = t \/ Variant = "twice")
                  /\ IF Missing(t, c) # {} THEN /\ stack' = [stack EXCEPT ![t] = <<CHOOSE n \in Missing(t, c) : TRUE>> \o @] /\ UNCHANGED cell
                     ELSE /\ UNCHANGED stack
                          /\ cell' = [cell EXCEPT ![c] = IF @.filled < Size THEN [@ EXCEPT !.filled = @ + 1, !.st = IF Variant = "racy" THEN "ready" ELSE "building"]
                                                         ELSE [@ EXCEPT !.st = "ready"]]
                  /\ UNCHANGED <<todo, seen, plan>>
\* with "twice" a late builder adds entries to a table that is already complete
Again(t) == /\ Variant = "twice" /\ stack[t] # <<>> /\ LET c == Top(t) IN
                  /\ cell[c].st = "ready" /\ cell[c].by = t /\ cell[c].filled = Size /\ \E u \in Threads : u # t /\ \E i \in 1..Len(plan[u]) : plan[u][i] = c
                  /\ cell' = [cell EXCEPT ![c].filled = @ + 1] /\ UNCHANGED <<todo, stack, seen, plan>>
Read(t) == /\ stack[t] # <<>> /\ LET c == Top(t) IN
                 /\ cell[c].st = "ready"
                 /\ seen' = seen \cup {<<c, cell[c].filled>>}
                 /\ stack' = [stack EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<cell, todo, plan>>
Done == \A t \in Threads : stack[t] = <<>> /\ todo[t] = <<>>
Next == (\E t \in Threads : Start(t) \/ Enter(t) \/ Build(t) \/ Again(t) \/ Read(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Start(t) \/ Enter(t) \/ Build(t) \/ Read(t))
\* readers only ever see complete tables (deadlock checking is on: nobody waits forever)
Complete == \A x \in seen : x[2] = Size
OnceBuilt == \A c \in Cells : cell[c].filled <= Size
MapAfterList == \A l \in LangsL : cell[<<l, "map">>].filled > 0 => cell[<<l, "list">>].st = "ready"
Terminates == <>Done
\* the plans themselves, for replay as cold starts of real processes
OnlyPlans == PrintT("BEHAVIOUR " \o ToJson(plan)) /\ FALSE
=============================================================================

-------------------------------- MODULE Draws --------------------------------
(* Where entropy comes from.  Processes (which may be started from a common  *)
(* image) and their threads ask for n units of entropy; a unit that the      *)
(* system's source hands out is handed out once only.  A call may take       *)
(* several steps, in between which others run.  Drawn entropies must be      *)
(* fresh: right size, and no unit in two of them or twice in one.            *)
(* Design "os": every call reads all its units from the source.  The broken  *)
(* designs that must be refused: "forked" (a process-wide generator seeded   *)
(* from the image), "shared" (an unsynchronised process-wide buffer), "pad"  *)
(* (a fixed amount is read and repeated to the size), "memo" (the first      *)
(* result is kept).                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Threads, Sizes, MaxDraws, Design
Agents == Procs \X Threads
VARIABLES source,   \* number of the next unit
          gen,      \* process -> position of its own generator / buffer
          pc,       \* agent -> "idle" or [want, got, at]
          draws     \* set of [by, nr, units]
vars == <<source, gen, pc, draws>>
Idle == [want |-> 0, got |-> <<>>, at |-> -1]
Init == source = 1 /\ gen = [p \in Procs |-> 0] /\ pc = [a \in Agents |-> Idle] /\ draws = {}
Start(a) == \E n \in Sizes : /\ pc[a] = Idle /\ Cardinality(draws) + Cardinality({b \in Agents : pc[b] # Idle}) < MaxDraws
                             /\ pc' = [pc EXCEPT ![a] = [want |-> n, got |-> <<>>, at |-> IF Design = "shared" THEN gen[a[1]] ELSE -1]]
                             /\ UNCHANGED <<source, gen, draws>>
Take1(a) == LET c == pc[a] IN
  /\ c.want > Len(c.got)
  /\ CASE Design = "os" -> /\ pc' = [pc EXCEPT ![a].got = Append(@, source)] /\ source' = source + 1 /\ UNCHANGED gen
       [] Design = "forked" -> /\ pc' = [pc EXCEPT ![a].got = Append(@, 1000 + gen[a[1]])] /\ gen' = [gen EXCEPT ![a[1]] = @ + 1] /\ UNCHANGED source
       [] Design = "shared" -> /\ pc' = [pc EXCEPT ![a].got = Append(@, 1000 * a[1] + c.at), ![a].at = @ + 1] /\ gen' = [gen EXCEPT ![a[1]] = c.at + 1] /\ UNCHANGED source
       [] Design = "pad" -> IF c.got = <<>> THEN /\ pc' = [pc EXCEPT ![a].got = <<source>>] /\ source' = source + 1 /\ UNCHANGED gen
                            ELSE /\ pc' = [pc EXCEPT ![a].got = Append(@, @[1])] /\ UNCHANGED <<source, gen>>
       [] Design = "memo" -> /\ pc' = [pc EXCEPT ![a].got = Append(@, 1000 * a[1] + Len(@))] /\ UNCHANGED <<source, gen>>
  /\ UNCHANGED draws
Finish(a) == LET c == pc[a] IN
  /\ c # Idle /\ Len(c.got) = c.want
  /\ draws' = draws \cup {[nr |-> Cardinality(draws), want |-> c.want, units |-> c.got]}
  /\ pc' = [pc EXCEPT ![a] = Idle] /\ UNCHANGED <<source, gen>>
Next == \E a \in Agents : Start(a) \/ Take1(a) \/ Finish(a)
Spec == Init /\ [][Next]_vars
UnitsOf(d) == {d.units[i] : i \in 1..Len(d.units)}
Fresh == \A d \in draws : /\ Cardinality(UnitsOf(d)) = d.want
                          /\ \A e \in draws : e # d => UnitsOf(d) \cap UnitsOf(e) = {}
=============================================================================

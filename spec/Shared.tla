------------------------------- MODULE Shared -------------------------------
(* Threads that make calls over and over while the implementation shares     *)
(* something between them.  Designs: "none" (nothing is shared), "locked" (a *)
(* remembered pair of call and answer that is read and written as one).      *)
(* Designs that must be refused: "torn" (the call is noted first, its answer *)
(* afterwards), "checkuse" (the pair is written as one, but looked at twice),*)
(* "scratch" (answers are prepared in a shared place), "wraps" (every        *)
(* Wrap-th call of the process is answered from elsewhere).                  *)
(* Two threads and two calls show all of them: what kmsh replays as "hammer" *)
(* (many rounds of a few similar calls on all cores) and, for "wraps", as    *)
(* "soak" (one call more often than any small counter can hold).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls, Rounds, Wrap, Design
VARIABLES pair,   \* what is remembered: [of, ans] (0: nothing)
          place,  \* the shared scratch
          n,      \* calls made in the process
          th      \* thread -> [left, st, call, ans]
vars == <<pair, place, n, th>>
F(c) == 10 * c
Init == pair = [of |-> 0, ans |-> 0] /\ place = 0 /\ n = 0 /\ th = [t \in Threads |-> [left |-> Rounds, st |-> "idle", call |-> 0, ans |-> 0]]
Goto(t, s) == th' = [th EXCEPT ![t].st = s]
Answer(t, a) == th' = [th EXCEPT ![t].st = "done", ![t].ans = a]
Call(t) == /\ th[t].st = "idle" /\ th[t].left > 0
           /\ \E c \in Calls : th' = [th EXCEPT ![t] = [left |-> @.left - 1, st |-> "look", call |-> c, ans |-> 0]]
           /\ n' = n + 1 /\ UNCHANGED <<pair, place>>
Look(t) == /\ th[t].st = "look" /\ UNCHANGED <<pair, place, n>>
           /\ LET c == th[t].call IN
              CASE Design = "none" -> Answer(t, F(c))
                [] Design = "wraps" -> Answer(t, IF n % Wrap = 0 THEN 0 ELSE F(c))
                [] Design = "locked" -> IF pair.of = c THEN Answer(t, pair.ans) ELSE Goto(t, "put")
                [] Design \in {"torn", "checkuse"} -> IF pair.of = c THEN Goto(t, "use") ELSE Goto(t, "put")
                [] Design = "scratch" -> Goto(t, "put")
Use(t) == th[t].st = "use" /\ Answer(t, pair.ans) /\ UNCHANGED <<pair, place, n>>
Put(t) == /\ th[t].st = "put" /\ UNCHANGED n
          /\ LET c == th[t].call IN
             CASE Design \in {"locked", "checkuse"} -> pair' = [of |-> c, ans |-> F(c)] /\ Answer(t, F(c)) /\ UNCHANGED place
               [] Design = "torn" -> pair' = [pair EXCEPT !.of = c] /\ Goto(t, "put2") /\ UNCHANGED place
               [] Design = "scratch" -> place' = F(c) /\ Goto(t, "put2") /\ UNCHANGED pair
Put2(t) == /\ th[t].st = "put2" /\ UNCHANGED n
           /\ IF Design = "torn" THEN pair' = [pair EXCEPT !.ans = F(th[t].call)] /\ Answer(t, F(th[t].call)) /\ UNCHANGED place
              ELSE Answer(t, place) /\ UNCHANGED <<pair, place>>
Return(t) == th[t].st = "done" /\ Goto(t, "idle") /\ UNCHANGED <<pair, place, n>>
Next == \E t \in Threads : Call(t) \/ Look(t) \/ Use(t) \/ Put(t) \/ Put2(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Pure == \A t \in Threads : th[t].st = "done" => th[t].ans = F(th[t].call)
=============================================================================

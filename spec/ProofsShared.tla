---------------------------- MODULE ProofsShared ----------------------------
(* A pair that is read and written as one answers rightly for any threads,   *)
(* calls and rounds.                                                         *)
EXTENDS Shared, TLAPS
ASSUME Locked == Design = "locked" /\ Calls \subseteq Nat \ {0} /\ Rounds \in Nat
Types == /\ pair \in [of : Nat, ans : Nat]
         /\ th \in [Threads -> [left : Int, st : {"idle", "look", "use", "put", "put2", "done"}, call : Nat, ans : Nat]]
Inv == /\ Types /\ (pair.of # 0 => pair.ans = F(pair.of))
       /\ \A t \in Threads : th[t].st # "idle" => th[t].call \in Calls
       /\ \A t \in Threads : th[t].st \in {"idle", "look", "put", "done"}
       /\ Pure
LEMMA Starts == Init => Inv BY Locked DEF Init, Inv, Types, Pure
LEMMA Keeps == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE Locked DEF Inv, Types, Pure, Goto, Answer, F
<1>0. CASE UNCHANGED vars BY <1>0 DEF vars
<1>1. ASSUME NEW t \in Threads, Call(t) PROVE Inv' BY <1>1 DEF Call
<1>2. ASSUME NEW t \in Threads, Look(t) PROVE Inv' BY <1>2 DEF Look
<1>3. ASSUME NEW t \in Threads, Use(t) PROVE Inv' BY <1>3 DEF Use
<1>4. ASSUME NEW t \in Threads, Put(t) PROVE Inv' BY <1>4 DEF Put
<1>5. ASSUME NEW t \in Threads, Put2(t) PROVE Inv' BY <1>5 DEF Put2
<1>6. ASSUME NEW t \in Threads, Return(t) PROVE Inv' BY <1>6 DEF Return
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next
THEOREM AlwaysPure == Spec => []Pure
<1>1. Spec => []Inv BY Starts, Keeps, PTL DEF Spec
<1> QED BY <1>1, PTL DEF Inv
=============================================================================

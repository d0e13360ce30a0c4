------------------------------ MODULE Lifecycle ------------------------------
(* The life of objects that hold secrets: each owns buffers; the content of  *)
(* a buffer is a secret or zeros; the memory of a buffer is held, released   *)
(* or handed over to the caller.  Making, cloning, dropping (here, on        *)
(* another thread, or while unwinding) and handing over the phrase of a      *)
(* mnemonic are the operations.  Dropping is two steps, wipe then release,   *)
(* with other threads' steps possible in between.                            *)
(* Whether clones share a buffer is the implementation's choice (Sharing);   *)
(* a shared buffer is wiped by its last owner.                               *)
(* WipeRule: "last" is the design; "any" (wipe on the first drop), "none"    *)
(* (release without wiping) and "first" (wipe only the first buffer) are     *)
(* broken variants that the invariants have to refuse.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObjs, MaxSteps, Kinds, Sharing, WipeRule

NBufs(kind) == IF kind = "mn" THEN 2 ELSE 1
VARIABLES obj,      \* handle -> [kind, bufs: sequence of buffer ids, state: "live" / "dying" / "moved" / "gone"]
          buf,      \* sequence of [data: "secret"/"zero", mem: "held"/"released"/"given"]
          hist
vars == <<obj, buf, hist>>
Live(h) == obj[h].state = "live"
Handles == 1..Len(obj)
Owners(i) == {h \in Handles : obj[h].state \in {"live", "dying", "moved"} /\ \E k \in 1..Len(obj[h].bufs) : obj[h].bufs[k] = i}
\* those that still count on the content (a dying object has given up its claim)
Claims(i) == {h \in Owners(i) : obj[h].state # "dying"}
Did(s) == hist' = Append(hist, s)
Busy == \E h \in Handles : obj[h].state = "dying"

Init == obj = <<>> /\ buf = <<>> /\ hist = <<>>
Fresh(n) == [k \in 1..n |-> Len(buf) + k]
NewBufs(n) == [k \in 1..n |-> [data |-> "secret", mem |-> "held"]]
Make(kind) == /\ Len(obj) < MaxObjs
              /\ obj' = Append(obj, [kind |-> kind, bufs |-> Fresh(NBufs(kind)), state |-> "live"])
              /\ buf' = buf \o NewBufs(NBufs(kind))
              /\ Did([op |-> "make", h |-> Len(obj) + 1, kind |-> kind])
Clone(h) == /\ Live(h) /\ Len(obj) < MaxObjs
            /\ \/ /\ obj' = Append(obj, [obj[h] EXCEPT !.bufs = Fresh(Len(obj[h].bufs))])
                  /\ buf' = buf \o NewBufs(Len(obj[h].bufs))
               \/ /\ Sharing
                  /\ obj' = Append(obj, obj[h]) /\ buf' = buf
            /\ Did([op |-> "clone", h |-> h, out |-> Len(obj) + 1])
\* what a drop wipes
ToWipe(h) == LET all == {obj[h].bufs[k] : k \in 1..Len(obj[h].bufs)} IN
  CASE WipeRule = "last" -> {i \in all : Claims(i) = {h}}
    [] WipeRule = "any" -> all
    [] WipeRule = "none" -> {}
    [] WipeRule = "first" -> {obj[h].bufs[1]} \cap {i \in all : Claims(i) = {h}}
BeginDrop(h, how) == /\ Live(h)
                     /\ buf' = [i \in 1..Len(buf) |-> IF i \in ToWipe(h) THEN [buf[i] EXCEPT !.data = "zero"] ELSE buf[i]]
                     /\ obj' = [obj EXCEPT ![h].state = "dying"]
                     /\ Did([op |-> how, h |-> h])
EndDrop(h) == /\ obj[h].state = "dying"
              /\ LET mine == {obj[h].bufs[k] : k \in 1..Len(obj[h].bufs)} IN
                 buf' = [i \in 1..Len(buf) |-> IF i \in mine /\ Owners(i) = {h} THEN [buf[i] EXCEPT !.mem = "released"] ELSE buf[i]]
              /\ obj' = [obj EXCEPT ![h].state = "gone"] /\ UNCHANGED hist
\* the phrase (buffer 1) is handed over - as it is, or copied and wiped -, the rest wiped and released
HandOver(h) == /\ Live(h) /\ obj[h].kind = "mn"
               /\ \E sharedCopy \in {TRUE, FALSE} :
                  LET p == obj[h].bufs[1]  e == obj[h].bufs[2]
                      mine == {i \in {p, e} : Claims(i) = {h}}
                      keep == IF sharedCopy THEN {} ELSE {p}
                  IN /\ sharedCopy \/ Owners(p) = {h}
                     /\ buf' = [i \in 1..Len(buf) |-> IF i \in mine \cap keep THEN [buf[i] EXCEPT !.mem = "given"]
                                                      ELSE IF i \in mine THEN [data |-> IF WipeRule \in {"none"} \/ (WipeRule = "first" /\ i = e) THEN "secret" ELSE "zero", mem |-> IF Owners(i) = {h} THEN "released" ELSE "held"]
                                                      ELSE buf[i]]
               /\ obj' = [obj EXCEPT ![h].state = "gone"]
               /\ Did([op |-> "into", h |-> h])
\* unwinding drops a prefix of the live objects, one after the other
Unwind == /\ ~Busy
          /\ \E S \in SUBSET {h \in Handles : Live(h)} :
               /\ S # {} /\ Cardinality(S) <= 2
               /\ buf' = [i \in 1..Len(buf) |-> IF Owners(i) # {} /\ Owners(i) \subseteq S THEN [data |-> IF WipeRule \in {"last", "any"} THEN "zero" ELSE "secret", mem |-> "released"]
                                                ELSE IF WipeRule = "any" /\ Owners(i) \cap S # {} THEN [buf[i] EXCEPT !.data = "zero"] ELSE buf[i]]
               /\ obj' = [h \in Handles |-> IF h \in S THEN [obj[h] EXCEPT !.state = "gone"] ELSE obj[h]]
               /\ Did([op |-> "unwind", hs |-> S])
Next == \/ Len(hist) < MaxSteps /\ (\/ \E k \in Kinds : Make(k)
                                   \/ \E h \in Handles : Clone(h) \/ BeginDrop(h, "drop") \/ BeginDrop(h, "dropthread") \/ HandOver(h)
                                   \/ Unwind)
        \/ \E h \in Handles : EndDrop(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E h \in Handles : EndDrop(h))

\* nothing is released while it still holds a secret
NoDirtyRelease == \A i \in 1..Len(buf) : buf[i].mem = "released" => buf[i].data = "zero"
\* what lives is intact
LivingIntact == \A h \in Handles : Live(h) => \A k \in 1..Len(obj[h].bufs) : buf[obj[h].bufs[k]] = [data |-> "secret", mem |-> "held"]
\* what was handed over is intact, and belongs to nobody here
GivenIntact == \A i \in 1..Len(buf) : buf[i].mem = "given" => buf[i].data = "secret" /\ Owners(i) = {}
\* no leak: a buffer without owners has been released or handed over
NoLeak == \A i \in 1..Len(buf) : Owners(i) = {} => buf[i].mem # "held"
DropsEnd == \A h \in 1..MaxObjs : (h \in DOMAIN obj /\ obj[h].state = "dying") ~> (obj[h].state = "gone")
View == <<obj, buf, Len(hist)>>
Quiet == \A h \in Handles : obj[h].state # "dying"
Emit == hist' # hist => PrintT("BEHAVIOUR " \o ToJson(hist'))
\* generation only: drops complete before anything else happens
Sequential == \A h \in Handles : obj[h].state = "dying" => hist' = hist
EmitSeq == Sequential /\ (hist' # hist => PrintT("BEHAVIOUR " \o ToJson(hist')))
=============================================================================

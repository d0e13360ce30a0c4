-------------------------------- MODULE Paths --------------------------------
(* Derivation paths as objects with a life: made empty or from text, cloned, *)
(* overwritten, shortened to their parent, extended step by step, viewed and *)
(* used up.  Design says how an implementation stores them:                  *)
(*   "own"     every path has a list of its own                              *)
(*   "shared"  a clone refers to the list of its original                    *)
(*   "parent"  the parent is a view of the child's list                      *)
(*   "cached"  the text is kept from the first time it was asked for         *)
(* want is what the user put in; only "own" always shows exactly that.       *)
(* The histories of "own" are replayed on the real code.                     *)
EXTENDS KMS, TLC, Json
CONSTANTS MaxPaths, MaxLive, MaxSteps, MaxSeq, Design
VARIABLES list,     \* cells: the lists of child numbers
          at,       \* which cell and how much of it a path refers to
          memo,     \* <<>>, or <<text kept for a path>>
          want,     \* what the user put in
          gone,     \* paths used up
          hist
Skip1(x) == x
Skip2(x, y) == x
None1 == <<>>
pvars == <<list, at, memo, want, gone, hist>>
C == {<<0, 0, 0, 0>>, <<128, 0, 0, 7>>}
Texts == {<<109>>, <<109, 47, 55, 39>>}                                \* m and m/7'
WHOLE == 1000
Live == 1..Len(want) \ gone
See(h) == LET l == list[at[h].cell] IN IF at[h].upto < Len(l) THEN Take(l, at[h].upto) ELSE l
Did(s) == hist' = Append(hist, s)

PInit == list = <<>> /\ at = <<>> /\ memo = <<>> /\ want = <<>> /\ gone = {} /\ hist = <<>>
\* a new path with a cell of its own
Make(v, s) == /\ Len(want) < MaxPaths /\ Cardinality(Live) < MaxLive
              /\ list' = Append(list, v) /\ at' = Append(at, [cell |-> Len(list) + 1, upto |-> WHOLE])
              /\ memo' = Append(memo, <<>>) /\ want' = Append(want, v) /\ Did(s @@ [out |-> Len(want) + 1]) /\ UNCHANGED gone
\* a new path that refers to the cell of another
Refer(h, v, upto, s) == /\ Len(want) < MaxPaths /\ Cardinality(Live) < MaxLive
                        /\ at' = Append(at, [cell |-> at[h].cell, upto |-> upto])
                        /\ memo' = Append(memo, <<>>) /\ want' = Append(want, v) /\ Did(s @@ [out |-> Len(want) + 1]) /\ UNCHANGED <<list, gone>>
New == Make(<<>>, [op |-> "p.new"])
Parse(t) == Make(Val(ParsePath(t)), [op |-> "p.parse", text |-> t])
Clone(h) == LET s == [op |-> "p.clone", h |-> h] IN
            IF Design = "shared" THEN Refer(h, want[h], at[h].upto, s) ELSE Make(want[h], s)
Parent(h) == LET s == [op |-> "p.parent", h |-> h] IN
  IF want[h] = <<>> THEN Did(s) /\ UNCHANGED <<list, at, memo, want, gone>>
  ELSE IF Design = "parent" THEN Refer(h, ParentPath(want[h]), Len(want[h]) - 1, s) ELSE Make(ParentPath(want[h]), s)
Change(h, v, s) == /\ Len(v) <= MaxSeq
                   /\ list' = [list EXCEPT ![at[h].cell] = See(h) \o Drop(v, Len(want[h]))]
                   /\ at' = [at EXCEPT ![h].upto = WHOLE]
                   /\ want' = [want EXCEPT ![h] = v] /\ Did(s) /\ UNCHANGED <<memo, gone>>
Push(h, c) == Change(h, Append(want[h], c), [op |-> "p.push", h |-> h, cn |-> c])
Extend(h, c) == Change(h, want[h] \o <<c, c>>, [op |-> "p.extend", h |-> h, cns |-> <<c, c>>])
ExtendBy(h, g) == h # g /\ want[g] # <<>> /\ Change(h, want[h] \o want[g], [op |-> "p.extend", h |-> h, from |-> g])
CloneFrom(h, g) == /\ h # g /\ list' = [list EXCEPT ![at[h].cell] = want[g]] /\ at' = [at EXCEPT ![h].upto = WHOLE]
                   /\ want' = [want EXCEPT ![h] = want[g]] /\ Did([op |-> "p.clonefrom", h |-> h, from |-> g]) /\ memo' = [memo EXCEPT ![h] = <<>>] /\ UNCHANGED gone
View(h) == /\ memo[h] = <<>> /\ memo' = [memo EXCEPT ![h] = <<ShowPath(See(h))>>]
           /\ Did([op |-> "p.view", h |-> h]) /\ UNCHANGED <<list, at, want, gone>>
Use(h) == gone' = gone \cup {h} /\ Did([op |-> "p.into", h |-> h]) /\ UNCHANGED <<list, at, memo, want>>
PNext == /\ Len(hist) < MaxSteps
         /\ \/ New \/ \E t \in Texts : Parse(t)
            \/ \E h \in Live : \/ Clone(h) \/ Parent(h) \/ View(h) \/ Use(h)
                               \/ \E c \in C : Push(h, c) \/ Extend(h, c)
                               \/ \E g \in Live : ExtendBy(h, g) \/ CloneFrom(h, g)
PSpec == PInit /\ [][PNext]_pvars

Shown(h) == IF Design = "cached" /\ memo[h] # <<>> THEN memo[h][1] ELSE ShowPath(See(h))
Faithful == \A h \in Live : See(h) = want[h] /\ Shown(h) = ShowPath(want[h]) /\ ParsePath(Shown(h)) = {Ok(want[h])}
\* a step changes at most the path it names
OneAtATime == [][\A h \in Live : want'[h] # want[h] => Last1(hist').h = h]_pvars
\* the parent is the path without its last step
Parents == \A h \in Live : \A c \in C : ParentPath(Append(want[h], c)) = want[h]
PView == <<list, at, memo, want, gone, Len(hist)>>
Emit == PrintT("BEHAVIOUR " \o ToJson(hist'))
=============================================================================

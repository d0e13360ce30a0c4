------------------------------- MODULE MCText -------------------------------
(* The text form of child numbers and paths: every string over an alphabet   *)
(* of the characters that matter, and every number around the limits, in     *)
(* every spelling.  The grammar is stated a second time here, as an          *)
(* automaton, and both statements must agree.                                *)
EXTENDS KMS, TLC, Json
CONSTANTS MaxLen, Mode      \* "strings" or "numbers" or "paths"
Skip1(x) == x
Skip2(x, y) == x
None1 == <<>>

Alphabet == {109, 47, 48, 49, 57, 39, 43}           \* m / 0 1 9 ' +
\* numbers around the limits, written out (the numbers themselves exceed TLC's integers)
D(s) == [i \in 1..Len(s) |-> 48 + s[i]]
Max31 == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
Limits == {<<0>>, <<1>>, <<9>>, <<1, 0>>, <<9, 9, 9>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, Max31,
           <<2, 1, 4, 7, 4, 8, 3, 6, 4, 6>>, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>, <<2, 1, 4, 7, 4, 8, 3, 6, 5, 0>>, <<2, 1, 4, 7, 4, 8, 4, 0, 0, 0>>, <<2, 2, 0, 0, 0, 0, 0, 0, 0, 0>>,
           <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 7>>, <<4, 2, 9, 4, 9, 6, 7, 3, 4, 0>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>,
           <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7, 0>>, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>,
           <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 2, 1>>}
InLimit(d) == Len(d) < 10 \/ (Len(d) = 10 /\ \E k \in 0..10 : (\A i \in 1..k : d[i] = Max31[i]) /\ (k = 10 \/ d[k + 1] < Max31[k + 1]))
Spellings(d) == {[i \in 1..z |-> 48] \o D(d) \o q : z \in 0..3, q \in {<<>>, <<39>>, <<39, 39>>, <<32>>, <<104>>}} \cup {<<c>> \o D(d) : c \in {32, 43, 45, 39}}

VARIABLES t, n
Init == CASE Mode = "strings" -> t = <<>> /\ n = <<>>
          [] Mode = "paths" -> t = <<109>> /\ n = <<>>
          [] OTHER -> \E d \in Limits : n = d /\ t \in Spellings(d)
Sym == CASE Mode = "paths" -> {<<47, 48>>, <<47, 49, 57>>, <<39>>, <<47>>, <<47, 48, 48, 57>>, <<47, 50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<47, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>} [] OTHER -> {<<c>> : c \in Alphabet}
Next == /\ Mode # "numbers" /\ Len(n) < MaxLen
        /\ \E c \in Sym : t' = t \o c /\ n' = Append(n, 0)
Spec == Init /\ [][Next]_<<t, n>>

\* the grammar once more: 0 start, 1 after m, 2 after /, 3 in digits, 4 after ', 5 after +, 9 dead
Step(q, c) == CASE q = 0 /\ c = 109 -> 1
                [] q \in {1, 3, 4} /\ c = 47 -> 2
                [] q \in {2, 3, 5} /\ c \in 48..57 -> 3
                [] q = 2 /\ c = 43 -> 5
                [] q = 3 /\ c = 39 -> 4
                [] OTHER -> 9
Run(s, q0) == FoldLeft(LAMBDA q, c : Step(q, c), q0, s)
Shape(s) == Run(s, 0) \in {1, 3, 4}
Plus(s) == \E i \in 1..Len(s) : s[i] = 43
NoBigNumber(s) == \A k \in 1..Len(SplitAt(s, 47)) : LET w == SplitAt(s, 47)[k] IN Len(w) < 10 \/ Mode = "paths"

Strings ==
  LET r == ParsePath(t) IN
  /\ (IsOk(r) /\ Mode = "strings") = (Shape(t) /\ Mode = "strings")
  /\ (IsOk(r) /\ ~Plus(t)) => r = {Ok(Val(r))}
  /\ IsOk(r) =>
       LET p == Val(r)  c == ShowPath(p) IN
       /\ ParsePath(c) = {Ok(p)} /\ ShowPath(Val(ParsePath(c))) = c
       /\ Len(p) = Cardinality({i \in 1..Len(t) : t[i] = 47})
       /\ p # <<>> => LET cut == CHOOSE i \in 1..Len(c) : c[i] = 47 /\ \A j \in (i + 1)..Len(c) : c[j] # 47
                      IN ParsePath(Take(c, cut - 1)) = {Ok(ParentPath(p))} /\ ParseCn(Drop(c, cut)) = {Ok(Last1(p))}
       /\ \A k \in 1..Len(p) : Hardened(p[k]) = (Last1(SplitAt(t, 47)[k + 1]) = 39)
  /\ IsOk(ParseCn(t)) = (Run(t, 2) \in {3, 4} /\ ~(\E i \in 1..Len(t) : t[i] = 47)) \/ Mode = "paths"
Numbers ==
  LET r == ParseCn(t)
      body == StripZeros(SelectSeq(t, LAMBDA c : c \in 48..57))
      plain == t # <<>> /\ (\A i \in 1..(Len(t) - 1) : t[i] \in 48..57) /\ Last1(t) \in (48..57) \cup {39} /\ Len(t) > (IF Last1(t) = 39 THEN 1 ELSE 0)
  IN /\ (IsOk(r) /\ t[1] # 43) = (plain /\ InLimit(n))
     /\ IsOk(r) => LET c == Val(r) IN ShowCn(c) = body \o (IF Last1(t) = 39 THEN <<39>> ELSE <<>>) /\ ParseCn(ShowCn(c)) = {Ok(c)}
     /\ (IsOk(r) /\ Last1(t) = 39) => NewCn([Val(r) EXCEPT ![1] = @ - 128], TRUE) = {Ok(Val(r))} /\ ~IsOk(NewCn(Val(r), TRUE))
Prop == IF Mode = "numbers" THEN Numbers ELSE Strings
Emit == PrintT("BEHAVIOUR " \o ToJson(t))
=============================================================================

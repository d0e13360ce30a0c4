-------------------------------- MODULE Edits --------------------------------
(* A correct phrase is damaged or reformatted, edit by edit.  The phrase is  *)
(* kept as words and separators, from which it follows directly what import  *)
(* has to say; FromPhrase only sees the text.  The edit sequences are also   *)
(* replayed on phrases of the real dictionaries.                             *)
EXTENDS MCBip39, Json
CONSTANT MaxEdits
VARIABLES toks,     \* sequence of [w: 0..7 word of the list, 8 unknown, 9 word of the other list; form: "plain" / "compat"]
          seps,     \* separators: before the first, between, after the last
          start,    \* the entropy
          hist
evars == <<toks, seps, start, hist, x, lang>>
EInit == /\ x = <<>> /\ lang \in BLangs /\ hist = <<>>
         /\ start \in {<<0, 1, 2, 3>>, <<3, 3, 3, 3>>, <<2, 0, 1, 0>>, <<1, 2, 3, 0, 3, 1, 2, 2>>}
         /\ LET idx == WordIndices(start) IN
            /\ toks = [i \in 1..Len(idx) |-> [w |-> idx[i], form |-> "plain"]]
            /\ seps = [i \in 1..(Len(idx) + 1) |-> IF i = 1 \/ i = Len(idx) + 1 THEN "none" ELSE "space"]
Place(where) == IF where = "first" THEN 1 ELSE IF where = "last" THEN Len(toks) ELSE (Len(toks) + 1) \div 2
Where == {"first", "middle", "last"}
Did(op, where, arg) == hist' = Append(hist, [op |-> op, pos |-> where, arg |-> arg])
ReplaceTok(p, a) == /\ toks' = [toks EXCEPT ![Place(p)] = [@ EXCEPT !.w = CASE a = "list" -> (IF @ = 7 THEN 0 ELSE IF @ < 7 THEN @ + 1 ELSE 3) [] a = "unknown" -> 8 [] a = "other" -> 9]]
                 /\ UNCHANGED seps /\ Did("replace", p, a)
Compat(p) == /\ toks' = [toks EXCEPT ![Place(p)].form = "compat"] /\ UNCHANGED seps /\ Did("compat", p, "")
DropTok(p) == /\ Len(toks) > 1
             /\ toks' = SubSeq(toks, 1, Place(p) - 1) \o SubSeq(toks, Place(p) + 1, Len(toks))
             /\ seps' = SubSeq(seps, 1, Place(p) - 1) \o SubSeq(seps, Place(p) + 1, Len(seps)) /\ Did("remove", p, "")
DoubleTok(p) == /\ toks' = SubSeq(toks, 1, Place(p)) \o SubSeq(toks, Place(p), Len(toks))
             /\ seps' = SubSeq(seps, 1, Place(p)) \o <<"space">> \o SubSeq(seps, Place(p) + 1, Len(seps)) /\ Did("double", p, "")
SwapTok(p) == /\ Len(toks) > 1 /\ LET a == Place(p)  b == IF a = Len(toks) THEN 1 ELSE a + 1 IN toks' = [toks EXCEPT ![a] = toks[b], ![b] = toks[a]]
           /\ UNCHANGED seps /\ Did("swap", p, "")
SepKinds == {"none", "space", "two", "tab", "mixed"}
Separate(p, a) == /\ LET q == IF p = "first" THEN 1 ELSE IF p = "last" THEN Len(seps) ELSE (Len(seps) + 1) \div 2 IN seps[q] # a /\ seps' = [seps EXCEPT ![q] = a]
                  /\ UNCHANGED toks /\ Did("separate", p, a)
ENext == /\ Len(hist) < MaxEdits /\ UNCHANGED <<start, x, lang>>
         /\ \E p \in Where : \/ \E a \in {"list", "unknown", "other"} : ReplaceTok(p, a)
                             \/ Compat(p) \/ DropTok(p) \/ DoubleTok(p) \/ SwapTok(p)
                             \/ \E a \in SepKinds : Separate(p, a)
ESpec == EInit /\ [][ENext]_evars

WordText(t) == LET u == CASE t.w = 8 -> <<122>> [] t.w = 9 -> BWords(Other)[2] [] OTHER -> BWords(lang)[t.w + 1]
               IN IF t.form = "compat" THEN [i \in 1..Len(u) |-> IF u[i] = 97 THEN 65 ELSE u[i]] ELSE u
Plain(t) == WordText([t EXCEPT !.form = "plain"])
SepText(s) == CASE s = "none" -> <<>> [] s = "space" -> <<32>> [] s = "two" -> <<32, 32>> [] s = "tab" -> <<9>> [] s = "mixed" -> <<32, 9, 32>>
Text == FoldLeft(LAMBDA a, i : a \o WordText(toks[i]) \o SepText(seps[i + 1]), SepText(seps[1]), [i \in 1..Len(toks) |-> i])
\* the words as a reader sees them: neighbours without separator are one word
RECURSIVE Merge(_, _)
Merge(i, acc) == IF i > Len(toks) THEN acc
                 ELSE IF i > 1 /\ seps[i] = "none" THEN Merge(i + 1, [acc EXCEPT ![Len(acc)] = @ \o Plain(toks[i])])
                 ELSE Merge(i + 1, Append(acc, Plain(toks[i])))
WordsSeen == Merge(1, <<>>)
Idx(w) == BIdx(BWords(lang), w) - 1
EProp ==
  LET ws == WordsSeen  idx == [i \in 1..Len(ws) |-> Idx(ws[i])]  r == FromPhrase(lang, Text)
      known == \A i \in 1..Len(idx) : idx[i] >= 0
      ent == Group(Take(BitsOf(idx, WordBits), EntBits(Len(idx))), ByteBits)
      good == known /\ Len(idx) \in {3, 6} /\ WordIndices(ent) = idx
  IN /\ IsOk(r) = good
     /\ good => r = {Ok(Mn(lang, JoinWith(ws, <<32>>), ent))}
     /\ ~good => r = Errs(When(~known, "InvalidWord") \cup When(Len(idx) \notin {3, 6}, "InvalidWordLength") \cup When(known /\ Len(idx) \in {3, 6}, "InvalidChecksum"))
     \* edits of separators (other than removing one) and of form never matter
     /\ (\A i \in 1..Len(hist) : hist[i].op = "compat" \/ (hist[i].op = "separate" /\ (hist[i].arg # "none"))) => IsOk(r) /\ Val(r).ent = start
EView == <<toks, seps, start, lang, Len(hist)>>
Emit == PrintT("BEHAVIOUR " \o ToJson(hist'))
OneStart == start = <<0, 1, 2, 3>> /\ lang = "en"
EmitOne == OneStart /\ Emit
=============================================================================

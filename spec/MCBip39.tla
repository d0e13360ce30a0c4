------------------------------ MODULE MCBip39 ------------------------------
(* BIP39 exhaustively, on a small scale: "bytes" of 2 bits, words of 3 bits  *)
(* (a dictionary of 8), one checksum bit per 8 bits of entropy; sizes of 4   *)
(* and 8 bytes, hence 3 and 6 words.  Every entropy, every 3-word phrase     *)
(* (and, by size, every 6-word one), and every short string over a small     *)
(* alphabet with two kinds of white space.                                   *)
EXTENDS KMS, TLC, FiniteSetsExt
CONSTANTS Mode,       \* "entropy", "phrase", "string"
          MaxLen

\* one word is a prefix of another, one is in both dictionaries' alphabet only
EnWords == << <<97>>, <<98>>, <<97, 98>>, <<98, 97>>, <<97, 97>>, <<98, 98>>, <<97, 97, 98>>, <<98, 97, 98>> >>
ZhWords == << <<99>>, <<100>>, <<99, 100>>, <<100, 99>>, <<99, 99>>, <<100, 100>>, <<99, 99, 100>>, <<97, 99>> >>
BWords(l) == IF l = "en" THEN EnWords ELSE ZhWords
BLangs == {"en", "zh"}
BEntLens == {4, 8}
Bits2(n) == <<n \div 2, n % 2>>
\* a hash whose leading bits depend on every bit of the entropy
BSha(e) == LET s == FoldLeft(LAMBDA a, i : (a + (e[i] + 1) * (i * i + 1)) % 64, 0, [i \in 1..Len(e) |-> i])
           IN <<(s \div 5) % 4, s % 4, s % 3, (s \div 16) % 4>>
\* upper case letters and a composed letter are compatibility forms of lower case ones
BNfkd(u) == FoldLeft(LAMBDA a, c : a \o (CASE c = 65 -> <<97>> [] c = 66 -> <<97, 98>> [] OTHER -> <<c>>), <<>>, u)
BSame(u) == u
BPbkdf(p, q) == p \o <<0>> \o q
BGb(u) == [i \in 1..Len(u) |-> u[i] + 100]
BIdx(s, w) == IF \E i \in 1..Len(s) : s[i] = w THEN CHOOSE i \in 1..Len(s) : s[i] = w /\ \A j \in 1..(i - 1) : s[j] # w ELSE 0
Skip1(x) == x
Skip2(x, y) == x
No == {}
None1 == <<>>

Tuples(S, n) == [1..n -> S]
\* words are grown symbol by symbol, so that every word over the alphabet is a state
Alphabet == CASE Mode = "entropy" -> 0..3 [] Mode = "phrase" -> 0..8 [] OTHER -> {97, 98, 32, 9, 65, 66}
VARIABLES x, lang
Init == x = <<>> /\ lang \in (IF Mode = "string" THEN {"en"} ELSE BLangs)
Next == Len(x) < MaxLen /\ (\E a \in Alphabet : x' = Append(x, a)) /\ lang' = lang
Spec == Init /\ [][Next]_<<x, lang>>

\* token 0..7 is a word, 8 an unknown word
TokenText(t) == IF t = 8 THEN <<122>> ELSE BWords(lang)[t + 1]
PhraseText(ts) == JoinWith([i \in 1..Len(ts) |-> TokenText(ts[i])], <<32>>)
Other == IF lang = "en" THEN "zh" ELSE "en"

\* C01: every entropy has a phrase, which leads back to it and only to it
EntropyOk ==
  LET r == FromEntropy(lang, x)  m == Val(r)  idx == WordIndices(x) IN
  /\ IsOk(r) /\ m.ent = x /\ m.lang = lang
  /\ Len(idx) = WordsOf(EntBitsOf(Len(x))) /\ \A i \in 1..Len(idx) : idx[i] \in 0..7
  /\ Take(BitsOf(idx, WordBits), EntBitsOf(Len(x))) = BitsOf(x, ByteBits)
  /\ FromPhrase(lang, m.phrase) = {Ok(m)}
  /\ ValidatePhrase(lang, m.phrase) = {Ok(Unit)}
  /\ ~IsOk(FromPhrase(Other, m.phrase))
  /\ FromPhrase(lang, <<9>> \o m.phrase \o <<32, 32>>) = {Ok(m)}
  /\ TypeForBits(EntBitsOf(Len(x))) = TypeForWords(Len(idx))
  /\ TypeForPhrase(m.phrase) = TypeForWords(Len(idx))
\* replacing one word is noticed exactly when the checksum differs
OneWord == Len(x) = 4 =>
  LET m == Val(FromEntropy(lang, x))  idx == WordIndices(x) IN
  \A k \in 1..Len(idx) : \A w \in 0..8 :
    LET y == [idx EXCEPT ![k] = w]  r == FromPhrase(lang, PhraseText(y)) IN
    IF w = idx[k] THEN r = {Ok(m)}
    ELSE IF w = 8 THEN r = Errs({"InvalidWord"})
    ELSE IF IsOk(r) THEN WordIndices(Val(r).ent) = y /\ Val(r).ent # x
    ELSE r = Errs({"InvalidChecksum"})
EntropyErr == FromEntropy(lang, x) = Errs({"InvalidKeysize"})

\* C02: a phrase is accepted exactly when it is the phrase of some entropy
Image(n) == {WordIndices(e) : e \in Tuples(0..3, n)}
Images == [n \in BEntLens |-> IF Mode = "phrase" /\ WordsOf(EntBitsOf(n)) <= MaxLen THEN Image(n) ELSE {}]
\* (the empty phrase is one empty word)
PhraseOk ==
  LET r == FromPhrase(lang, PhraseText(x))
      good == (Len(x) = 3 /\ x \in Images[4]) \/ (Len(x) = 6 /\ x \in Images[8])
  IN /\ IsOk(r) = good
     /\ good => FromEntropy(lang, Val(r).ent) = r /\ Val(r).phrase = PhraseText(x)
     /\ ValidatePhrase(lang, PhraseText(x)) \subseteq (IF good THEN {Ok(Unit)} ELSE AnyBip39Err)
     /\ ~good => (Err("InvalidWord") \in r) = (x = <<>> \/ \E i \in 1..Len(x) : x[i] = 8)
     /\ ~good => (Err("InvalidWordLength") \in r) = (Len(x) \notin {3, 6})

\* C02: normalisation is idempotent, and acceptance depends on the normal form alone
StringOk ==
  LET p == NormalPhrase(x)  r == FromPhrase(lang, x) IN
  /\ NormalPhrase(p) = p
  /\ r = FromPhrase(lang, p)
  /\ IsOk(r) => Val(r).phrase = p
  /\ (IsOk(r) /\ x = p) => Ok(Unit) \in ValidatePhrase(lang, x)
  /\ Ok(Unit) \in ValidatePhrase(lang, x) => IsOk(r)
  /\ \A i \in 1..Len(p) : p[i] \notin {9, 65, 66} /\ ~(p[i] = 32 /\ (i = 1 \/ i = Len(p) \/ p[i + 1] = 32))
  \* C03: the seed depends on the normalised phrase and on the normal form of the passphrase
  /\ IsOk(r) => \A q \in {<<>>, <<65>>, <<97>>} : SeedOf(Val(r), q) = SeedOf(Val(FromPhrase(lang, p)), BNfkd(q))
  \* C18
  /\ LangOfPhrase(x) \in {"en", "zh", "none"}
  /\ IsOk(r) => LangOfPhrase(p) = lang
  /\ TypeForPhrase(x) = TypeForWords(Cardinality({i \in 1..Len(x) : x[i] = 32}) + 1)
Prop == CASE Mode = "entropy" -> (IF Len(x) \in BEntLens THEN EntropyOk /\ OneWord ELSE EntropyErr) [] Mode = "phrase" -> PhraseOk [] OTHER -> StringOk
=============================================================================

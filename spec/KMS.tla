-------------------------------- MODULE KMS --------------------------------
(* What uduncloud/kms computes, operation by operation: BIP39 mnemonics and  *)
(* seeds, BIP32 extended keys, derivation paths and extended-key text.       *)
(*                                                                           *)
(* Everything is parameterised over the primitives and sizes, so that the    *)
(* same definitions are model-checked exhaustively over a toy group, toy     *)
(* hash and toy dictionary (MC*.tla) and evaluated over the real ones when   *)
(* executions of the real code are validated (Trace.tla).                    *)
(*                                                                           *)
(* An operation's meaning is the SET of outcomes it may have: a singleton    *)
(* [tag |-> "ok", val |-> v] on valid input, and on invalid input any error  *)
(* whose condition applies (which of several applicable errors is reported   *)
(* first is not part of the contract).  A panic is never an allowed outcome. *)
EXTENDS Derive, FiniteSets, SequencesExt

CONSTANTS
  \* primitives (those of derivation are declared in Derive)
  PBKDF2(_, _),
  B58Enc(_), B58Dec(_), B58Valid(_),
  NFKD(_), GB(_), CPs(_), UTF8(_), IdxOf(_, _),
  \* BIP39 sizes and dictionaries
  ByteBits, WordBits, CsRatio, EntLens, Langs, Words(_), GbLangs,
  \* BIP32 text
  StdPrefixes, LetterSet

Last1(s) == s[Len(s)]

\* s split at every occurrence of x (like Rust's split: n occurrences, n+1 parts)
SplitAt(s, x) ==
  LET cut == <<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = x) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(cut) - 1) |-> SubSeq(s, cut[k] + 1, cut[k + 1] - 1)]
RECURSIVE JoinWith(_, _)
JoinWith(parts, glue) ==                                                 \* by halves: long texts
  IF parts = <<>> THEN <<>>
  ELSE IF Len(parts) = 1 THEN parts[1]
  ELSE LET m == Len(parts) \div 2
       IN JoinWith(SubSeq(parts, 1, m), glue) \o glue \o JoinWith(SubSeq(parts, m + 1, Len(parts)), glue)

(***************************************************************************)
(* BIP39                                                                   *)
(***************************************************************************)
Pow2 == [i \in 0..16 |-> IF i = 0 THEN 1 ELSE 2^i]
BitsOf(ns, w) == [j \in 1..(Len(ns) * w) |->
                    (ns[((j - 1) \div w) + 1] \div Pow2[w - 1 - ((j - 1) % w)]) % 2]
NumOf(bits) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bits)
Group(bits, w) == [k \in 1..(Len(bits) \div w) |-> NumOf(SubSeq(bits, (k - 1) * w + 1, k * w))]

EntBits(words) == (words * WordBits * CsRatio) \div (CsRatio + 1)
EntBitsOf(len) == len * ByteBits
CsBitsOf(entbits) == entbits \div CsRatio
WordsOf(entbits) == (entbits + CsBitsOf(entbits)) \div WordBits
WordCounts == {WordsOf(EntBitsOf(l)) : l \in EntLens}

Checksum(ent) == Take(BitsOf(SHA256(ent), ByteBits), CsBitsOf(EntBitsOf(Len(ent))))
WordIndices(ent) == Group(BitsOf(ent, ByteBits) \o Checksum(ent), WordBits)
PhraseOf(lang, idx) == JoinWith([k \in 1..Len(idx) |-> Words(lang)[idx[k] + 1]], <<32>>)

Mn(lang, phrase, ent) == [kind |-> "mn", lang |-> lang, phrase |-> phrase, ent |-> ent]

FromEntropy(lang, ent) ==
  IF Len(ent) \in EntLens
  THEN {Ok(Mn(lang, PhraseOf(lang, WordIndices(ent)), ent))}
  ELSE Errs({"InvalidKeysize"})

\* Unicode White_Space
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197, 8198,
               8199, 8200, 8201, 8202, 8232, 8233, 8239, 8287, 12288}
SplitWs(cs) ==
  LET cut == <<0>> \o SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i] \in WhiteSpace) \o <<Len(cs) + 1>>
      all == [k \in 1..(Len(cut) - 1) |-> SubSeq(cs, cut[k] + 1, cut[k + 1] - 1)]
  IN SelectSeq(all, LAMBDA w : w # <<>>)
NormalPhrase(text) ==
  LET ws == SplitWs(CPs(text))
  IN JoinWith([k \in 1..Len(ws) |-> NFKD(UTF8(ws[k]))], <<32>>)

TokenIndices(lang, phrase) ==
  LET toks == SplitAt(phrase, 32) IN [k \in 1..Len(toks) |-> IdxOf(Words(lang), toks[k]) - 1]

\* entropy of a normalised phrase
PhraseEntropy(lang, phrase) ==
  LET idx == TokenIndices(lang, phrase)
      faults == When(\E k \in 1..Len(idx) : idx[k] < 0, "InvalidWord")
                \cup When(Len(idx) \notin WordCounts, "InvalidWordLength")
  IN IF faults # {} THEN Errs(faults)
     ELSE LET bits == BitsOf(idx, WordBits)
              n    == EntBits(Len(idx))
              ent  == Group(Take(bits, n), ByteBits)
          IN IF Drop(bits, n) = Checksum(ent) THEN {Ok(ent)} ELSE Errs({"InvalidChecksum"})

FromPhrase(lang, text) ==
  LET p == NormalPhrase(text)
      r == PhraseEntropy(lang, p)
  IN IF IsOk(r) THEN {Ok(Mn(lang, p, Val(r)))} ELSE r

\* the validator: same verdict on normalised phrases, never laxer than import
AnyBip39Err == Errs({"InvalidWord", "InvalidWordLength", "InvalidChecksum"})
ValidatePhrase(lang, text) ==
  LET r == FromPhrase(lang, text)
  IN IF ~IsOk(r) THEN AnyBip39Err
     ELSE IF text = NormalPhrase(text) THEN {Ok(Unit)} ELSE {Ok(Unit)} \cup AnyBip39Err

MnemonicWord == <<109, 110, 101, 109, 111, 110, 105, 99>>      \* "mnemonic"
PhraseBytes(m) == IF m.lang \in GbLangs THEN GB(m.phrase) ELSE m.phrase
SeedOf(m, pass) == PBKDF2(PhraseBytes(m), NFKD(MnemonicWord \o pass))

NumWords(phrase) == Len(SplitAt(phrase, 32))

Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
Decimal(i) ==
  LET n == IF i = 0 THEN 1 ELSE CHOOSE k \in 1..10 : Pow10[k] <= i /\ (k = 10 \/ i < Pow10[k + 1])
  IN [j \in 1..n |-> 48 + ((i \div Pow10[n - j + 1]) % 10)]

\* mnemonic size table
SizeText(words) == Decimal(words) \o <<32, 119, 111, 114, 100, 115, 32, 40>> \o Decimal(EntBits(words)) \o <<98, 105, 116, 115, 41>>
TypeOf(words) == [words |-> words, ent |-> EntBits(words), cs |-> CsBitsOf(EntBits(words)),
                  total |-> EntBits(words) + CsBitsOf(EntBits(words)), show |-> SizeText(words)]
TypeForWords(n) == IF n \in WordCounts THEN {Ok(TypeOf(n))} ELSE Errs({"InvalidWordLength"})
TypeForBits(n) == IF \E l \in EntLens : n = EntBitsOf(l) THEN {Ok(TypeOf(WordsOf(n)))}
                  ELSE Errs({"InvalidKeysize"})
TypeForPhrase(text) == TypeForWords(Len(SplitAt(text, 32)))

\* dictionaries
IsPrefixOf(p, w) == Len(p) <= Len(w) /\ Take(w, Len(p)) = p
WordsByPrefix(lang, p) == SelectSeq(Words(lang), LAMBDA w : IsPrefixOf(p, w))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
LangOfCode(code) == LET l == Lower(code) IN
  IF l = <<101, 110>> THEN "en" ELSE IF l = <<122, 104, 45, 99, 110>> THEN "zh" ELSE "none"
LangOfPhrase(text) ==
  LET ws == SplitWs(CPs(text)) IN
  IF ws = <<>> THEN "none"
  ELSE LET w == UTF8(ws[1]) IN
       IF \E l \in Langs : IdxOf(Words(l), w) > 0
       THEN CHOOSE l \in Langs : IdxOf(Words(l), w) > 0 ELSE "none"

\* hexadecimal renderings
HexDigit(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 55 ELSE 87) + d
Hex(b, upper, alt) ==
  (IF alt THEN <<48, 120>> ELSE <<>>) \o
  [j \in 1..(2 * Len(b)) |->
     LET x == b[((j - 1) \div 2) + 1] IN HexDigit(IF j % 2 = 1 THEN x \div 16 ELSE x % 16, upper)]

(***************************************************************************)
(* BIP32 keys.  A child number is its 4 big-endian bytes.                  *)
(***************************************************************************)
\* key derivation is in Derive
KeyEq(x, y) == x = y

(***************************************************************************)
(* Derivation paths and their text                                         *)
(***************************************************************************)
Digits == 48..57
IndexOfCn(cn) == ((cn[1] % 128) * 16777216) + cn[2] * 65536 + cn[3] * 256 + cn[4]
CnOf(i, hard) == <<(i \div 16777216) + (IF hard THEN 128 ELSE 0), (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
ShowCn(cn) == Decimal(IndexOfCn(cn)) \o (IF Hardened(cn) THEN <<39>> ELSE <<>>)
ShowPath(path) == FoldLeft(LAMBDA a, cn : a \o <<47>> \o ShowCn(cn), <<109>>, path)

LexLeq(a, c) == \/ a = c
                \/ \E i \in 1..Len(a) : a[i] < c[i] /\ \A j \in 1..(i - 1) : a[j] = c[j]
MaxIndexText == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>     \* 2147483647
StripZeros(s) == LET z == IF \E i \in 1..Len(s) : s[i] # 48
                          THEN (CHOOSE i \in 1..Len(s) : s[i] # 48 /\ \A j \in 1..(i-1) : s[j] = 48) - 1
                          ELSE Len(s) - 1
                 IN Drop(s, z)
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digits
IndexInRange(s) == LET t == StripZeros(s) IN Len(t) < 10 \/ (Len(t) = 10 /\ LexLeq(t, MaxIndexText))
ParseDec(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, StripZeros(s))

ParseCn(text) ==
  LET hard == text # <<>> /\ Last1(text) = 39
      body == IF hard THEN Take(text, Len(text) - 1) ELSE text
      plus == body # <<>> /\ body[1] = 43
      num  == IF plus THEN Tail(body) ELSE body
  IN IF AllDigits(num) /\ IndexInRange(num)
     THEN {Ok(CnOf(ParseDec(num), hard))} \cup (IF plus THEN Errs({"ChildNumber"}) ELSE {})
     ELSE Errs({"ChildNumber"})
NewCn(raw, hard) == IF Hardened(raw) THEN Errs({"ChildNumber"})
                    ELSE {Ok(IF hard THEN [raw EXCEPT ![1] = @ + 128] ELSE raw)}

ParsePath(text) ==
  LET parts == SplitAt(text, 47)
      steps == [k \in 1..(Len(parts) - 1) |-> ParseCn(parts[k + 1])]
      faults == When(parts[1] # <<109>>, "Decode")
                \cup When(\E k \in 1..Len(steps) : ~IsOk(steps[k]), "ChildNumber")
  IN IF faults # {} THEN Errs(faults)
     ELSE {Ok([k \in 1..Len(steps) |-> Val(steps[k])])}
          \cup (IF \E k \in 1..Len(steps) : Cardinality(steps[k]) > 1 THEN Errs({"ChildNumber"}) ELSE {})
ParentPath(path) == IF path = <<>> THEN "none" ELSE Take(path, Len(path) - 1)

(***************************************************************************)
(* Extended-key text                                                       *)
(***************************************************************************)
KeyField(x) == IF x.kind = "prv" THEN <<0>> \o x.key ELSE x.key
Payload(ver, depth, fp, cn, chain, keyf) == ver \o <<depth>> \o fp \o cn \o chain \o keyf
PayloadLen == 4 + 1 + 4 + 4 + KeySize + (KeySize + 1)
CheckBytes(p) == Take(SHA256(SHA256(p)), 4)
Base58Check(p) == B58Enc(p \o CheckBytes(p))
ExportText(ver, x) == Base58Check(Payload(ver, x.depth, x.fp, x.cn, x.chain, KeyField(x)))

\* a prefix: its 4 bytes, its 4 characters
PrefixChars(ver) == Take(Base58Check(ver \o [i \in 1..(PayloadLen - 4) |-> 0]), 4)
AllLetters(s) == Len(s) = 4 /\ \A i \in 1..4 : s[i] \in LetterSet
EndsPrv(chars) == Drop(chars, 1) = <<112, 114, 118>>
EndsPub(chars) == Drop(chars, 1) = <<112, 117, 98>>
PrefixOf(ver) ==
  IF Len(ver) = 4 /\ AllLetters(PrefixChars(ver))
  THEN {Ok([ver |-> ver, chars |-> PrefixChars(ver),
            prv |-> EndsPrv(PrefixChars(ver)), pub |-> EndsPub(PrefixChars(ver))])}
  ELSE Errs({"Decode"})

Ek(ver, chars, d, f, i, c, k) ==
  [kind |-> "ek", ver |-> ver, chars |-> chars, depth |-> d, fp |-> f, cn |-> i, chain |-> c, key |-> k]
\* what can be said of a text without decoding it: that its first characters are no prefix
BadLetters(text) == When(Len(text) < 4 \/ ~AllLetters(Take(text, 4)), "Decode")
EkText(text) == B58Valid(text) /\ Len(B58Dec(text)) = PayloadLen + 4
EkIn(text) == LET p == B58Dec(text) IN Ek(SubSeq(p, 1, 4), Take(text, 4), p[5], SubSeq(p, 6, 9), SubSeq(p, 10, 13),
                                          SubSeq(p, 14, 13 + KeySize), SubSeq(p, 14 + KeySize, PayloadLen))
ParseEk(text) ==
  IF ~B58Valid(text) THEN Errs({"Base58"} \cup BadLetters(text))
  ELSE IF ~EkText(text) THEN Errs({"Base58", "Decode"})
  ELSE LET d == B58Dec(text)
           e == EkIn(text)
           faults == When(CheckBytes(Take(d, PayloadLen)) # Drop(d, PayloadLen), "Base58")
                     \cup When(~AllLetters(e.chars) \/ (e.depth = 0 /\ (e.fp # ZeroFp \/ e.cn # ZeroCn)), "Decode")
       IN IF faults # {} THEN Errs(faults) ELSE {Ok(e)}
\* a key of the wrong kind is reported as a matter of the text or of the key
WrongKind(c) == IF c THEN {"Decode", "Crypto"} ELSE {}
EkToPrv(e) == LET faults == WrongKind(~EndsPrv(e.chars) \/ e.key[1] # 0) \cup When(~ScOk(Tail(e.key)), "Crypto")
              IN IF faults # {} THEN Errs(faults) ELSE {Ok(Prv(Tail(e.key), e.chain, e.depth, e.fp, e.cn))}
EkToPub(e) == LET faults == WrongKind(~EndsPub(e.chars)) \cup When(~PtOk(e.key), "Crypto")
              IN IF faults # {} THEN Errs(faults) ELSE {Ok(Pub(e.key, e.chain, e.depth, e.fp, e.cn))}
\* a text that is no extended key may, besides, announce the wrong kind or hold no key
AlsoErrs(rs) == {o \in rs : o.tag = "err"}
ImportPrv(text) == LET r == ParseEk(text)
                   IN IF IsOk(r) THEN EkToPrv(Val(r))
                      ELSE r \cup Errs(WrongKind(Len(text) >= 4 /\ ~EndsPrv(Take(text, 4)))) \cup (IF EkText(text) THEN AlsoErrs(EkToPrv(EkIn(text))) ELSE {})
ImportPub(text) == LET r == ParseEk(text)
                   IN IF IsOk(r) THEN EkToPub(Val(r))
                      ELSE r \cup Errs(WrongKind(Len(text) >= 4 /\ ~EndsPub(Take(text, 4)))) \cup (IF EkText(text) THEN AlsoErrs(EkToPub(EkIn(text))) ELSE {})

----------------------------------------------------------------------------
\* c says how the values x compare (-1, 0, 1): a total order that agrees with equality
LawfulOrder(x, c) ==
  \A i, j \in 1..Len(x) : /\ c[i][j] \in {-1, 0, 1} /\ c[i][j] = -c[j][i] /\ (c[i][j] = 0) = (x[i] = x[j])
                          /\ \A k \in 1..Len(x) : (c[i][j] <= 0 /\ c[j][k] <= 0) => c[i][k] <= 0
=============================================================================

------------------------------ MODULE SelfTest ------------------------------
(* The instrument itself: published vectors and samples from other           *)
(* implementations, for every primitive and for KMS as a whole; agreement of *)
(* the Java evaluations with the definitions in Prims; laws of the group;    *)
(* and, with the real prefixes and dictionaries, facts that hold for all     *)
(* keys because Base58 of a fixed length is monotone.                        *)
EXTENDS Real
CONSTANTS VecFile,
          Kinds         \* which kinds of vectors, and which parts, to check
Vec == JsonDeserialize(VecFile)
VARIABLES part, i
Parts == [vec |-> Len(Vec), pre |-> Len(RealPrefixes), word |-> 2048, letter |-> 256]
Init == part \in ({"vec"} \cup Kinds) \cap DOMAIN Parts /\ i = 0
Next == i = 0 /\ i' \in {j \in 1..Parts[part] : part = "vec" => Vec[j].kind \in Kinds} /\ part' = part
Spec == Init /\ [][Next]_<<part, i>>

Concat(ws) == FoldLeft(LAMBDA a, w : a \o w \o <<10>>, <<>>, ws)
VecOk(v) ==
  CASE v.kind = "sha256" -> Sha256(v.m) = v.d
    [] v.kind = "hmac" -> HmacSha512(v.k, v.m) = v.d
    [] v.kind = "ripemd" -> Ripemd160(v.m) = v.d
    [] v.kind = "pbkdf" -> Pbkdf2(v.p, v.s) = v.d
    [] v.kind = "nfkd" -> Nfkd(v.u) = v.v /\ Nfkd(v.v) = v.v
    [] v.kind = "utf8" -> CodePoints(v.u) = v.c /\ Utf8(v.c) = v.u /\ PureCodePoints(v.u) = v.c /\ PureUtf8(v.c) = v.u
    [] v.kind = "gb" -> Gb18030(v.u) = v.v
    [] v.kind = "b58" -> Base58Enc(v.b) = v.t /\ Base58Dec(v.t) = v.b /\ Base58Valid(v.t) /\ PureBase58Enc(v.b) = v.t /\ PureBase58Dec(v.t) = v.b
    [] v.kind = "point" -> ScalarOk(v.k) /\ PointOf(v.k) = v.p /\ PointOk(v.p)
    [] v.kind = "group" -> LET p == PointOf(v.a) IN
         /\ ScalarAdd(v.a, v.b) = v.s /\ ScalarAdd(v.b, v.a) = v.s
         /\ PointAddG(p, v.b) = PointOf(v.s) /\ PointAddG(PointOf(v.b), v.a) = PointOf(v.s)
         /\ PointAddG(p, v.neg) = <<>> /\ Tail(PointOf(v.neg)) = Tail(p) /\ PointOf(v.neg)[1] = 5 - p[1]
         /\ PointAddG(p, v.a) = PointOf(ScalarAdd(v.a, v.a))
         /\ IsZero(ScalarAdd(v.a, v.neg))
    [] v.kind = "sig" -> /\ SigVerify(v.p, v.m, v.sig) /\ SigLowS(v.sig) = v.low
                         /\ \A id \in 0..3 : (SigRecover(v.m, v.sig, id) = v.p) = (id = v.id)
                         /\ \A j \in {1, 32, 33, 64} : ~SigVerify(v.p, v.m, [v.sig EXCEPT ![j] = (@ + 1) % 256])
                         /\ ~SigVerify(v.p, [v.m EXCEPT ![7] = (@ + 1) % 256], v.sig) /\ ~SigVerify(PointAddG(v.p, <<1>>), v.m, v.sig)
    [] v.kind = "bip39" -> LET m == FromEntropy(v.lang, v.ent) IN
         /\ m = {Ok(Mn(v.lang, v.phrase, v.ent))} /\ FromPhrase(v.lang, v.phrase) = m
         /\ SeedOf(Val(m), v.passw) = v.seed
         /\ ExportText(RealPrefixes[3].ver, Val(Master(v.seed))) = v.xprv
         /\ LangOfPhrase(v.phrase) = v.lang
    [] v.kind = "bip32" -> LET x == Val(NewFromPath(v.seed, Val(ParsePath(v.path)))) IN
         /\ ExportText(RealPrefixes[3].ver, x) = v.xprv /\ ExportText(RealPrefixes[4].ver, Neuter(x)) = v.xpub
         /\ ImportPrv(v.xprv) = {Ok(x)} /\ ImportPub(v.xpub) = {Ok(Neuter(x))}
         /\ ~IsOk(ImportPub(v.xprv)) /\ ~IsOk(ImportPrv(v.xpub))
    [] v.kind = "badkey" -> ~IsOk(ImportPrv(v.t)) /\ ~IsOk(ImportPub(v.t))
    [] v.kind = "dict" -> Sha256(Concat(RealWords(v.lang))) = v.d

\* a text of a given length grows with its payload, so between the least and the greatest payload the first letters are the same
Fill(ver, x, n) == Base58Enc(ver \o [j \in 1..n |-> x])
PreOk(p) == /\ PrefixOf(p.ver) = {Ok([ver |-> p.ver, chars |-> p.chars, prv |-> EndsPrv(p.chars), pub |-> EndsPub(p.chars)])}
            /\ EndsPrv(p.chars) # EndsPub(p.chars)
            /\ Len(Fill(p.ver, 0, 78)) = 111 /\ Len(Fill(p.ver, 255, 78)) = 111
            /\ Take(Fill(p.ver, 0, 78), 4) = p.chars /\ Take(Fill(p.ver, 255, 78), 4) = p.chars
            /\ \A q \in DOMAIN RealPrefixes : (RealPrefixes[q].ver = p.ver) = (RealPrefixes[q].chars = p.chars)
WordOk(k) == \A l \in RealLangs :
  LET w == RealWords(l)[k] IN
  /\ IndexOf(RealWords(l), w) = k /\ PureIndexOf(RealWords(l), w) = k
  /\ Nfkd(w) = w /\ w # <<>> /\ SplitWs(CodePoints(w)) = <<CodePoints(w)>>
  /\ IndexOf(RealWords(IF l = "en" THEN "zh" ELSE "en"), w) = 0
  /\ LangOfPhrase(w) = l
  /\ \E j \in 1..Len(WordsByPrefix(l, w)) : WordsByPrefix(l, w)[j] = w
  /\ l = "en" => \A j \in 1..2048 : (j # k /\ Len(w) >= 4) => Take(RealWords(l)[j], IF Len(RealWords(l)[j]) < 4 THEN Len(RealWords(l)[j]) ELSE 4) # Take(w, 4)
LetterOk(c) == /\ Base58Valid(<<c - 1>>) = PureBase58Valid(<<c - 1>>)
               /\ (c <= 128 /\ Base58Valid(<<c - 1>>)) => Base58Dec(<<c - 1>>) = PureBase58Dec(<<c - 1>>)
Prop == i = 0 \/ CASE part = "vec" -> VecOk(Vec[i]) [] part = "pre" -> PreOk(RealPrefixes[i]) [] part = "word" -> WordOk(i) [] part = "letter" -> LetterOk(i)
=============================================================================

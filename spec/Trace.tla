------------------------------- MODULE Trace -------------------------------
(* Validates executions recorded from the real code (harness/) against KMS.  *)
(* The log holds sessions: sequences of events, each one public call with    *)
(* the objects and arguments it was given, its result, and the objects after *)
(* the call.  A state is a position in one session plus what the judgements  *)
(* that span several events remember.  Every event must be an outcome KMS    *)
(* allows, seen through the property Prop; one that is not is printed as a   *)
(* MISMATCH (and validation continues with the observed values).             *)
EXTENDS Real, ToyKey, TLCExt

CONSTANTS Prop, LogFile

Sessions == ndJsonDeserialize(LogFile)

----------------------------------------------------------------------------
\* ---- judgements
Match(os, r) == \E o \in os : o.tag = r.tag /\ (o.tag = "ok" => o.val = r.val)
Implies(c, x) == IF c THEN x ELSE TRUE
IsErr(r) == r.tag = "err"
Good(r) == r.tag = "ok"
Same(r, q) == r.tag = q.tag /\ Implies(Good(r), r.val = q.val)
U64(n) == <<0, 0, 0, 0>> \o <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Small(b) == \A i \in 1..6 : b[i] = 0            \* an 8-byte number below 65536
Num(b) == 256 * b[7] + b[8]

\* an input of a length (8 bytes) that may exceed TLC's integers
OfLen(e, what, lens) == (e.op = "len" /\ e.what = what) => IF Small(e.len) /\ Num(e.len) \in lens THEN Good(e.res) ELSE IsErr(e.res)
C01(e) == /\ e.op = "mn.entropy" => Match(FromEntropy(e.lang, e.ent), e.res)
          /\ OfLen(e, "mn", EntLens)
C02(e) == /\ e.op = "mn.phrase" => Match(FromPhrase(e.lang, e.text), e.res)
          /\ e.op = "mn.validate" => Match(ValidatePhrase(e.lang, e.text), e.res)
C03(e) == e.op = "seed.new" => Good(e.res) /\ e.res.val.bytes = SeedOf(e.self, e.pass)
SeedArg(e) == IF "self" \in DOMAIN e THEN e.self.bytes ELSE e.seed
C04(e) == /\ e.op = "prv.new" => Match(Master(SeedArg(e)), e.res)
          /\ OfLen(e, "seed", SeedLens)
C05(e) == (e.op = "ckd" /\ e.self.kind = "prv") =>
            LET r == CkdPrv(e.self, e.cn) IN
            /\ e.self2 = e.self
            /\ IsOk(r) => Good(e.res) /\ e.res.val.key = Val(r).key /\ e.res.val.chain = Val(r).chain
C06(e) == CASE e.op = "commute" ->
                 IF \E i \in 1..Len(e.path) : Hardened(e.path[i]) THEN IsErr(e.viapub)
                 ELSE Same(e.viaprv, e.viapub) /\ e.viaprv.tag # "panic"
            [] e.op = "ckd" -> (e.self.kind = "pub" /\ Hardened(e.cn)) => IsErr(e.res)
            [] e.op = "neuter" -> Good(e.res) /\ e.res.val = Neuter(e.self) /\ Good(e.via) /\ e.via.val = e.res.val
            [] e.op = "path.derive" -> ("self" \in DOMAIN e /\ e.self.kind = "pub" /\ \E i \in 1..Len(e.path) : Hardened(e.path[i])) => IsErr(e.res)
            [] OTHER -> TRUE
C07(e) == e.op = "path.derive" =>
            /\ e.pathval = e.path
            /\ Same(e.res, e.steps)
            /\ Same(e.res, e.parts)
            /\ (e.path = <<>> /\ "self" \in DOMAIN e /\ e.self.kind \in {"prv", "pub"}) => Good(e.res) /\ e.res.val = e.self
C08(e) == /\ e.op = "ckd" =>
               LET pt == IF e.self.kind = "prv" THEN PtOf(e.self.key) ELSE e.self.key IN
               /\ e.self.depth = MaxDepth => IsErr(e.res)
               /\ Good(e.res) => /\ e.res.val.depth = e.self.depth + 1
                                 /\ e.res.val.cn = e.cn
                                 /\ e.res.val.fp = Fingerprint(pt)
          /\ (e.op = "path.derive" /\ "self" \in DOMAIN e /\ e.self.kind \in {"prv", "pub"}) =>
               LET n == Len(e.path) IN
               /\ e.self.depth + n > MaxDepth => IsErr(e.res)
               /\ (Good(e.res) /\ n > 0) => e.res.val.depth = e.self.depth + n /\ e.res.val.cn = e.path[n]
          /\ e.op = "fp" => Good(e.res) /\ e.res.val = Fingerprint(e.self.key) /\ e.via = e.res.val
C09(e) == CASE e.op = "cn.parse" -> Match(ParseCn(e.text), e.res)
            [] e.op = "cn.new" -> Match(NewCn(e.raw, e.hard), e.res)
            [] e.op = "cn.show" -> /\ Good(e.res)
                                   /\ LET v == e.res.val IN
                                      /\ v.text = ShowCn(e.cn)
                                      /\ v.index = [e.cn EXCEPT ![1] = @ % 128] /\ v.hard = Hardened(e.cn)
                                      /\ v.bytes = e.cn /\ v.u32 = e.cn /\ v.frombytes = e.cn /\ v.fromu32 = e.cn
                                      /\ Match({Ok(e.cn)}, v.back)
            [] e.op = "path.parse" -> Match(ParsePath(e.text), e.res)
            [] e.op = "path.show" -> /\ Good(e.res)
                                     /\ LET v == e.res.val  n == Len(e.path) IN
                                        /\ v.text = ShowPath(e.path)
                                        /\ v.len = n /\ v.empty = (n = 0)
                                        /\ v.asref = e.path /\ v.iter = e.path /\ v.into = e.path
                                        /\ v.parent.some = (n > 0)
                                        /\ v.parent.path = (IF n = 0 THEN <<>> ELSE ParentPath(e.path))
                                        /\ Match({Ok(e.path)}, v.back) /\ v.backeq
            [] OTHER -> TRUE
KindOf(x) == IF x.kind = "prv" THEN EndsPrv(x.chars) ELSE EndsPub(x.chars)
EkOf(pre, x) == [kind |-> "ek", ver |-> pre.ver, chars |-> pre.chars, depth |-> x.depth, fp |-> x.fp, cn |-> x.cn,
                 chain |-> x.chain, key |-> KeyField(x)]
IsStd(ek) == \E i \in 1..Len(RealPrefixes) : RealPrefixes[i].ver = ek.ver /\ RealPrefixes[i].chars = ek.chars
\* a key of depth zero with lineage is not a BIP32 key: its text may be refused on import
Rooted(x) == x.depth > 0 \/ (x.fp = ZeroFp /\ x.cn = ZeroCn)
C10(e) ==
  CASE e.op = "export" ->
         LET pre == RealPrefixes[e.std + 1]
             want == ExportText(pre.ver, e.self)
         IN (IF e.self.kind = "prv" THEN EndsPrv(pre.chars) ELSE EndsPub(pre.chars)) =>
              /\ Good(e.res)
              /\ \A i \in 1..Len(e.res.val) : e.res.val[i] = want
              /\ Take(want, 4) = pre.chars
              /\ e.ver = pre.ver
              /\ e.ek = EkOf(pre, e.self)
              /\ Match({Ok(e.self)}, e.direct)
              /\ Rooted(e.self) => /\ Match({Ok(e.self)}, e.back) /\ Match({Ok(e.self)}, e.viaek)
                                   /\ Match({Ok(EkOf(pre, e.self))}, e.ekback)
    [] e.op = "reimport" ->
         (Rooted(e.self) /\ (IF e.self.kind = "prv" THEN EndsPrv(RealPrefixes[e.std + 1].chars) ELSE EndsPub(RealPrefixes[e.std + 1].chars))) => Match({Ok(e.self)}, e.res)
    [] e.op = "import" ->
         LET k == ParseEk(e.text) IN
         (IsOk(k) /\ IsStd(Val(k))) =>
            LET r == CASE e.as = "prv" -> EkToPrv(Val(k)) [] e.as = "pub" -> EkToPub(Val(k)) [] OTHER -> k
            IN IsOk(r) => Match(r, e.res)
    [] e.op = "ek.into" ->
         LET r == IF e.as = "prv" THEN EkToPrv(e.self) ELSE EkToPub(e.self)
         IN (IsOk(r) /\ IsStd(e.self)) => Match(r, e.res)
    [] e.op = "ek.show" ->
         LET want == Base58Check(Payload(e.self.ver, e.self.depth, e.self.fp, e.self.cn, e.self.chain, e.self.key))
         IN Good(e.res) /\ \A i \in 1..Len(e.res.val) : e.res.val[i] = want
    [] OTHER -> TRUE
C11(e) ==
  CASE e.op = "import" ->
         LET r == CASE e.as = "prv" -> ImportPrv(e.text) [] e.as = "pub" -> ImportPub(e.text) [] OTHER -> ParseEk(e.text)
         IN e.res.tag # "panic" /\ (IsOk(r) \/ IsErr(e.res))
    [] e.op = "ek.into" ->
         LET r == IF e.as = "prv" THEN EkToPrv(e.self) ELSE EkToPub(e.self)
         IN e.res.tag # "panic" /\ (IsOk(r) \/ IsErr(e.res))
    [] OTHER -> TRUE
C12(e) == e.op = "eq" =>
            /\ Good(e.res)
            /\ LET w == KeyEq(e.a, e.b)  v == e.res.val IN v.eq = w /\ v.rev = w /\ v.ne = ~w /\ v.ct = w /\ v.ctrev = w
C13(e) == CASE e.op = "sk.from" -> Match(PrvFromBytes(e.key), e.res)
            [] e.op = "pk.from" -> Match(PubFromBytes(e.key), e.res)
            [] e.op = "sk.pub" -> Good(e.res) /\ e.res.val = PtOf(e.key)
            [] e.op = "sk.tweak" -> Match(PrvTweak(e.key, e.t), e.res) /\ e.kept = e.key
            [] e.op = "pk.tweak" -> Match(PubTweak(e.key, e.t), e.res) /\ e.kept = e.key
            [] e.op = "access" -> Good(e.res) /\ LET v == e.res.val IN v.bytes = e.self.key /\ v.raw = e.self.key /\ v.byref = e.self.key /\ v.byval = e.self.key
            [] OTHER -> TRUE
\* aux: the set of <<key, signature, r>> seen
C14(e, aux) == IF e.op = "len" THEN OfLen(e, "msg", {32}) ELSE e.op = "sign" =>
     IF Len(e.msg) # 32 THEN IsErr(e.res)
     ELSE /\ Good(e.res)
          /\ Same(e.res, e.again)
          /\ LET s == e.res.val.sig  p == PtOf(e.key) IN
             /\ SigLowS(s)
             /\ SigVerify(p, e.msg, s)
             /\ SigRecover(e.msg, s, e.res.val.recid) = p
             /\ \A q \in aux.sigs : q.r = Take(s, 32) => (q.key = e.key /\ q.sig = s)
C16(e) == e.op = "dbg" =>
     LET strip(x) == [x EXCEPT !.key = <<>>] IN
     strip(e.a) = strip(e.b) =>
        Good(e.res) /\ LET v == e.res.val IN v.a = v.b /\ v.pa = v.pb /\ v.xa = v.xb /\ v.wa = v.wb /\ v.ma = v.mb
C17(e) == e.op \in {"mn.new", "mn.draw"} =>
     \* with a source that fails there may be no mnemonic at all
     IF e.op = "mn.draw" /\ e.src.fail >= 0 /\ ~Good(e.res) THEN TRUE ELSE
     /\ Good(e.res)
     /\ LET v == e.res.val IN
        /\ v.lang = e.lang
        /\ EntBitsOf(Len(v.ent)) = EntBits(e.words)
        /\ FromEntropy(e.lang, v.ent) = {Ok(v)}
        /\ FromPhrase(e.lang, v.phrase) = {Ok(v)}
        /\ e.op = "mn.new" => Match({Ok(v)}, e.back) /\ Match({Ok(v)}, e.again)
C18(e) == CASE e.op = "lang.word" -> Match({Ok(Words(e.lang)[e.i + 1])}, e.res)
            [] e.op = "lang.index" -> LET i == IdxOf(Words(e.lang), e.text) IN
                                      IF i = 0 THEN IsErr(e.res) ELSE Good(e.res) /\ e.res.val = i - 1
            [] e.op = "lang.prefix" -> Match({Ok(WordsByPrefix(e.lang, e.text))}, e.res)
            [] e.op = "lang.code" -> Match({Ok(LangOfCode(e.text))}, e.res)
            [] e.op = "lang.default" -> Match({Ok("en")}, e.res)
            [] e.op = "lang.detect" -> Match({Ok(LangOfPhrase(e.text))}, e.res)
            [] OTHER -> TRUE
\* aux.store: what each handle was when it was made; calls never change what they are called on
Known(h, v, aux) == (h > 0 /\ h \in DOMAIN aux.store) => aux.store[h] = v
C19(e, aux) ==
  /\ "self" \in DOMAIN e => e.self2 = e.self /\ Known(e.selfh, e.self, aux)
  /\ "a" \in DOMAIN e => e.a2 = e.a /\ Known(e.ah, e.a, aux)
  /\ "b" \in DOMAIN e => e.b2 = e.b /\ Known(e.bh, e.b, aux)
  /\ e.op = "clone" => Match({Ok(e.self)}, e.res)
  /\ e.op = "mn.clone" => Match({Ok(e.self)}, e.res)
  \* however often and wherever a call is made, it has one answer
  /\ e.op = "hammer" => Good(e.res) /\ \A i \in 1..Len(e.res.val) : Len(e.res.val[i]) <= 1
  /\ e.op = "runs" => \A i \in 1..Len(e.results) : e.results[i] = e.results[1]
PrefixRec(ver, chars) == [ver |-> ver, bytes |-> ver, u32 |-> ver, u32r |-> ver, chars |-> chars, display |-> chars,
                          asref |-> chars, prv |-> EndsPrv(chars), pub |-> EndsPub(chars)]
\* the debug text, if it was looked at, shows the letters and the version
Within(x, y) == \E i \in 0..(Len(y) - Len(x)) : SubSeq(y, i + 1, i + Len(x)) = x
Shows(e) == "dbg" \in DOMAIN e => Within(e.res.val.chars, e.dbg) /\ (Within(Hex(e.res.val.ver, FALSE, FALSE), e.dbg) \/ Within(Hex(e.res.val.ver, TRUE, FALSE), e.dbg))
C20(e) == CASE e.op = "prefix.of" ->
                 LET r == PrefixOf(e.bytes) IN
                 IF IsOk(r) THEN Good(e.res) /\ e.res.val = PrefixRec(e.bytes, Val(r).chars) /\ Shows(e) ELSE IsErr(e.res)
            [] e.op = "prefix.parts" -> IF Len(e.text) = 4 /\ \A i \in 1..4 : e.text[i] \in LetterSet
                                        THEN Good(e.res) /\ e.res.val = PrefixRec(e.ver, e.text) ELSE e.res.tag = "panic"
            [] e.op = "prefix.std" -> Good(e.res) /\ LET p == RealPrefixes[e.std + 1] IN e.res.val = PrefixRec(p.ver, p.chars) /\ Shows(e)
            [] OTHER -> TRUE
C21(e) == CASE e.op = "mn.render" ->
                 /\ Good(e.res)
                 /\ LET v == e.res.val  b == e.self.ent  p == e.self.phrase IN
                    /\ v.lx = Hex(b, FALSE, FALSE) /\ v.ux = Hex(b, TRUE, FALSE)
                    /\ v.alx = Hex(b, FALSE, TRUE) /\ v.aux = Hex(b, TRUE, TRUE)
                    /\ v.display = p /\ v.tostring = p /\ v.asref = p /\ v.into = p /\ v.string = p
                    /\ v.dbg = <<34>> \o p \o <<34>> /\ v.pdbg = v.dbg /\ v.bytes = PhraseBytes(e.self)
            [] e.op = "seed.render" ->
                 /\ Good(e.res)
                 /\ LET v == e.res.val  b == e.self.bytes IN
                    /\ v.lx = Hex(b, FALSE, FALSE) /\ v.ux = Hex(b, TRUE, FALSE)
                    /\ v.alx = Hex(b, FALSE, TRUE) /\ v.aux = Hex(b, TRUE, TRUE)
                    /\ v.dbg = Hex(b, TRUE, TRUE) /\ v.pdbg = v.dbg /\ v.asref = b
            [] OTHER -> TRUE
Judged22(r, e, n) == IF IsOk(r) THEN Match(r, e.res) ELSE IsErr(e.res) /\ e.res.kind \in {o.kind : o \in r} /\ e.num = n
C22(e) == e.op = "mtype" =>
     CASE e.via = "words" -> Judged22(IF Small(e.n) THEN TypeForWords(Num(e.n)) ELSE Errs({"InvalidWordLength"}), e, e.n)
       [] e.via = "bits"  -> Judged22(IF Small(e.n) THEN TypeForBits(Num(e.n)) ELSE Errs({"InvalidKeysize"}), e, e.n)
       [] e.via = "phrase" -> Judged22(TypeForPhrase(e.text), e, U64(Len(SplitAt(e.text, 32))))
       [] e.via = "default" -> Match({Ok(TypeOf(12))}, e.res)
       [] OTHER -> Match({Ok(TypeOf(e.words))}, e.res)
\* a long message is given as a pattern and a length
LongMsg(e) == IF "msg" \in DOMAIN e THEN e.msg ELSE [i \in 1..e.len |-> e.pat[((i - 1) % Len(e.pat)) + 1]]
C23(e) == e.op = "ripemd" => Match({Ok(Hex(Ripemd160(LongMsg(e)), FALSE, FALSE))}, e.res)

\* what a key type refuses is an error wherever it turns up, and what it accepts is the key
KeyOf(r, e) == Good(e) /\ e.val.key = r
Refusable(m, e) == IF IsOk(m) THEN KeyOf(Val(m).key, e) ELSE IsErr(e)
Lawful(x, path) == x.depth + Len(path) <= MaxDepth /\ (x.kind = "pub" => \A i \in 1..Len(path) : ~Hardened(path[i]))
C24(e) ==
  CASE e.op = "prv.new" -> Len(SeedArg(e)) \in SeedLens => Refusable(Master(SeedArg(e)), e.res)
    [] e.op = "ckd" -> Lawful(e.self, <<e.cn>>) => Refusable(Ckd(e.self, e.cn), e.res)
    [] e.op = "commute" ->
         Lawful(e.self, e.path) =>
           /\ LET r == CkdPath(e.self, e.path) IN IF IsOk(r) THEN KeyOf(PtOf(Val(r).key), e.viaprv) ELSE IsErr(e.viaprv)
           /\ (\A i \in 1..Len(e.path) : ~Hardened(e.path[i])) => Refusable(CkdPath(Neuter(e.self), e.path), e.viapub)
    [] e.op = "path.derive" ->
         IF "self" \in DOMAIN e /\ e.self.kind \in {"prv", "pub"}
         THEN Lawful(e.self, e.path) => Refusable(CkdPath(e.self, e.path), e.res)
         ELSE (Len(SeedArg(e)) \in SeedLens /\ Len(e.path) <= MaxDepth) => Refusable(NewFromPath(SeedArg(e), e.path), e.res)
    [] e.op \in {"import", "ek.into"} ->
         LET k == IF e.op = "ek.into" THEN {Ok(e.self)} ELSE ParseEk(e.text) IN
         (IsOk(k) /\ e.as # "ek" /\ IsStd(Val(k)) /\ (IF e.as = "prv" THEN EndsPrv(Val(k).chars) /\ Val(k).key[1] = 0 ELSE EndsPub(Val(k).chars))) =>
            Refusable(IF e.as = "prv" THEN EkToPrv(Val(k)) ELSE EkToPub(Val(k)), e.res)
    [] OTHER -> TRUE

\* C26: a refusal names a cause that is there, with its message and its number
Kinds(os) == {o.kind : o \in {q \in os : q.tag = "err"}}
Say32 == [Base58 |-> "base58 error", Bip39 |-> "bip39 error", ChildNumber |-> "invalid child number", Crypto |-> "cryptographic error",
          Decode |-> "decoding error", Depth |-> "maximum derivation depth exceeded", SeedLength |-> "seed length invalid",
          Secp256k1 |-> "secp256k1 error"]
Cause(kinds, r) == IsErr(r) => r.kind \in kinds /\ r.kind \in DOMAIN Say32 /\ r.text = Say32[r.kind]
\* a number given as bytes, written out (it may exceed TLC's integers)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Written(_)
Written(b) ==
  LET step(a, x) == [q |-> Append(a.q, (a.r * 256 + x) \div 10), r |-> (a.r * 256 + x) % 10]
      d == FoldLeft(step, [q |-> <<>>, r |-> 0], b)
  IN (IF \A i \in 1..Len(b) : d.q[i] = 0 THEN "" ELSE Written(d.q)) \o Digit[d.r + 1]
Say39(kind, n) == CASE kind = "InvalidChecksum" -> "invalid checksum" [] kind = "InvalidWord" -> "invalid word in phrase"
                    [] kind = "InvalidKeysize" -> "invalid keysize: " \o Written(n)
                    [] kind = "InvalidWordLength" -> "invalid number of words in phrase: " \o Written(n)
                    [] OTHER -> "?"
\* n: the number of words or bits that was offered (8 bytes)
Cause39(kinds, e, n) == IsErr(e.res) =>
  /\ e.res.kind \in kinds
  /\ e.res.kind \in {"InvalidKeysize", "InvalidWordLength"} => e.num = n
  /\ e.res.text = Say39(e.res.kind, n)
C26(e) ==
  CASE e.op = "len" -> CASE e.what = "mn" -> Cause39({"InvalidKeysize"}, e, e.bits)
                         [] e.what = "seed" -> Cause({"SeedLength"}, e.res)
                         [] OTHER -> Cause({"Secp256k1"}, e.res)
    [] e.op = "mn.entropy" -> Cause39(Kinds(FromEntropy(e.lang, e.ent)), e, U64(8 * Len(e.ent)))
    [] e.op = "mn.phrase" -> Cause39(Kinds(FromPhrase(e.lang, e.text)), e, U64(NumWords(NormalPhrase(e.text))))
    [] e.op = "mn.validate" -> IF e.text = NormalPhrase(e.text) THEN Cause39(Kinds(FromPhrase(e.lang, e.text)), e, U64(NumWords(e.text)))
                               ELSE IsErr(e.res) => e.res.kind \in Kinds(AnyBip39Err)
    [] e.op = "mtype" -> Cause39(CASE e.via = "bits" -> {"InvalidKeysize"} [] e.via \in {"words", "phrase"} -> {"InvalidWordLength"} [] OTHER -> {}, e,
                                 IF e.via = "phrase" THEN U64(NumWords(e.text)) ELSE IF e.via = "enum" THEN U64(0) ELSE e.n)
    [] e.op = "lang.index" -> IsErr(e.res) => e.res.kind = "InvalidWord" /\ e.res.text = "invalid word in phrase"
    [] e.op = "prv.new" -> Cause(Kinds(Master(SeedArg(e))), e.res)
    [] e.op = "ckd" -> Cause(Kinds(Ckd(e.self, e.cn)), e.res)
    [] e.op = "commute" -> /\ Cause(PathFaults(e.self, e.path), e.viaprv)
                           /\ Cause(PathFaults(Neuter(e.self), e.path), e.viapub)
    [] e.op = "path.derive" ->
         LET m == IF "self" \in DOMAIN e /\ e.self.kind \in {"prv", "pub"} THEN {Ok(e.self)} ELSE Master(SeedArg(e))
             ks == IF IsOk(m) THEN PathFaults(Val(m), e.path) ELSE Kinds(m)
         IN Cause(ks, e.res) /\ Cause(ks, e.steps) /\ Cause(ks, e.parts)
    [] e.op = "cn.parse" -> Cause({"ChildNumber"}, e.res)
    [] e.op = "cn.new" -> Cause(Kinds(NewCn(e.raw, e.hard)), e.res)
    [] e.op = "path.parse" -> Cause(Kinds(ParsePath(e.text)), e.res)
    [] e.op = "import" -> Cause(Kinds(CASE e.as = "prv" -> ImportPrv(e.text) [] e.as = "pub" -> ImportPub(e.text) [] OTHER -> ParseEk(e.text)), e.res)
    [] e.op = "ek.into" -> Cause(Kinds(IF e.as = "prv" THEN EkToPrv(e.self) ELSE EkToPub(e.self)), e.res)
    [] e.op = "prefix.of" -> Cause({"Decode"}, e.res)
    [] e.op \in {"sk.from", "pk.from", "sk.tweak", "pk.tweak"} -> Cause({"Crypto"}, e.res)
    [] e.op = "err.from" -> IsErr(e.res) /\ Cause({CASE e.via \in {"decode", "encode"} -> "Base58" [] e.via = "slice" -> "Decode" [] e.via = "sign" -> "Secp256k1" [] OTHER -> "Crypto"}, e.res)
    [] e.op = "sign" -> Cause(IF Len(e.msg) = 32 THEN {} ELSE {"Secp256k1"}, e.res)
    [] OTHER -> TRUE

\* C27: three values of one kind and what comparing them said: cmp[i][j] is -1, 0 or 1
CnLess(x, y) == x # y /\ LexLeq(x, y)
C27(e) == e.op = "order" =>
  /\ Good(e.res)
  /\ LET c == e.res.val.cmp  x == e.vals  n == Len(e.vals) IN
     /\ LawfulOrder(x, c)
     /\ \A i \in 1..n, j \in 1..n :
       /\ LET o == e.res.val.ops[i][j] IN
          o.eq = (x[i] = x[j]) /\ o.ne = ~o.eq /\ o.partial = c[i][j] /\ o.lt = (c[i][j] < 0) /\ o.le = (c[i][j] <= 0) /\ o.gt = (c[i][j] > 0) /\ o.ge = (c[i][j] >= 0)
       /\ e.kind = "cn" => (c[i][j] < 0) = CnLess(x[i], x[j])
  \* sorting puts them in that order and loses none
  /\ LET s == e.res.val.sorted  c == e.res.val.cmp IN
     /\ {s[i] : i \in 1..Len(s)} = 1..Len(e.vals) /\ Len(s) = Len(e.vals)
     /\ \A i \in 1..(Len(s) - 1) : c[s[i]][s[i + 1]] <= 0

----------------------------------------------------------------------------
\* C25: what each path holds, by handle
PathOps == {"p.new", "p.parse", "p.push", "p.extend", "p.clone", "p.clonefrom", "p.parent", "p.into", "p.drop", "p.view", "p.eq", "p.derive"}
Put(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Without(f, hs) == [x \in DOMAIN f \ hs |-> f[x]]
PathsNext(st, e) ==
  IF e.res.tag # "ok" THEN st
  ELSE CASE e.op = "p.new" -> Put(st, e.out, <<>>)
         [] e.op = "p.parse" -> LET r == ParsePath(e.text) IN IF IsOk(r) THEN Put(st, e.out, Val(r)) ELSE st
         [] e.op = "p.push" -> Put(st, e.h, Append(st[e.h], e.cn))
         [] e.op = "p.extend" -> Put(st, e.h, st[e.h] \o (IF e.via = "path" THEN st[e.from] ELSE e.cns))
         [] e.op = "p.clone" -> Put(st, e.out, st[e.h])
         [] e.op = "p.clonefrom" -> Put(st, e.h, st[e.from])
         [] e.op = "p.parent" -> IF st[e.h] = <<>> THEN st ELSE Put(st, e.out, ParentPath(st[e.h]))
         [] e.op \in {"p.into", "p.drop"} -> Without(st, {e.h})
         [] OTHER -> st
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
C25(e, aux) == e.op \in PathOps =>
  LET st == aux.paths  n == PathsNext(st, e)  r == e.res IN
  /\ IF e.op = "p.parse" THEN Match(ParsePath(e.text), r) ELSE Good(r)
  /\ Good(r) =>
     CASE e.op = "p.into" -> r.val.fwd = st[e.h] /\ r.val.back = Reversed(st[e.h])
       [] e.op = "p.parent" -> r.val = (st[e.h] # <<>>)
       [] e.op = "p.view" -> LET p == st[e.h]  v == r.val IN
            /\ v.text = ShowPath(p) /\ v.len = Len(p) /\ v.empty = (p = <<>>) /\ v.iter = p /\ v.again = p /\ v.fresh /\ Match({Ok(p)}, v.back)
            /\ \A i \in 1..Len(v.nth) : v.nth[i] = (IF i <= Len(p) THEN <<p[i]>> ELSE <<>>)
       [] e.op = "p.eq" -> LET w == st[e.h] = st[e.g] IN r.val = [eq |-> w, rev |-> w, ne |-> ~w]
       [] e.op = "p.derive" -> Match(NewFromPath(e.seed, st[e.h]), r.val.new) /\ Match(NewFromPath(e.seed, st[e.h]), r.val.from)
       [] OTHER -> TRUE
  \* every path holds what it should, whatever was done to the others
  /\ {e.all[i].h : i \in 1..Len(e.all)} = DOMAIN n
  /\ \A i \in 1..Len(e.all) : e.all[i].path = n[e.all[i].h]

----------------------------------------------------------------------------
\* C15: who owns which watched buffer, and what every living object must still contain
Content(aux, h) == aux.content[h]
TicketsOf(e) == {e.res.val.tickets[i].t : i \in 1..Len(e.res.val.tickets)}
OwnAdd(own, ts, h) == [t \in DOMAIN own \cup ts |-> (IF t \in DOMAIN own THEN own[t] ELSE {}) \cup (IF t \in ts THEN {h} ELSE {})]
OwnDel(own, hs) == [t \in DOMAIN own |-> own[t] \ hs]
WipeOps == {"w.make", "w.clone", "w.drop", "w.dropthread", "w.unwind", "w.into"}
WipeNext(aux, e) ==
  IF ~Good(e.res) THEN aux
  ELSE CASE e.op = "w.make"  -> [aux EXCEPT !.content = Put(@, e.h, e.res.val.content), !.own = OwnAdd(@, TicketsOf(e), e.h)]
         [] e.op = "w.clone" -> [aux EXCEPT !.content = Put(@, e.out, aux.content[e.h]), !.own = OwnAdd(@, TicketsOf(e), e.out)]
         [] e.op \in {"w.drop", "w.dropthread"} -> [aux EXCEPT !.content = Without(@, {e.h}), !.own = OwnDel(@, {e.h})]
         [] e.op = "w.unwind" -> LET hs == {e.hs[i] : i \in 1..Len(e.hs)} IN [aux EXCEPT !.content = Without(@, hs), !.own = OwnDel(@, hs)]
         [] e.op = "w.into" -> [aux EXCEPT !.content = Put(@, e.h, <<aux.content[e.h][1]>>), !.own = OwnDel(@, {e.h})]
C15(e, aux) == e.op \in WipeOps =>
   LET n == WipeNext(aux, e) IN
   /\ e.res.tag # "panic"
   /\ (Good(e.res) /\ e.op = "w.clone") => e.res.val.content = aux.content[e.h]
   /\ (Good(e.res) /\ e.op = "w.into") => e.res.val = aux.content[e.h][1]
   \* living objects are undisturbed
   /\ {e.alive[i].h : i \in 1..Len(e.alive)} = DOMAIN n.content
   /\ \A i \in 1..Len(e.alive) : e.alive[i].content = n.content[e.alive[i].h]
   \* buffers nobody owns any more have been wiped (or handed over); none was released dirty
   /\ \A t \in 1..Len(e.mem) : /\ e.mem[t] # "dirty"
                               /\ (t \in DOMAIN n.own /\ n.own[t] = {}) => e.mem[t] \in {"clean", "given"}

----------------------------------------------------------------------------
AuxInit == [store |-> <<>>, sigs |-> {}, content |-> <<>>, own |-> <<>>, paths |-> <<>>]
AuxNext(aux, e) ==
  IF e.op \in WipeOps THEN WipeNext(aux, e)
  ELSE IF e.op \in PathOps THEN [aux EXCEPT !.paths = PathsNext(@, e)]
  ELSE IF ~Good(e.res) THEN aux
  ELSE IF e.op = "sign" /\ Prop = "C14"
       THEN [aux EXCEPT !.sigs = @ \cup {[key |-> e.key, sig |-> e.res.val.sig, r |-> Take(e.res.val.sig, 32)]}]
  ELSE IF Prop = "C19" /\ "out" \in DOMAIN e THEN [aux EXCEPT !.store = Put(@, e.out, e.res.val)]
  ELSE aux

Holds(e, aux) ==
  IF e.res.tag = "skip" THEN TRUE
  ELSE CASE Prop = "C01" -> C01(e) [] Prop = "C02" -> C02(e) [] Prop = "C03" -> C03(e) [] Prop = "C04" -> C04(e)
         [] Prop = "C05" -> C05(e) [] Prop = "C06" -> C06(e) [] Prop = "C07" -> C07(e) [] Prop = "C08" -> C08(e)
         [] Prop = "C09" -> C09(e) [] Prop = "C10" -> C10(e) [] Prop = "C11" -> C11(e) [] Prop = "C12" -> C12(e)
         [] Prop = "C13" -> C13(e) [] Prop = "C14" -> C14(e, aux) [] Prop = "C15" -> C15(e, aux) [] Prop = "C16" -> C16(e)
         [] Prop = "C17" -> C17(e) [] Prop = "C18" -> C18(e) [] Prop = "C19" -> C19(e, aux) [] Prop = "C20" -> C20(e)
         [] Prop = "C21" -> C21(e) [] Prop = "C22" -> C22(e) [] Prop = "C23" -> C23(e) [] Prop = "C24" -> C24(e)
         [] Prop = "C25" -> C25(e, aux) [] Prop = "C26" -> C26(e) [] Prop = "C27" -> C27(e)

VARIABLES s, l, aux
vars == <<s, l, aux>>
Init == s \in 1..Len(Sessions) /\ l = 1 /\ aux = AuxInit
Next == /\ l <= Len(Sessions[s].evs)
        /\ LET e == Sessions[s].evs[l] IN
           /\ IF Holds(e, aux) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson(<<Sessions[s].id, l>>))
           /\ aux' = AuxNext(aux, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================

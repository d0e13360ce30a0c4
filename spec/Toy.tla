-------------------------------- MODULE Toy --------------------------------
(* Small primitives for exhaustive exploration.  The group is the subgroup   *)
(* of order 5 of the integers mod 11 generated by 3 (a point is <<2, 3^k>>), *)
(* scalars are one byte, the keyed hash yields a scalar that may be invalid  *)
(* (0, 5, 6) and a one-byte chain code, the hash is a positional checksum    *)
(* that notices every single change, Base58 is the identity.                 *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL Sum(s, f(_, _)) == FoldLeft(LAMBDA a, i : a + f(i, s[i]), 0, [i \in 1..Len(s) |-> i])
LOCAL MulIdx(i, x) == i * x
LOCAL MulIdx2(i, x) == (i + 2) * (x + 1)
LOCAL JustX(i, x) == x
ToySha(m) == <<Sum(m, MulIdx) % 251, Sum(m, JustX) % 251, Len(m) % 251, (3 * Sum(m, JustX) + Sum(m, MulIdx)) % 251>>
ToyRipemd(m) == m
ToyHmac(k, d) == LET s == Sum(d, MulIdx2) + 5 * Sum(k, MulIdx2) + d[Len(d)] * d[Len(d)] IN <<s % 7, (s \div 7) % 3>>
ToyPbkdf(p, q) == ToySha(p \o <<77>> \o q)
ToyScOk(k) == Len(k) = 1 /\ k[1] \in 1..4
ToyScAdd(a, c) == <<(a[1] + c[1]) % 5>>
LOCAL Pow3 == [k \in 0..4 |-> <<1, 3, 9, 5, 4>>[k + 1]]
ToyPtOf(k) == <<2, Pow3[k[1]]>>
ToyPtOk(p) == Len(p) = 2 /\ p[1] = 2 /\ p[2] \in {3, 9, 5, 4}
ToyPtAddG(p, k) == LET q == (p[2] * Pow3[k[1]]) % 11 IN IF q = 1 THEN <<>> ELSE <<2, q>>
ToyEnc(b) == b
ToyDec(s) == s
ToyValid(s) == \A i \in 1..Len(s) : s[i] \in 0..255
ToySame(u) == u
ToyIdx(s, w) == IF \E i \in 1..Len(s) : s[i] = w THEN CHOOSE i \in 1..Len(s) : s[i] = w ELSE 0
ToyWords(l) == <<>>
ToyLetters == (65..90) \cup (97..122)
ToyPrefixes == << [ver |-> <<120, 112, 114, 118>>, chars |-> <<120, 112, 114, 118>>],
                  [ver |-> <<120, 112, 117, 98>>,  chars |-> <<120, 112, 117, 98>>],
                  [ver |-> <<122, 112, 114, 118>>, chars |-> <<122, 112, 114, 118>>],
                  [ver |-> <<122, 112, 117, 98>>,  chars |-> <<122, 112, 117, 98>>] >>
ToySeedLens == {2}
ToySalt == <<1>>
=============================================================================

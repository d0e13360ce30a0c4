-------------------------------- MODULE Real --------------------------------
(* KMS with its real primitives, sizes, dictionaries and prefixes.           *)
EXTENDS KMS, Prims, Json, TLC
CONSTANT WordFile       \* the official dictionaries, words as bytes

WordData == JsonDeserialize(WordFile)
RealWords(l) == WordData[l]
RealLetters == (65..90) \cup (97..122)
RealSalt == <<66, 105, 116, 99, 111, 105, 110, 32, 115, 101, 101, 100>>     \* "Bitcoin seed"
\* SLIP-132 registered versions: tprv tpub xprv xpub yprv ypub zprv zpub (constants of
\* the library), then uprv upub vprv vpub Yprv Ypub Zprv Zpub Uprv Upub Vprv Vpub
RealPrefixes == <<
  [ver |-> <<4, 53, 131, 148>>,  chars |-> <<116, 112, 114, 118>>],
  [ver |-> <<4, 53, 135, 207>>,  chars |-> <<116, 112, 117, 98>>],
  [ver |-> <<4, 136, 173, 228>>, chars |-> <<120, 112, 114, 118>>],
  [ver |-> <<4, 136, 178, 30>>,  chars |-> <<120, 112, 117, 98>>],
  [ver |-> <<4, 157, 120, 120>>, chars |-> <<121, 112, 114, 118>>],
  [ver |-> <<4, 157, 124, 178>>, chars |-> <<121, 112, 117, 98>>],
  [ver |-> <<4, 178, 67, 12>>,   chars |-> <<122, 112, 114, 118>>],
  [ver |-> <<4, 178, 71, 70>>,   chars |-> <<122, 112, 117, 98>>],
  [ver |-> <<4, 74, 78, 40>>, chars |-> <<117, 112, 114, 118>>],
  [ver |-> <<4, 74, 82, 98>>, chars |-> <<117, 112, 117, 98>>],
  [ver |-> <<4, 95, 24, 188>>, chars |-> <<118, 112, 114, 118>>],
  [ver |-> <<4, 95, 28, 246>>, chars |-> <<118, 112, 117, 98>>],
  [ver |-> <<2, 149, 176, 5>>, chars |-> <<89, 112, 114, 118>>],
  [ver |-> <<2, 149, 180, 63>>, chars |-> <<89, 112, 117, 98>>],
  [ver |-> <<2, 170, 122, 153>>, chars |-> <<90, 112, 114, 118>>],
  [ver |-> <<2, 170, 126, 211>>, chars |-> <<90, 112, 117, 98>>],
  [ver |-> <<2, 66, 133, 181>>, chars |-> <<85, 112, 114, 118>>],
  [ver |-> <<2, 66, 137, 239>>, chars |-> <<85, 112, 117, 98>>],
  [ver |-> <<2, 87, 80, 72>>, chars |-> <<86, 112, 114, 118>>],
  [ver |-> <<2, 87, 84, 131>>, chars |-> <<86, 112, 117, 98>>] >>
RealEntLens == {16, 20, 24, 28, 32}
RealSeedLens == {16, 32, 64, 128}
RealLangs == {"en", "zh"}
RealGb == {"zh"}

=============================================================================

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Composition Commutation Barrier Lineage ValidKeys Texts SameText Tamper
PROPERTY Immutable
CONSTANTS
  SHA256 <- ToySha
  HMAC <- ToyHmac
  PBKDF2 <- ToyPbkdf
  RIPEMD <- ToyRipemd
  ScOk <- ToyScOk
  ScAdd <- ToyScAdd
  PtOf <- ToyPtOf
  PtOk <- ToyPtOk
  PtAddG <- ToyPtAddG
  B58Enc <- ToyEnc
  B58Dec <- ToyDec
  B58Valid <- ToyValid
  NFKD <- ToySame
  GB <- ToySame
  CPs <- ToySame
  UTF8 <- ToySame
  IdxOf <- ToyIdx
  ByteBits = 8
  WordBits = 11
  CsRatio = 32
  EntLens = {}
  Langs = {}
  Words <- ToyWords
  GbLangs = {}
  KeySize = 1
  MaxDepth = 3
  SeedLens <- ToySeedLens
  MasterSalt <- ToySalt
  StdPrefixes <- ToyPrefixes
  LetterSet <- ToyLetters
  Roots <- MCRoots
  Indices <- MCIndices

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Prop
CONSTANTS
  SHA256 <- KHash
  HMAC <- KHmac
  PBKDF2 <- KSkip2
  RIPEMD <- KHash
  ScOk <- KScOk
  ScAdd <- KScAdd
  PtOf <- KPtOf
  PtOk <- KPtOk
  PtAddG <- KPtAddG
  B58Enc <- KSame
  B58Dec <- KSame
  B58Valid <- KSame
  NFKD <- KSame
  GB <- KSame
  CPs <- KSame
  UTF8 <- KSame
  IdxOf <- KSkip2
  ByteBits = 8
  WordBits = 11
  CsRatio = 32
  EntLens = {}
  Langs = {}
  Words <- KSame
  GbLangs = {}
  KeySize = 1
  MaxDepth = 3
  SeedLens <- KSeedLens
  MasterSalt <- KSalt
  StdPrefixes <- KNone
  LetterSet <- KNone

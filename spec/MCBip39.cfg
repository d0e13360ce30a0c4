SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Prop
CONSTANTS
  SHA256 <- BSha
  HMAC <- Skip2
  PBKDF2 <- BPbkdf
  RIPEMD <- Skip1
  ScOk <- Skip1
  ScAdd <- Skip2
  PtOf <- Skip1
  PtOk <- Skip1
  PtAddG <- Skip2
  B58Enc <- Skip1
  B58Dec <- Skip1
  B58Valid <- Skip1
  NFKD <- BNfkd
  GB <- BGb
  CPs <- BSame
  UTF8 <- BSame
  IdxOf <- BIdx
  ByteBits = 2
  WordBits = 3
  CsRatio = 8
  EntLens <- BEntLens
  Langs <- BLangs
  Words <- BWords
  GbLangs = {"zh"}
  KeySize = 1
  MaxDepth = 3
  SeedLens = {}
  MasterSalt <- None1
  StdPrefixes <- None1
  LetterSet = {}

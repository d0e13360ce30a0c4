SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Parents
PROPERTY OneAtATime
VIEW PView
CONSTANTS
  SHA256 <- Skip1
  HMAC <- Skip2
  PBKDF2 <- Skip2
  RIPEMD <- Skip1
  ScOk <- Skip1
  ScAdd <- Skip2
  PtOf <- Skip1
  PtOk <- Skip1
  PtAddG <- Skip2
  B58Enc <- Skip1
  B58Dec <- Skip1
  B58Valid <- Skip1
  NFKD <- Skip1
  GB <- Skip1
  CPs <- Skip1
  UTF8 <- Skip1
  IdxOf <- Skip2
  ByteBits = 2
  WordBits = 3
  CsRatio = 8
  EntLens = {}
  Langs = {}
  Words <- Skip1
  GbLangs = {"zh"}
  KeySize = 1
  MaxDepth = 3
  SeedLens = {}
  MasterSalt <- None1
  StdPrefixes <- None1
  LetterSet = {}

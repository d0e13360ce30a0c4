\* template: bin/check fills in Prop, LogFile and WordFile
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SHA256 <- Sha256
  HMAC <- HmacSha512
  PBKDF2 <- Pbkdf2
  RIPEMD <- Ripemd160
  ScOk <- ScalarOk
  ScAdd <- ScalarAdd
  PtOf <- PointOf
  PtOk <- PointOk
  PtAddG <- PointAddG
  B58Enc <- Base58Enc
  B58Dec <- Base58Dec
  B58Valid <- Base58Valid
  NFKD <- Nfkd
  GB <- Gb18030
  CPs <- CodePoints
  UTF8 <- Utf8
  IdxOf <- IndexOf
  ByteBits = 8
  WordBits = 11
  CsRatio = 32
  EntLens <- RealEntLens
  Langs <- RealLangs
  Words <- RealWords
  GbLangs <- RealGb
  KeySize = 32
  MaxDepth = 255
  SeedLens <- RealSeedLens
  MasterSalt <- RealSalt
  StdPrefixes <- RealPrefixes
  LetterSet <- RealLetters

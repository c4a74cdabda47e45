SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
    Streams <- GStreams
    HashTab <- NoTab
    ChainTab <- NoTab
    MacTab <- NoTab
    OkmTab <- NoTab
    KsTab <- NoTab
    ErrNone = 0
    ErrBase16 = 6
    ErrBase64 = 4
    ErrAead = 2
    HashOf <- SymHash
    HmacOfT <- SymHmac
    PolyTag <- SymPoly
    HkdfOfT <- SymHkdf
    Pbkdf2PieceT <- SymPbkdf2
    Keystream <- SymKeystream
    AeadTagOver <- SymTag
    FullTag <- SymMacTag

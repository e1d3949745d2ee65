CONSTANTS Emit = TRUE MaxT = 2 MaxB = 3 Chars = {65, 228, 8364, 55357, 56832, 32, 37} Chars1 = {0, 127, 128, 2047, 2048, 65535, 56320, 65279, 710, 63743, 43} Bytes = {0, 65, 128, 195, 239, 187, 191, 255, 254, 240, 144}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI ByteRange UnitRange UrlAscii Shorter
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE

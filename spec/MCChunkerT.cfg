CONSTANTS
    Alphabet = {0, 1}
    MaxLen = 8
    MaxPiece = 8
SPECIFICATION Spec
INVARIANTS StartOk RingOk SizeOk
CHECK_DEADLOCK FALSE

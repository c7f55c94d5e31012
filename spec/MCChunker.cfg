CONSTANTS
    Alphabet = {0, 1}
    MaxLen = 6
    MaxPiece = 6
SPECIFICATION Spec
INVARIANTS StartOk RingOk SizeOk
CHECK_DEADLOCK FALSE

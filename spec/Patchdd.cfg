SPECIFICATION Spec
CONSTANTS BS = 3
 Val = {0, 1}
 MaxSrc = 5
 MaxDst = 5
INVARIANTS SuccessMeansCopied RestUntouched OnlySource TooSmall NothingInPlaceWritten
CHECK_DEADLOCK FALSE

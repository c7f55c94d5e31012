SPECIFICATION Spec
CONSTANTS BS = 3
 Val = {0, 1}
 MaxSrc = 7
 MaxDst = 7
INVARIANTS SuccessMeansCopied RestUntouched OnlySource TooSmall NothingInPlaceWritten
CHECK_DEADLOCK FALSE

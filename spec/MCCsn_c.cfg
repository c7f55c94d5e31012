CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 1
    Tries = 2
    Ent <- EntOdd
    MaxLen = 2
    StoreCat = {"good", "both", "stale", "liar", "target", "weird", "side"}
    MaxStores = 2
    SecondRun <- NoRun
    Faults = {}
SPECIFICATION MCSpecQ
INVARIANTS TypeOK SuccessMeansImage PrefixUntouched AskInOrder NoNeedToFail NoRepeatedDownload RepeatsReused GivenUpOnlyAfterErrors KeptUntilThen
PROPERTIES Terminates OnlyVerified PrefixGrows WriteExtends NeverAfterDrop StaysDropped FirstWins
CHECK_DEADLOCK FALSE

CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 1
    Tries = 2
    Ent <- EntThree
    MaxLen = 4
    StoreCat = {"good", "flaky", "weird", "target", "seed1", "seedio", "stale", "shared"}
    MaxStores = 2
    SecondRun <- NoRun
    Faults = {}
SPECIFICATION MCSpecQ
INVARIANTS TypeOK SuccessMeansImage PrefixUntouched AskInOrder NoNeedToFail NoRepeatedDownload RepeatsReused GivenUpOnlyAfterErrors KeptUntilThen
PROPERTIES Terminates OnlyVerified PrefixGrows WriteExtends NeverAfterDrop StaysDropped FirstWins
CHECK_DEADLOCK FALSE

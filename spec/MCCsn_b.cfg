CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 1
    Tries = 2
    Ent <- EntPlain
    MaxLen = 3
    StoreCat = {"good", "flaky", "seed1", "target"}
    MaxStores = 1
    SecondRun <- GoodRun
    Faults = {"kill", "werr"}
SPECIFICATION MCSpecQ
INVARIANTS TypeOK SuccessMeansImage PrefixUntouched AskInOrder NoNeedToFail NoRepeatedDownload RepeatsReused GivenUpOnlyAfterErrors KeptUntilThen Completed
PROPERTIES Terminates OnlyVerified PrefixGrows WriteExtends NeverAfterDrop StaysDropped FirstWins
CHECK_DEADLOCK FALSE

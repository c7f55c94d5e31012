CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 1
    Tries = 2
    Ent <- EntPlain
    MaxLen = 2
    StoreCat = {"good", "flaky", "target"}
    MaxStores = 1
    SecondRun <- GoodRun
    Faults = {"kill"}
SPECIFICATION MCSpec
INVARIANTS TypeOK SuccessMeansImage PrefixUntouched AskInOrder NoNeedToFail NoRepeatedDownload RepeatsReused GivenUpOnlyAfterErrors KeptUntilThen Completed
PROPERTIES Terminates OnlyVerified PrefixGrows EventuallyDone
CHECK_DEADLOCK FALSE

CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 10
    Tries = 10
    Ent <- EntPlain
    MaxLen = 26
    StoreCat = {"counts"}
    MaxStores = 1
    SecondRun <- NoRun
    Faults = {}
SPECIFICATION CountSpec
INVARIANTS TypeOK SuccessMeansImage GivenUpOnlyAfterErrors KeptUntilThen
PROPERTIES Terminates StaysDropped FirstWins NeverAfterDrop
CHECK_DEADLOCK FALSE
VIEW View

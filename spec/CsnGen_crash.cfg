CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 10
    Tries = 10
    Ent <- EntPlain
    MaxLen = 3
    StoreCat = {"good", "seed1", "target"}
    MaxStores = 2
    SecondRun <- GoodRun
    Faults = {"kill", "werr"}
    SimLens = {1}
    SimStores = {1}
    SimCount = 1
SPECIFICATION GenSpec
INVARIANT Out
CHECK_DEADLOCK FALSE

CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 10
    Tries = 10
    Ent <- EntPlain
    MaxLen = 3
    StoreCat = {"good", "shaky", "weird", "target", "seed1", "seedio", "stale", "both"}
    MaxStores = 2
    SecondRun <- NoRun
    Faults = {}
    SimLens = {1}
    SimStores = {1}
    SimCount = 1
SPECIFICATION GenSpec
INVARIANT Out
CHECK_DEADLOCK FALSE

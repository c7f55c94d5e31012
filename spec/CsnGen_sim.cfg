CONSTANTS
    Sids <- NoSids
    ScnOf <- Itself
    ErrMax = 10
    Tries = 10
    Ent <- EntSim
    MaxLen = 1
    StoreCat = {"good", "flaky", "weird", "target", "seed1", "seedio", "stale", "both", "counts", "late", "errs", "empty", "side"}
    MaxStores = 2
    SecondRun <- GoodRun
    Faults = {"kill", "werr"}
    SimLens = {1, 3, 6, 10, 16, 30}
    SimStores = {0, 1, 2, 3}
    SimCount = 3000
SPECIFICATION SimSpec
INVARIANT Out
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Fan = 2  Dep = 2  MaxAmount = 1  MaxSets = 4  MaxFaults = 0
INVARIANTS InvWellFormed InvConsistent InvTotal InvRootCurrent InvLookup InvNonces InvEnabled
PROPERTIES RootMoves Completes
CHECK_DEADLOCK FALSE

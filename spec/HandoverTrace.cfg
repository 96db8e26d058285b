SPECIFICATION TSpec
CONSTANT Sources = {}
CONSTANT Calls = {}
CONSTANT MaxCalls = 1000
CONSTANT MaySkip = TRUE
CONSTANT MaxBlocks = 0
CONSTANT MaxPerBlock = 0
CONSTANT MaxTotal = 0
INVARIANTS Accepted Refines NothingLost
VIEW View
CHECK_DEADLOCK FALSE

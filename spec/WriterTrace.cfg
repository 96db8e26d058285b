SPECIFICATION TSpec
CONSTANT Kinds = {}
CONSTANT Calls = {}
CONSTANT MaxCalls = 0
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE

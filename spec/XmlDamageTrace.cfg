SPECIFICATION TSpec
CONSTANT Docs = {}
CONSTANT Hows = {}
CONSTANT N = 0
INVARIANTS Accepted NeverComplete
VIEW View
CHECK_DEADLOCK FALSE

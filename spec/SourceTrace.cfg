SPECIFICATION TSpec
CONSTANT Docs = {}
CONSTANT MaxStreams = 1
CONSTANT MaxIntr = 0
CONSTANT Cap = 1
INVARIANTS Faithful Accepted
CHECK_DEADLOCK FALSE

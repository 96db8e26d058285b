SPECIFICATION TSpec
CONSTANT Histories = {}
CONSTANT MaxChunk = 1
INVARIANTS Accepted Delivered CutAtCap
PROPERTY Reported
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Histories <- Small
CONSTANT MaxChunk = 2
INVARIANTS Delivered CutAtCap FirstFailure
PROPERTY Reported
CHECK_DEADLOCK FALSE
